// C25 Parallel results do not depend on message timing and never deadlock
#include "ref/ops.hh"
using namespace ops;

void enumerate ()
{
  bool th = E.thorough;
  E.maxdev = th ? 3 : 2;
  static const char *names[] = {"unit", "periodic", "pillow", "rotwrap", "brick", "twocubes", "moebius", "cubed", "star", "rotcubes"};
  for (auto &op : all_ops ()) for (auto nm : names) {
    auto m = named (nm);
    if (!m) continue;
    E.stage ("%s: %s", op.name, nm);
    HostConn hc (m);
    auto fs = reachable (uniform (m->nt, 0), m->nt == 1 ? 3 : 2, 3, th ? 200 : 24);
    // the richest ones first
    std::reverse (fs.begin (), fs.end ());
    if (fs.size () > (th ? 60 : 3)) fs.resize (th ? 60 : 3);
    int rot = 0;
    for (auto &L : fs) {
      if (!E.take ()) { ++rot; continue; }
      int v0 = rot++;
      E.state ();
      parts (L, 2, op.maxP, th ? 20 : 4, [&](int P, const std::vector<int> &g) {
        for (int sync = 0; sync < 2; ++sync) {
          int v = v0++ % op.variants;
          if (!E.sub ()) continue;
          E.describe ([=, &L, &op] { return strf ("%s variant %d %s cuts %s %s leaves {%s}", op.name, v, nm, str (g).c_str (), sync ? "unbuffered" : "buffered", str (L).c_str ()); });
          E.transition ();
          E.validated ();
          std::vector<std::string> ref ((size_t) P), now ((size_t) P);
          auto body = [&](std::vector<std::string> &out) {
            return [&](int r) {
              rank_begin ();
              Ctx c {&hc.c, &L, g, r, P, v, E.scratch, {}, sc_MPI_COMM_WORLD};
              op.fn (c);
              out[(size_t) r] = std::move (c.d.s);
              rank_end ();
            };
          };
          vp::Options o;
          o.leak_mpi = true;
          // the most synchronized execution is the reference
          auto oc = E.once (P, o, body (ref));
          if (oc.kind != vp::OK) { E.bad ("%s", oc.why.c_str ()); continue; }
          o.sync_send = sync;
          o.loose = true;
          o.choices = true;
          o.poison = 0x5C;
          o.fill = 0x3C;
          E.maxexec = th ? 400 : 16;
          E.run (P, o, [&](int r) {
            body (now) (r);
            if (now[(size_t) r] != ref[(size_t) r]) {
              size_t k = 0;
              while (k < now[(size_t) r].size () && k < ref[(size_t) r].size () && now[(size_t) r][k] == ref[(size_t) r][k]) ++k;
              fail ("result depends on the order of messages (byte %zu of %zu)", k, ref[(size_t) r].size ());
            }
          });
        }
      });
    }
  }
}
