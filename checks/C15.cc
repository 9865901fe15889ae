// C15 Node numbering is globally unique, continuous and partition independent
#include "ref/nodes.hh"
using namespace br;

static void body (HostConn &hc, const Cells &L, const std::vector<int> &g, const GhostSets &S, const Hang &H, const std::vector<NodeRef> &Ns, std::vector<NodeMap> &Ms, size_t ds)
{
  rank_begin ();
  int me = vp::me ();
  p4est_t *p = make_p4est (&hc.c, L, g, ds, NULL);
  p4est_ghost_t *gl = p4est_ghost_new (p, full_type ());
  for (size_t k = 0; k < Ns.size (); ++k) {
    p4est_lnodes_t *ln = p4est_lnodes_new (p, gl, Ns[k].degree);
    check_lnodes (ln, me, L, g, H, Ns[k], Ms[k]);
    p4est_lnodes_destroy (ln);
  }
  check_ghost (gl, me, L, g, S, hc.m->nt, full_type (), "after lnodes_new");
  check_p4est (p, L, g, 1, "after lnodes_new");
  p4est_ghost_destroy (gl);
  p4est_destroy (p);
  rank_end ();
}

void enumerate ()
{
  bool th = E.thorough;
  static const std::vector<int> deg2 {1, 2, 3, -1, -2, 4, 5}, deg3 {1, 2, -3, -1, -2, 3};
  const auto &degs = D == 2 ? deg2 : deg3;
  // 2D face, 3D edge balance suffice; corner balance is the usual case
  for (int bal = D == 2 ? 1 : 1; bal >= 0; --bal) {
    SpaceOpt o;
    o.bal = bal;
    o.shapes = D == 2 && bal;
    o.cap = D == 2 ? (bal ? 40 : 150) : (bal ? 15 : 40);
    o.twocap = D == 2 ? 20 : 10;
    o.K1 = D == 2 ? 4 : 3;
    if (D == 3) o.Lmax = 3;
    if (th) { o.K1++; o.K4++; o.cap *= 8; o.twoK++; o.twocap *= 8; }
    spaces (o, [&](HostConn &hc, const Cells &L) {
      int ml = 0;
      for (auto &c : L) ml = std::max (ml, c.l);
      if (L.size () > 700) return;
      Adj A = adjacency ({hc.m, L});
      Hang H = hanging (*hc.m, L);
      std::map<int, NodeRef> ref;
      int rot = (int) L.size () + 3 * bal;
      parts (L, 1, 3, th ? 100 : L.size () > 60 ? 4 : 20, [&](int P, const std::vector<int> &g) {
        std::vector<NodeRef> Ns;
        // two degrees for every case, all of them in turn
        ++rot;
        if (!E.sub ()) return;
        GhostSets S = ghost_sets (A, g, 0);
        for (int k = 0; k < 2; ++k) {
          int d = degs[(rot * 2 + k) % degs.size ()];
          // positions of high degree are not representable at the deepest levels
          if (node_bits (d) > 30 - ml) d = d % 2 + 1;
          if (L.size () > 200 && d > 2) d = 2;
          if (!ref.count (d)) ref[d] = node_ref (*hc.m, L, H, d);
          Ns.push_back (ref[d]);
        }
        std::vector<NodeMap> Ms (Ns.size ());
        size_t ds = rot % 2 ? 3 : 0;
        E.describe ([=, &hc, &L] { return strf ("%s degrees %d %d cuts %s leaves {%s}", hc.m->name.c_str (), Ns[0].degree, Ns[1].degree, str (g).c_str (), str (L).c_str ()); });
        E.transition (2);
        E.validated ();
        vp::Options op;
        op.leak_mpi = true;
        op.sync_send = rot % 2;
        op.choices = P > 1 && rot % 16 == 0;
        E.maxexec = th ? 100 : 12;
        auto before = [&] { for (size_t k = 0; k < Ns.size (); ++k) Ms[k].reset (Ns[k].n); };
        auto run = [&](int) { body (hc, L, g, S, H, Ns, Ms, ds); };
        auto o = owners (g);
        bool dev = false;
        for (auto &N : Ns) for (int k = 0; k < N.n; ++k) dev = dev || o[N.low[k]] != o[N.alt[k]];
        if (dev) {
          // a tree that touches itself: see the known finding lnodes-owner-order
          before ();
          vp::Options o1 = op;
          o1.choices = false;
          auto r = E.once (P, o1, run);
          if (r.kind != vp::OK) {
            for (auto &N : Ns) std::swap (N.low, N.alt);
            E.run (P, op, run, before);
            E.key = "lnodes-owner-order";
            E.bad ("nodes are owned by the process of the lowest element on the first side of the tree boundary instead of the lowest element touching them");
            E.key.clear ();
            return;
          }
        }
        E.run (P, op, run, before);
      });
    });
  }
}
