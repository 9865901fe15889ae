// C09 Partitioning keeps elements and data and meets the target counts
#include "ref/part.hh"
using namespace br;

struct Case
{
  const Cells *L;
  std::vector<int> g, h, w;
  bool weights, coarsen, given, plain;
  size_t ds;
};
static Case X;
static std::vector<int> seen;           // next expected element per rank
static int token;

static int weight_cb (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q)
{
  int me = vp::me ();
  int i = X.g[me] + seen[me]++;
  if (i >= X.g[me + 1]) fail ("weight callback runs too often");
  if (to_cell (*q, t) != (*X.L)[i]) fail ("weight callback for %s expected %s", str (to_cell (*q, t)).c_str (), str ((*X.L)[i]).c_str ());
  if (p->user_pointer != &token) fail ("weight callback: user pointer");
  if (X.ds && !data_ok (q->p.user_data, X.ds, (*X.L)[i])) fail ("weight callback: data of %s", str ((*X.L)[i]).c_str ());
  return X.w[i];
}
static void body (HostConn &hc)
{
  rank_begin ();
  int me = vp::me (), P = (int) X.g.size () - 1;
  p4est_t *p = make_p4est (&hc.c, *X.L, X.g, X.ds, &token);
  p->revision = 5;
  long want = 0;
  auto o = owners (X.g), n = owners (X.h);
  for (size_t i = 0; i < o.size (); ++i) want += o[i] != n[i];
  p4est_gloidx_t shipped;
  if (X.given) {
    std::vector<p4est_locidx_t> cnt (P);
    for (int i = 0; i < P; ++i) cnt[i] = X.h[i + 1] - X.h[i];
    shipped = p4est_partition_given (p, cnt.data ());
  }
  else {
    if (X.plain) { p4est_partition (p, X.coarsen, X.weights ? weight_cb : NULL); shipped = want; }
    else shipped = p4est_partition_ext (p, X.coarsen, X.weights ? weight_cb : NULL);
    if (p->revision != 5 + (want > 0)) fail ("revision 5 -> %ld although %ld elements changed owner", (long) p->revision, want);
    if (X.weights && P > 1 && seen[me] != X.g[me + 1] - X.g[me]) fail ("weight callback ran %d times for %d elements", seen[me], X.g[me + 1] - X.g[me]);
  }
  check_p4est (p, *X.L, X.h, 1, "partition");
  if (shipped != want) fail ("shipped count %lld expected %ld", (long long) shipped, want);
  if (p->user_pointer != &token || p->data_size != X.ds || p->connectivity != &hc.c) fail ("fields of the forest changed");
  p4est_destroy (p);
  rank_end ();
}
static void one (HostConn &hc, const Cells &L, const std::vector<int> &g, bool weights, const std::vector<int> &w, bool coarsen, const std::vector<int> *given, int rot)
{
  if (!E.sub ()) return;
  int P = (int) g.size () - 1;
  X.L = &L; X.g = g; X.w = w; X.weights = weights; X.coarsen = coarsen; X.given = given != nullptr; X.plain = rot % 4 == 3;
  X.ds = rot % 3 == 0 ? 0 : rot % 3 == 1 ? 8 : 13;
  if (given) X.h = *given;
  else if (P == 1) X.h = g;
  else {
    std::vector<int> t = weights ? weighted_cuts (w, P, g) : equal_cuts ((int) L.size (), P);
    bool zero = weights;
    for (int v : w) zero = zero && v == 0;
    X.h = coarsen && !zero ? for_coarsening (L, t) : t;
    // consequences that are promised independently of the rule above
    if (coarsen && !zero) for (int i = 0; i <= P; ++i) if (std::abs (X.h[i] - t[i]) >= NC) E.count ("far corrections");
  }
  auto h = X.h;
  E.describe ([=, &hc, &L] { return strf ("%s %s%s cuts %s -> %s weights %s data %zu leaves {%s}", hc.m->name.c_str (), given ? "given" : weights ? "weighted" : "equal", coarsen ? " for coarsening" : "", str (g).c_str (), str (h).c_str (), weights ? str (w).c_str () : "-", X.ds, str (L).c_str ()); });
  vp::Options op;
  op.leak_mpi = true;
  E.transition (); E.validated ();
  E.run (P, op, [&](int) { body (hc); }, [&] { seen.assign (P, 0); });
}
static std::vector<std::vector<int>> patterns (const Cells &L)
{
  int n = (int) L.size ();
  std::vector<std::vector<int>> v;
  std::vector<int> w (n, 0);
  v.push_back (w);
  w.assign (n, 1); v.push_back (w);
  w.assign (n, 0); w[0] = 1; v.push_back (w);
  w.assign (n, 0); w[n - 1] = 3; v.push_back (w);
  w.assign (n, 0); w[n / 2] = 2; v.push_back (w);
  for (int i = 0; i < n; ++i) w[i] = i;
  v.push_back (w);
  for (int i = 0; i < n; ++i) w[i] = L[i].l;
  v.push_back (w);
  w.assign (n, 2147483647); v.push_back (w);
  for (int i = 0; i < n; ++i) w[i] = i % 3 == 1 ? 2147483647 : i % 3;
  v.push_back (w);
  return v;
}

void enumerate ()
{
  bool th = E.thorough;
  SpaceOpt o;
  o.K1 = D == 2 ? 4 : 3; o.K4 = 2; o.Kn = 1; o.cap = th ? 2000 : D == 2 ? 110 : 60;
  o.twoK = -1; o.touch = false; o.shapes = D == 2;
  o.only = D == 2 ? std::vector<std::string> {"unit", "corner", "moebius", "cubed", "brick221"} : std::vector<std::string> {"unit", "twocubes", "rotcubes", "brick221"};
  spaces (o, [&](HostConn &hc, const Cells &L) {
    int rot = 0;
    auto pat = patterns (L);
    parts (L, 1, 4, th ? 200 : 50, [&](int P, const std::vector<int> &g) {
      for (int c = 0; c < 2; ++c) {
        one (hc, L, g, false, {}, c, nullptr, rot++);
        for (size_t k = 0; k < pat.size (); ++k) if (th || (int) k % 3 == rot % 3) one (hc, L, g, true, pat[k], c, nullptr, rot);
        rot++;
      }
      // prescribed counts
      if (L.size () <= 8 && P <= 3) partitions ((int) L.size (), P, [&](const std::vector<int> &h) { one (hc, L, g, false, {}, false, &h, rot++); });
      else for (auto h : {std::vector<int> ()}) {
        h.assign (P + 1, (int) L.size ()); h[0] = 0;
        one (hc, L, g, false, {}, false, &h, rot++);
        for (int i = 0; i < P; ++i) h[i] = 0;
        one (hc, L, g, false, {}, false, &h, rot++);
      }
    });
  });
  // all weights of small forests
  for (auto nm : {"unit", D == 2 ? "corner" : "twocubes"}) {
    auto m = named (nm);
    HostConn hc (m);
    auto fs = reachable (uniform (m->nt, 0), D == 2 ? 2 : 1, 3);
    int B = D == 2 ? 3 : 2;
    E.stage ("%s: all weights in 0..%d on up to %d leaves x all partitions", nm, B - 1, D == 2 ? 7 : 9);
    for (auto &L : fs) {
      int n = (int) L.size ();
      if (n > (D == 2 ? 7 : 9)) continue;
      long N = 1;
      for (int i = 0; i < n; ++i) N *= B;
      for (long k0 = 0; k0 < N; k0 += 64) {
        if (!E.take ()) continue;
        for (long k = k0; k < std::min (N, k0 + 64); ++k) {
          E.state ();
          std::vector<int> w (n);
          long q = k;
          for (int i = 0; i < n; ++i) { w[i] = q % B; q /= B; }
          int rot = (int) k;
          for (int P = 2; P <= 3; ++P) parts (n, P, P, th ? 1000 : 20, [&](int, const std::vector<int> &g) { ++rot; one (hc, L, g, true, w, rot & 1, nullptr, rot / 2); });
        }
      }
    }
  }
  // families scattered over many processes
  {
    auto m = named ("unit");
    HostConn hc (m);
    std::vector<Cells> fs = reachable (uniform (1, 1), D == 2 ? 2 : 1, 3);
    E.stage ("unit: families scattered over 5 to %d processes (%zu forests)", NC + 3, fs.size ());
    for (auto &L : fs) for (int P = 5; P <= NC + 3; ++P) {
      if (!E.take ()) continue;
      E.state ();
      int rot = 0;
      parts (L, P, P, th ? 2000 : 120, [&](int, const std::vector<int> &g) {
        one (hc, L, g, false, {}, true, nullptr, rot++);
        for (auto &w : patterns (L)) if (th || rot % 5 == 0) one (hc, L, g, true, w, true, nullptr, rot);
        rot++;
      });
      // weights that put every desired boundary anywhere
      int n = (int) L.size ();
      if (P <= 5) parts (n, P, P, th ? 2000 : 250, [&](int, const std::vector<int> &t) {
        std::vector<int> w (n, 0);
        // weights with cumulative sums equal to the cut values exactly at t
        for (int i = 1; i <= P; ++i) if (t[i] > 0) w[t[i] - 1] += 1;
        one (hc, L, equal_cuts (n, P), true, w, true, nullptr, rot++);
      });
    }
  }
}
