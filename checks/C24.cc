// C24 Building forests from cell lists, points or subsets gives the minimal forest
#include "ref/ops.hh"
#include "ref/part.hh"
using namespace br;

// ------------------------------------------------------------ reference
// first cell of deepest level after c
static Cell succ (Cell c)
{
  while (c.l > 0) {
    int i = child_id (c);
    if (i < NC - 1) return first_desc (child (parent (c), i + 1), QMAX);
    c = parent (c);
  }
  return first_desc (root (c.t + 1), QMAX);
}
// Coarsest cells inside c that cover the part of it in [a,b) and of which none is a strict ancestor of an A
static void cover (const Cell &c, const Cell &a, const Cell &b, const Cells &A, Cells &out)
{
  Cell f = first_desc (c, QMAX), l = last_desc (c, QMAX);
  if (l < a || !(f < b)) return;
  bool in = !(f < a) && l < b;
  auto it = std::upper_bound (A.begin (), A.end (), c);
  if (in && !(it != A.end () && contains (c, *it))) { out.push_back (c); return; }
  for (int i = 0; i < NC; ++i) cover (child (c, i), a, b, A, out);
}
static std::string gstr (const std::vector<int> &g) { std::string s; for (int x : g) s += strf (" %d", x); return s; }
// ---------------------------------------------------------------- build
struct Cand
{
  const Cells &L;
  std::vector<int> own;
  // antichains of cells below c: count and enumerate
  bool inrange (const Cell &c)
  {
    int o = -1;
    for (size_t i = 0; i < L.size (); ++i) if (contains (c, L[i])) { if (o >= 0 && own[i] != o) return false; o = own[i]; }
    return true;
  }
  int leafopts (const Cell &c) { return c.l < QMAX ? 5 : 2; }
  double cnt (const Cell &c)
  {
    if (std::binary_search (L.begin (), L.end (), c)) return leafopts (c);
    double n = 1;
    for (int i = 0; i < NC; ++i) n *= cnt (child (c, i));
    return n + inrange (c);
  }
  void get (const Cell &c, double code, Cells &out)
  {
    if (std::binary_search (L.begin (), L.end (), c)) {
      switch ((int) code) {
      case 0: break;
      case 1: out.push_back (c); break;
      case 2: out.push_back (child (c, 0)); break;
      case 3: out.push_back (last_desc (c, std::min (QMAX, c.l + 2))); break;
      case 4: out.push_back (child (c, 1)); out.push_back (child (c, 2)); break;
      }
      return;
    }
    if (inrange (c)) { if (code == 0) { out.push_back (c); return; } code -= 1; }
    for (int i = 0; i < NC; ++i) {
      double k = cnt (child (c, i));
      get (child (c, i), fmod (code, k), out);
      code = floor (code / k);
    }
  }
};
struct Job { const Cells *L, *A, *X; const std::vector<int> *g, *h; int opt; };
static Job J;
static int tok, tok2;
struct Ev { int kind; Cell c; bool operator< (const Ev &o) const { return std::tie (c, kind) < std::tie (o.c, o.kind); } bool operator== (const Ev &o) const { return kind == o.kind && c == o.c; } };
static std::vector<std::vector<Ev>> evs;
static void on_init (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q, int kind)
{
  if (p->user_pointer != &tok) fail ("user pointer in the callback");
  Cell c = to_cell (*q, t);
  evs[vp::me ()].push_back ({kind, c});
  if (p->data_size) data_fill ((unsigned char *) q->p.user_data, p->data_size, c);
}
static void init_fill (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q) { on_init (p, t, q, 0); }
static void init_added (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q) { on_init (p, t, q, 1); }
static p4est_build_t *sb;
static void build_body (const HostConn &hc)
{
  rank_begin ();
  int me = vp::me ();
  const Cells &L = *J.L;
  const std::vector<int> &g = *J.g;
  long b0 = vp::live_blocks (me);
  p4est_t *p = make_p4est ((p4est_connectivity_t *) &hc.c, L, g, 6, &tok2);
  p->revision = 5;
  size_t ds = J.opt & 1 ? 11 : 0;
  // 0 one callback, 1 two, 2 none for added ones, 3 none at all
  int cb = J.opt >> 1 & 3;
  evs[me].clear ();
  p4est_build_t *b = p4est_build_new (p, ds, cb == 3 ? NULL : init_fill, &tok);
  if (cb == 1) p4est_build_init_add (b, init_added);
  if (cb == 2) p4est_build_init_add (b, NULL);
  Cells mine;
  for (auto &c : *J.A) {
    if (g[me] == g[me + 1] || first_desc (c, QMAX) < first_desc (L[g[me]], QMAX) || last_desc (L[g[me + 1] - 1], QMAX) < last_desc (c, QMAX)) continue;
    p4est_quadrant_t q = to_quad (c);
    q.p.user_data = (void *) &tok2;
    int times = 1 + (J.opt >> 3 & 1);
    mine.push_back (c);
    for (int k = 0; k < times; ++k) if (!!p4est_build_add (b, c.t, &q) != !k) fail ("build_add of %s for the %d. time returns %d", str (c).c_str (), k + 1, k);
    if (q.p.user_data != (void *) &tok2 || to_cell (q, c.t) != c) fail ("build_add changes its argument");
  }
  p4est_t *q = p4est_build_complete (b);
  check_p4est (p, L, g, 1, "template");
  if (p->revision != 5) fail ("revision of the template");
  if (J.opt >> 4 & 1) { p4est_destroy (p); p = NULL; }
  if (q->data_size != ds || q->user_pointer != &tok || q->revision != 0 || q->connectivity != &hc.c || q->inspect) fail ("fields of the new forest");
  check_p4est (q, *J.X, *J.h, ds && cb < 2, "build");
  std::vector<Ev> want;
  for (int i = (*J.h)[me]; i < (*J.h)[me + 1]; ++i) {
    const Cell &c = (*J.X)[i];
    bool add = std::binary_search (mine.begin (), mine.end (), c);
    if (cb == 3 || (cb == 2 && add)) continue;
    want.push_back ({add && cb == 1, c});
  }
  std::sort (evs[me].begin (), evs[me].end ());
  std::sort (want.begin (), want.end ());
  if (want != evs[me]) {
    std::string a, e;
    for (auto &x : evs[me]) a += strf (" %d:%s", x.kind, str (x.c).c_str ());
    for (auto &x : want) e += strf (" %d:%s", x.kind, str (x.c).c_str ());
    fail ("build: callbacks for%s instead of%s", a.c_str (), e.c_str ());
  }
  if (ds && cb == 2) for (int i = (*J.h)[me]; i < (*J.h)[me + 1]; ++i) {
    const Cell &c = (*J.X)[i];
    if (!std::binary_search (mine.begin (), mine.end (), c) && !data_ok (local_quad (q, i - (*J.h)[me])->p.user_data, ds, c)) fail ("build: data of %s", str (c).c_str ());
  }
  // the new forest lives on
  if (J.opt >> 5 & 1) p4est_partition (q, 0, NULL);
  p4est_destroy (q);
  if (p) p4est_destroy (p);
  if (vp::live_blocks (me) != b0) fail ("memory: %ld blocks remain", vp::live_blocks (me) - b0);
  rank_end ();
}
static void build (bool th)
{
  SpaceOpt o;
  o.K1 = D == 2 ? 4 : 2; o.K4 = D == 2 ? 2 : 1; o.Kn = 1;
  o.cap = th ? 200 : 25;
  o.twoK = -1;
  spaces (o, [&](HostConn &hc, const Cells &L) {
    int n = (int) L.size (), nt = hc.m->nt;
    bool deep = n > 40;
    long k = (long) (std::hash<std::string> () (hc.m->name + str (L)) % 1009);
    parts (L, 1, th ? 4 : 3, th ? 60 : deep ? 6 : 12, [&](int P, const std::vector<int> &g) {
      Cand cd {L, owners (g)};
      double N = 1;
      for (int t = 0; t < nt; ++t) N *= cd.cnt (root (t));
      double cap = (th ? 4000 : D == 2 ? 70 : 45) / (deep ? 4 : 1), step = std::max (1., floor (N / cap));
      if (step > 1 && fmod (step, 2) == 0) step += 1;
      if (step > 1 && fmod (step, 5) == 0) step += 2;
      for (double code = step > 1 ? fmod ((double) (k * 7919), step) : 0; code < N; code += step) {
        int opt = (int) (k++ * 5 % 64);
        if (!E.sub ()) continue;
        Cells A;
        double x = code;
        for (int t = 0; t < nt; ++t) { double m = cd.cnt (root (t)); cd.get (root (t), fmod (x, m), A); x = floor (x / m); }
        Cells X;
        std::vector<int> h {0};
        for (int p = 0; p < P; ++p) {
          if (g[p] < g[p + 1]) for (int t = L[g[p]].t; t <= L[g[p + 1] - 1].t; ++t) cover (root (t), first_desc (L[g[p]], QMAX), succ (L[g[p + 1] - 1]), A, X);
          h.push_back ((int) X.size ());
        }
        std::string text = strf ("%s cut at%s, option %d, leaves {%s}: build with {%s}", hc.m->name.c_str (), gstr (g).c_str (), opt, str (L).c_str (), str (A).c_str ());
        E.describe ([=] { return text; });
        J = {&L, &A, &X, &g, &h, opt};
        E.run (P, vp::Options (), [&](int) { build_body (hc); }, [&] { evs.assign (P, {}); });
        E.transition ((long) A.size () + 1);
        E.validated ();
      }
    });
  });
}
// --------------------------------------------------------------- region
static void region (bool th)
{
  auto m = named ("unit");
  HostConn hc (m);
  Cells B;
  std::function<void(const Cell &, int)> rec = [&](const Cell &c, int l) { B.push_back (c); if (c.l < l) for (int i = 0; i < NC; ++i) rec (child (c, i), l); };
  rec (root (0), D == 2 ? th ? 4 : 3 : th ? 3 : 2);
  for (int a = 0; a < NC; ++a) for (int b = 0; b < NC; ++b) {
    Cell c = child (root (0), a);
    while (c.l < QMAX) c = child (c, b);
    B.push_back (c);
    B.push_back (child (parent (c), NC - 1 - b));
  }
  std::sort (B.begin (), B.end ());
  B.erase (std::unique (B.begin (), B.end ()), B.end ());
  E.stage ("completion of regions: all pairs of %zu cells", B.size ());
  for (auto &q1 : B) {
    if (!E.take ()) continue;
    if (!E.sub ()) continue;
    E.describe ([=] { return "complete region from " + str (q1); });
    E.run (1, vp::Options (), [&](int) {
      rank_begin ();
      p4est_t *p = p4est_new (sc_MPI_COMM_WORLD, &hc.c, 9, NULL, &tok);
      for (auto &q2 : B) if (q1 < q2 && !contains (q1, q2)) for (int inc = 0; inc < 4; ++inc) {
        Cells A {q1, q2}, X, Y;
        cover (root (0), first_desc (q1, QMAX), succ (q2), A, X);
        for (auto &c : X) if ((inc & 1 || c != q1) && (inc & 2 || c != q2)) Y.push_back (c);
        p4est_tree_t tr;
        memset (&tr, 0, sizeof tr);
        sc_array_init (&tr.quadrants, sizeof (p4est_quadrant_t));
        evs[0].clear ();
        p4est_quadrant_t a = to_quad (q1), b = to_quad (q2);
        p4est_complete_region (p, &a, inc & 1, &b, inc >> 1, &tr, 0, init_fill);
        Cells got;
        std::map<int, int> lev;
        int mx = 0;
        for (size_t i = 0; i < tr.quadrants.elem_count; ++i) {
          p4est_quadrant_t *q = p4est_quadrant_array_index (&tr.quadrants, i);
          got.push_back (to_cell (*q, 0));
          ++lev[q->level];
          mx = std::max (mx, (int) q->level);
          if (i >= evs[0].size () || evs[0][i].c != got.back () || !data_ok (q->p.user_data, 9, got.back ())) fail ("region: callback for %s", str (got.back ()).c_str ());
          p4est_quadrant_free_data (p, q);
        }
        if (got != Y) fail ("region to %s including %d: {%s} instead of {%s}", str (q2).c_str (), inc, str (got).c_str (), str (Y).c_str ());
        if (evs[0].size () != got.size ()) fail ("region: number of callbacks");
        for (int l = 0; l <= QMAX; ++l) if (tr.quadrants_per_level[l] != lev[l]) fail ("region: quadrants per level");
        if (tr.maxlevel != mx) fail ("region: maxlevel");
        sc_array_reset (&tr.quadrants);
        E.count ("regions");
      }
      p4est_destroy (p);
      rank_end ();
    }, [&] { evs.assign (1, {}); });
    E.state ();
    E.transition ((long) B.size ());
    E.validated ();
  }
}
// --------------------------------------------------------------- points
struct GPt { int t; int64_t x[3]; };
static Cell pcell (const GPt &p, int l)
{
  Cell c = root (p.t);
  c.l = l;
  for (int d = 0; d < D; ++d) c.x[d] = p.x[d] / c.h () * c.h ();
  return c;
}
static bool before (const GPt &a, const GPt &b)
{
  Cell x = pcell (a, QMAX), y = pcell (b, QMAX);
  if (x != y) return x < y;
  for (int d = D - 1; d >= 0; --d) if (a.x[d] != b.x[d]) return a.x[d] < b.x[d];
  return false;
}
static void points_case (const HostConn &hc, const std::vector<GPt> &pts, const std::vector<int> &g, int maxlevel, int maxpoints, int opt)
{
  int P = (int) g.size () - 1, nt = hc.m->nt;
  std::string text = strf ("%s points cut at%s, maxlevel %d, max points %d:", hc.m->name.c_str (), gstr (g).c_str (), maxlevel, maxpoints);
  for (auto &p : pts) text += strf (" %d(%llx,%llx,%llx)", p.t, (long long) p.x[0], (long long) p.x[1], (long long) (D == 3 ? p.x[2] : 0));
  E.describe ([=] { return text; });
  auto S = pts;
  std::stable_sort (S.begin (), S.end (), before);
  std::vector<Cell> first ((size_t) P + 1);
  first[P] = first_desc (root (nt), QMAX);
  for (int p = P - 1; p >= 0; --p) first[p] = p == 0 ? first_desc (root (0), QMAX) : g[p] < g[p + 1] ? first_desc (pcell (S[g[p]], maxlevel), QMAX) : first[p + 1];
  Cells L;
  std::vector<int> h {0};
  for (int p = 0; p < P; ++p) {
    Cells X;
    for (int t = 0; t < nt; ++t) cover (root (t), first[p], first[p + 1], Cells (), X);
    std::function<void(const Cell &)> rec = [&](const Cell &c) {
      long k = 0;
      for (auto &s : S) k += contains (c, pcell (s, QMAX));
      if (maxpoints >= 0 && k > maxpoints && c.l < maxlevel) for (int i = 0; i < NC; ++i) rec (child (c, i));
      else L.push_back (c);
    };
    for (auto &c : X) rec (c);
    h.push_back ((int) L.size ());
  }
  size_t ds = opt & 1 ? 7 : 0;
  bool cb = opt & 2;
  E.run (P, vp::Options (), [&](int) {
    rank_begin ();
    int me = vp::me ();
    long b0 = vp::live_blocks (me);
    std::vector<p4est_quadrant_t> q;
    for (int i = g[me]; i < g[me + 1]; ++i) {
      p4est_quadrant_t a;
      memset (&a, 0x7b, sizeof a);
      a.x = (p4est_qcoord_t) pts[i].x[0];
      a.y = (p4est_qcoord_t) pts[i].x[1];
#ifdef P4_TO_P8
      a.z = (p4est_qcoord_t) pts[i].x[2];
#endif
      a.level = P4EST_MAXLEVEL;
      a.p.which_tree = pts[i].t;
      q.push_back (a);
    }
    evs[me].clear ();
    p4est_t *p = p4est_new_points (sc_MPI_COMM_WORLD, (p4est_connectivity_t *) &hc.c, maxlevel, q.data (), (p4est_locidx_t) q.size (), maxpoints, ds, cb ? init_fill : NULL, &tok);
    if (p->user_pointer != &tok || p->data_size != ds || p->connectivity != &hc.c || !p->user_data_pool != !ds) fail ("fields of the forest");
    check_p4est (p, L, h, ds && cb, "new from points");
    std::vector<Ev> want;
    if (cb) for (int i = h[me]; i < h[me + 1]; ++i) want.push_back ({0, L[i]});
    if (evs[me] != want) fail ("new from points: %zu callbacks for %zu elements", evs[me].size (), want.size ());
    p4est_destroy (p);
    if (vp::live_blocks (me) != b0) fail ("memory: %ld blocks remain", vp::live_blocks (me) - b0);
    rank_end ();
  }, [&] { evs.assign (P, {}); });
  E.transition ();
  E.validated ();
}
static void points (bool th)
{
  for (auto nm : {"unit", D == 2 ? "corner" : "twocubes", "moebius", "rotcubes"}) {
    auto m = named (nm);
    if (!m) continue;
    HostConn hc (m);
    for (int set = 0; set < 3; ++set) {
      // a few positions: spread, around one corner, far apart in the deepest cells
      std::vector<GPt> c;
      int64_t h2 = R / 4, far = R - 1;
      auto add = [&](int t, int64_t x, int64_t y, int64_t z) { c.push_back ({std::min (t, m->nt - 1), {x, y, z}}); };
      if (set == 0) { add (0, 0, 0, 0); add (0, h2, 0, h2); add (0, 3 * h2 + 4, h2 + 2, 0); add (1, 2 * h2 - 2, 2 * h2, 6); add (m->nt - 1, far, far, far); }
      if (set == 1) { add (0, 2 * h2, 2 * h2, 2 * h2); add (0, 2 * h2 + 2, 2 * h2, 2 * h2); add (0, 2 * h2 + 4, 2 * h2 + 6, 2 * h2); add (0, 2 * h2 + h2 / 2, 2 * h2, 2 * h2); add (m->nt - 1, 2 * h2, 2 * h2, 2 * h2 - 2); }
      if (set == 2) { add (0, far, 0, far); add (1, 0, 0, 0); add (1, 2, 2, 2); add (m->nt - 1, far, far, far); add (m->nt - 1, far - 1, far, far - 3); }
      int K = (int) c.size (), nmax = th ? 6 : 5;
      for (int n = 0; n <= nmax; ++n) {
        E.stage ("%s: all multisets of %d of %d points (set %d), distributions, limits", nm, n, K, set);
        std::vector<int> sel (n, 0);
        for (bool more = true; more;) {
          bool on = E.take ();
          long k = 0;
          for (int v : sel) k = k * 7 + v;
          if (on) for (int P = 1; P <= (th ? 5 : 4); ++P) partitions (n, P, [&](const std::vector<int> &g) {
            static const int mls[] = {0, 1, 2, 3, QMAX};
            for (int ml : mls) for (int mp = -1; mp <= 3; ++mp) {
              ++k;
              if (!th && n >= 3 && (k * 2654435761L >> 4) % (n == 3 ? 12 : n == 4 ? 60 : 300)) continue;
              if (!E.sub ()) continue;
              std::vector<GPt> p;
              // in some order
              for (int i = 0; i < n; ++i) p.push_back (c[sel[(i * (n % 2 ? 2 : n == 6 ? 5 : 3) + k) % n]]);
              if (n == 3 || n == 4) { p.clear (); for (int i = 0; i < n; ++i) p.push_back (c[sel[(i + k) % n]]); if (k % 3 == 0) std::swap (p[0], p[n - 1]); }
              points_case (hc, p, g, ml, mp, (int) (k % 4));
            }
          });
          // next multiset
          int i = n - 1;
          while (i >= 0 && sel[i] == K - 1) --i;
          if (i < 0) more = false;
          else { int v = sel[i] + 1; for (; i < n; ++i) sel[i] = v; }
        }
      }
    }
  }
}
void enumerate ()
{
  region (E.thorough);
  points (E.thorough);
  build (E.thorough);
}
