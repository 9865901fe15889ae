// C08 Balancing yields the unique coarsest 2:1 refinement across trees and ranks
#include "ref/bridge.hh"
using namespace br;

struct Ctx
{
  const Cells *in, *out;
  std::vector<int> gin, gout;
  // events of the callbacks on each rank
  struct Rk { std::set<Cell> cur; std::map<Cell,int> inits; long ninit = 0, nrep = 0; bool used = false; };
  std::vector<Rk> rk;
  bool use_replace;
};
static Ctx X;
static int user_token;

static void init_cb (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q)
{
  Ctx::Rk &r = X.rk[vp::me ()];
  if (p->user_pointer != &user_token) fail ("init: user pointer changed");
  Cell c = to_cell (*q, t);
  ++r.ninit;
  if (++r.inits[c] > 1) fail ("init callback ran twice for %s", str (c).c_str ());
  if (p->data_size) data_fill ((unsigned char *) q->p.user_data, p->data_size, c);
}
static void replace_cb (p4est_t *p, p4est_topidx_t t, int no, p4est_quadrant_t *out[], int ni, p4est_quadrant_t *in[])
{
  Ctx::Rk &r = X.rk[vp::me ()];
  ++r.nrep;
  if (no != 1 || ni != NC) fail ("replace callback: %d outgoing %d incoming", no, ni);
  Cell o = to_cell (*out[0], t);
  if (!r.cur.count (o)) fail ("replace callback: outgoing %s is not an element", str (o).c_str ());
  if (p->data_size && !data_ok (out[0]->p.user_data, p->data_size, o)) fail ("replace callback: data of outgoing %s is not its data", str (o).c_str ());
  r.cur.erase (o);
  for (int i = 0; i < NC; ++i) {
    Cell c = to_cell (*in[i], t);
    if (c != child (o, i)) fail ("replace callback: incoming %d of %s is %s", i, str (o).c_str (), str (c).c_str ());
    if (!r.inits.count (c)) fail ("replace callback: incoming %s not initialised", str (c).c_str ());
    if (p->data_size && !data_ok (in[i]->p.user_data, p->data_size, c)) fail ("replace callback: data of incoming %s lost", str (c).c_str ());
    r.cur.insert (c);
  }
}

static void body (HostConn &hc, p4est_connect_type_t bt, size_t ds, int cbs, int inspect)
{
  rank_begin ();
  int me = vp::me ();
  Ctx::Rk &r = X.rk[me];
  r = Ctx::Rk ();
  for (int i = X.gin[me]; i < X.gin[me + 1]; ++i) r.cur.insert ((*X.in)[i]);
  p4est_t *p = make_p4est (&hc.c, *X.in, X.gin, ds, &user_token);
  p4est_inspect_t ins;
  memset (&ins, 0, sizeof ins);
  if (inspect) {
    ins.use_balance_ranges = inspect == 1 || inspect == 3;
    ins.use_balance_ranges_notify = inspect == 3;
    ins.use_balance_verify = 0;
    ins.balance_max_ranges = inspect == 3 ? 1 : 0;
    p->inspect = &ins;
  }
  long rev = p->revision = 7;
  if (cbs == 2) p4est_balance_ext (p, bt, init_cb, replace_cb);
  else p4est_balance (p, bt, cbs ? init_cb : NULL);
  p->inspect = NULL;
  check_p4est (p, *X.out, X.gout, cbs ? 1 : 0, "balance");
  bool changed = X.out->size () != X.in->size ();
  if (p->revision != rev + (changed ? 1 : 0)) fail ("revision %ld -> %ld although the mesh %s", rev, p->revision, changed ? "changed" : "did not change");
  if (p4est_revision (p) != p->revision) fail ("p4est_revision");
  if (p->user_pointer != &user_token || p->data_size != ds || p->connectivity != &hc.c) fail ("fields of the forest changed");
  if (cbs) {
    for (int i = X.gout[me]; i < X.gout[me + 1]; ++i) {
      const Cell &c = (*X.out)[i];
      bool old = std::binary_search (X.in->begin (), X.in->end (), c);
      int n = r.inits.count (c) ? r.inits[c] : 0;
      if (n != (old ? 0 : 1)) fail ("init callback ran %d times for %s element %s", n, old ? "old" : "new", str (c).c_str ());
      if (cbs == 2 && !r.cur.count (c)) fail ("element %s never announced by the replace callback", str (c).c_str ());
    }
    if (cbs == 2 && (int) r.cur.size () != X.gout[me + 1] - X.gout[me]) fail ("replace callback left extra elements");
    // intermediate elements may be created, but only inside refined ones
    for (auto &k : r.inits) {
      auto it = std::upper_bound (X.in->begin (), X.in->end (), k.first);
      if (it == X.in->begin () || !contains (*--it, k.first) || it->l >= k.first.l || it - X.in->begin () < X.gin[me] || it - X.in->begin () >= X.gin[me + 1]) fail ("init callback for %s which does not refine a local element", str (k.first).c_str ());
      auto jt = std::lower_bound (X.out->begin (), X.out->end (), k.first);
      if (jt == X.out->end () || !contains (k.first, *jt)) fail ("init callback for %s which is not part of the result", str (k.first).c_str ());
    }
  }
  else for (int i = X.gout[me]; ds && i < X.gout[me + 1]; ++i) {
    const Cell &c = (*X.out)[i];
    if (std::binary_search (X.in->begin (), X.in->end (), c) && !data_ok (local_quad (p, i - X.gout[me])->p.user_data, ds, c)) fail ("data of untouched leaf %s lost", str (c).c_str ());
  }
  p4est_destroy (p);
}

static std::vector<std::pair<p4est_connect_type_t, int>> btypes ()
{
#ifdef P4_TO_P8
  return {{P8EST_CONNECT_FACE, 2}, {P8EST_CONNECT_EDGE, 1}, {P8EST_CONNECT_FULL, 0}};
#else
  return {{P4EST_CONNECT_FACE, 1}, {P4EST_CONNECT_FULL, 0}};
#endif
}

// one forest: all connection types, all partitions up to maxP, rotating the
// remaining options through all their values
static void forest (HostConn &hc, const Cells &L, int maxP, int cutcap, bool allopts)
{
  static long rot = 0;
  rot = 0;
  for (auto bt : btypes ()) {
    Cells out = balance (*hc.m, L, bt.second);
    for (int P = 1; P <= maxP; ++P) {
      int n = (int) L.size ();
      // number of partitions is C(n+P-1,P-1)
      long np = 1;
      for (int i = 1; i < P; ++i) np = np * (n + i) / i;
      if (np > cutcap) continue;
      partitions (n, P, [&](const std::vector<int> &g) {
        std::vector<int> h = inherit_cuts (L, g, out);
        int nopt = allopts ? 12 : 1;
        for (int o = 0; o < nopt; ++o) {
          int oo = allopts ? o : (int) (rot++ % 12);
          int cbs = oo % 3, ins = oo / 3 % 4;
          size_t ds = oo % 2 ? 13 : 0;
          if (cbs == 2 && rot % 2) ds = 13;
          if (!E.sub ()) continue;
          vp::Options op;
          E.describe ([=, &hc, &L] { return strf ("%s balance type %d P=%d cuts %s data %zu callbacks %d inspect %d leaves {%s}", hc.m->name.c_str (), bt.second, P, str (g).c_str (), ds, cbs, ins, str (L).c_str ()); });
          X.in = &L; X.out = &out; X.gin = g; X.gout = h;
          E.state (o == 0);
          E.run (P, op, [&](int) { body (hc, bt.first, ds, cbs, ins); }, [&] { X.rk.assign (P, Ctx::Rk ()); }, [&] { if (!hc.intact ()) E.bad ("coarse mesh modified"); });
          E.transition ();
          E.validated ();
        }
      });
    }
  }
}

void enumerate ()
{
  bool th = E.thorough;
  auto all = [&](std::shared_ptr<Conn> m, int K, int Lmax, size_t cap, int P, int cuts) {
    HostConn hc (m);
    auto fs = reachable (uniform (m->nt, 0), K, Lmax, cap);
    E.stage ("%s: all forests by <= %d refinements up to level %d (%zu) x connect types x partitions on <= %d ranks", m->name.c_str (), K, Lmax, fs.size (), P);
    for (auto &L : fs) { if (!E.take ()) continue; forest (hc, L, P, cuts, false); }
  };
  for (auto nm : conn_names ()) {
    auto m = named (nm);
    if (!m) { E.stage ("%s", nm.c_str ()); if (E.take ()) E.bad ("cannot create mesh %s", nm.c_str ()); continue; }
    int K = m->nt == 1 ? (D == 2 ? 4 : 3) : m->nt <= 4 ? (D == 2 ? 3 : 2) : 2;
    all (m, K + th, D == 2 ? 5 : 4, th ? 20000 : 700, 3, th ? 400 : 90);
  }
  for (int k = 0; k < (D == 3 ? 4 : 2); ++k) all (touching (k), th ? 4 : 3, 4, th ? 20000 : 700, 3, th ? 400 : 90);
  // all ways to join two trees
  for (int l = 0; l < NF; ++l) for (int r = 0; r < NF; ++r) for (int o = 0; o < (D == 3 ? 4 : 2); ++o) {
    auto m = twotrees (l, r, o);
    if (m) all (m, th ? 3 : 2 + (D == 2), 5, th ? 3000 : D == 2 ? 120 : 40, 2, 100);
  }
  // one deep leaf at every position
  for (auto &nm : conn_names ()) {
    auto m = named (nm);
    if (!m) continue;
    HostConn hc (m);
    int dep = th ? (D == 2 ? 5 : 4) : D == 2 ? (m->nt <= 2 ? 5 : 3) : m->nt == 1 ? 4 : m->nt <= 3 ? 3 : 2;
    long N = 1L << D * dep, step = D == 2 ? 16 : 32;
    E.stage ("%s: one leaf of level %d at every position (%ld x %d trees)", nm.c_str (), dep, N, m->nt);
    for (int t = 0; t < m->nt; ++t) for (long c0 = 0; c0 < N; c0 += step) {
      if (!E.take ()) continue;
      for (long c = c0; c < c0 + step; ++c) {
        Tree T (m->nt);
        Cell q = root (t);
        for (int l = dep - 1; l >= 0; --l) q = child (q, c >> D * l & (NC - 1));
        T.ensure (q);
        Cells L = T.leaves ();
        int n = (int) L.size ();
        for (auto bt : btypes ()) {
          if (!E.sub ()) continue;
          Cells out = balance (*m, L, bt.second);
          std::vector<int> g {0, (int) (c % (n + 1)), n}, h = inherit_cuts (L, g, out);
          E.describe ([=, &hc, &L] { return strf ("%s balance type %d cuts %s leaves {%s}", hc.m->name.c_str (), bt.second, str (g).c_str (), str (L).c_str ()); });
          X.in = &L; X.out = &out; X.gin = g; X.gout = h;
          E.state (); E.transition (); E.validated ();
          E.run (2, vp::Options (), [&](int) { body (hc, bt.first, 0, 0, 0); }, [&] { X.rk.assign (2, Ctx::Rk ()); }, [&] { if (!hc.intact ()) E.bad ("coarse mesh modified"); });
        }
      }
    }
  }
  // chains down to the deepest level
  for (auto nm : {"unit", "periodic", "pillow", "rotwrap", "brick221"}) {
    auto m = named (nm);
    HostConn hc (m);
    int nch = D == 2 ? NC : 3;
    E.stage ("%s: chains to level %d towards corners and interior points", nm, QMAX);
    for (int a = 0; a < nch; ++a) for (int b = -1; b < nch; ++b) for (int dl = 0; dl < (th ? 3 : 2); ++dl) {
      if (!E.take ()) continue;
      int t = m->nt - 1;
      Cells L = b < 0 ? chain (m->nt, t, a, QMAX - dl) : chain2 (m->nt, t, a, b, QMAX - dl);
      int n = (int) L.size ();
      for (auto bt : btypes ()) {
        if (D == 3 && b >= 0 && !th && bt.second == 1) continue;
        Cells out = balance (*m, L, bt.second);
        std::set<int> cuts {0, 1, n / 2, n - 1, n};
        for (int i = 0; i < n; ++i) if (L[i].l >= QMAX - 1 && i % (D == 3 ? 5 : 2) == 0) cuts.insert (i);
        for (int c : cuts) {
          if (!E.sub ()) continue;
          std::vector<int> g {0, c, n}, h = inherit_cuts (L, g, out);
          E.describe ([=, &hc, &L] { return strf ("%s balance type %d cuts %s leaves {%s}", hc.m->name.c_str (), bt.second, str (g).c_str (), str (L).c_str ()); });
          X.in = &L; X.out = &out; X.gin = g; X.gout = h;
          E.state (); E.transition (); E.validated ();
          E.run (2, vp::Options (), [&](int) { body (hc, bt.first, 8, 2, 0); }, [&] { X.rk.assign (2, Ctx::Rk ()); }, [&] { if (!hc.intact ()) E.bad ("coarse mesh modified"); });
        }
      }
    }
  }
  // all subdivisions of one tree
  for (auto nm : {"unit", "periodic"}) {
    auto m = named (nm);
    HostConn hc (m);
    std::vector<Cells> fs;
    shapes_rec (root (0), D == 2 ? 3 : 2, fs);
    E.stage ("%s: all %zu subdivisions of depth <= %d", nm, fs.size (), D == 2 ? 3 : 2);
    size_t step = 64;
    for (size_t i = 0; i < fs.size (); i += step) {
      if (!E.take ()) continue;
      for (size_t j = i; j < std::min (fs.size (), i + step); ++j) forest (hc, fs[j], th || D == 3 ? 2 : 1, 100, false);
    }
  }
}
