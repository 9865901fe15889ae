// C23 The mark-adapt-partition wrapper applies the marks and tracks the mesh
#include "ref/ops.hh"
#include "ref/part.hh"
#ifdef P4_TO_P8
#include <p8est_wrap.h>
#define wrap_new_unit p8est_wrap_new_unitcube
#else
#include <p4est_wrap.h>
#define wrap_new_unit p4est_wrap_new_unitsquare
#endif
using namespace br;

// ------------------------------------------------------------ reference
struct Par { int btype = 0, delay = 0, affect = 0, pfc = 1, store = 1, data = 0, wexp = 0, mp = 0; };
enum Kind { ADAPT, HOLLOW, DELAY, COPY };
struct Step
{
  Kind kind = ADAPT;
  std::vector<std::vector<int>> marks;   // per round: 0 none, 1 refine, 2 coarsen for every leaf
  int delay = 0, affect = 0;
  // expected
  Cells L0, L;
  std::vector<int> g0, g;
  bool changed = false, moved = false;
  std::vector<Cell> split, merge;        // cells that are refined, families that are coarsened
  std::vector<int> nref, ncoa;           // first new leaves, by global index before partition
  std::vector<int> age;                  // after the step
};
struct Model
{
  const Conn *m;
  Par par;
  Cells L;
  std::vector<int> g, age;
  void adapt (Step &s)
  {
    std::vector<int> mk (L.size (), 0);
    for (auto &r : s.marks) for (size_t i = 0; i < L.size (); ++i) if (r[i]) mk[i] = r[i];
    int dim = btypes ()[par.btype].second;
    s.L0 = L;
    s.g0 = g;
    auto own = owners (g);
    Cells A;
    std::vector<int> a1, o1, f1;
    for (size_t i = 0; i < L.size (); ++i) {
      int a = par.delay && age[i] >= 0 ? age[i] + 1 : age[i];
      if (mk[i] == 1 && L[i].l < QMAX) {
        s.split.push_back (L[i]);
        for (int c = 0; c < NC; ++c) { A.push_back (child (L[i], c)); a1.push_back (par.delay ? 0 : a); o1.push_back (own[i]); f1.push_back (0); }
      }
      else { A.push_back (L[i]); a1.push_back (a); o1.push_back (own[i]); f1.push_back (mk[i] == 2); }
    }
    Cells B;
    std::vector<int> a2, o2;
    for (size_t i = 0; i < A.size ();) {
      bool fam = A[i].l > 0 && child_id (A[i]) == 0 && i + NC <= A.size ();
      for (int c = 0; fam && c < NC; ++c) fam = A[i + c] == child (parent (A[i]), c) && o1[i + c] == o1[i] && f1[i + c] && !(par.delay && a1[i + c] >= 0 && a1[i + c] <= par.delay);
      B.push_back (fam ? parent (A[i]) : A[i]);
      a2.push_back (fam && par.delay ? (par.affect ? 0 : -1) : a1[i]);
      o2.push_back (o1[i]);
      if (fam) s.merge.push_back (B.back ());
      i += fam ? NC : 1;
    }
    Cells N = B;
    if (!s.split.empty () || !s.merge.empty ()) N = balance (*m, B, dim);
    std::vector<int> a3, o3;
    for (size_t i = 0, j = 0; i < N.size (); ++i) {
      while (!contains (B[j], N[i])) ++j;
      if (N[i] == B[j]) a3.push_back (a2[j]);
      else {
        a3.push_back (par.delay ? -1 : a2[j]);
        for (Cell c = parent (N[i]); ; c = parent (c)) {
          bool first = true;
          for (int d = 0; d < D; ++d) first = first && c.x[d] == N[i].x[d];
          if (first) s.split.push_back (c);
          if (c == B[j]) break;
        }
      }
      o3.push_back (o2[j]);
    }
    s.changed = N != L;
    for (size_t i = 0, j = 0; i < N.size () && j < L.size ();) {
      if (N[i] == L[j]) { ++i; ++j; }
      else if (contains (L[j], N[i])) { s.nref.push_back ((int) i); while (i < N.size () && contains (L[j], N[i])) ++i; ++j; }
      else { s.ncoa.push_back ((int) i); while (j < L.size () && contains (N[i], L[j])) ++j; ++i; }
    }
    L = N;
    age = a3;
    int P = (int) g.size () - 1;
    g.assign (P + 1, 0);
    for (int o : o3) ++g[o + 1];
    for (int p = 0; p < P; ++p) g[p + 1] += g[p];
    s.L = L;
    s.g = g;
    if (s.changed) {
      std::vector<int> w;
      for (auto &c : L) w.push_back (par.wexp ? 1 << c.l : 1);
      std::vector<int> h = par.wexp ? weighted_cuts (w, P, g) : equal_cuts ((int) L.size (), P);
      if (par.pfc) h = for_coarsening (L, h);
      s.moved = h != g;
      g = h;
    }
    s.age = age;
  }
};
// ---------------------------------------------------------------- bodies
static const std::vector<Step> *steps;
static Par par;
static int tok;
struct Call { bool split; Cell c; bool operator< (const Call &o) const { return std::tie (split, c) < std::tie (o.split, o.c); } };
static std::vector<std::vector<Call>> calls;
static void on_replace (p4est_t *p, p4est_topidx_t t, int no, p4est_quadrant_t *out[], int ni, p4est_quadrant_t *in[])
{
  bool split = no == 1;
  if (!((no == 1 && ni == NC) || (no == NC && ni == 1))) fail ("replacement of %d by %d", no, ni);
  Cell c = to_cell (split ? *out[0] : *in[0], t);
  for (int k = 0; k < NC; ++k) if (to_cell (split ? *in[k] : *out[k], t) != child (c, k)) fail ("replacement: child %d of %s", k, str (c).c_str ());
  p4est_wrap_t *w = (p4est_wrap_t *) p->user_pointer;
  if (!w || w->p4est != p || w->params.user_pointer != &tok) fail ("replacement: wrap and user pointer");
  calls[vp::me ()].push_back ({split, c});
}
static p4est_connectivity_t *copy_conn (const p4est_connectivity_t *c)
{
  return p4est_connectivity_new_copy (c->num_vertices, c->num_trees,
#ifdef P4_TO_P8
    c->num_edges,
#endif
    c->num_corners, c->vertices, c->tree_to_vertex, c->tree_to_tree, c->tree_to_face,
#ifdef P4_TO_P8
    c->tree_to_edge, c->ett_offset, c->edge_to_tree, c->edge_to_edge,
#endif
    c->tree_to_corner, c->ctt_offset, c->corner_to_tree, c->corner_to_corner);
}
static void check_objects (p4est_wrap_t *w, const char *what)
{
  p4est_ghost_t *g = p4est_ghost_new (w->p4est, btypes ()[par.btype].first);
  p4est_mesh_t *m = p4est_mesh_new_params (w->p4est, g, &w->params.mesh_params);
  ops::Digest a, b, c, d;
  a.ghost (p4est_wrap_get_ghost (w));
  b.ghost (g);
  if (a.s != b.s || p4est_wrap_get_ghost (w)->btype != g->btype) fail ("%s: the ghost layer is not that of the current forest", what);
  c.mesh (p4est_wrap_get_mesh (w));
  d.mesh (m);
  if (c.s != d.s) fail ("%s: the mesh is not that of the current forest", what);
  p4est_mesh_destroy (m);
  p4est_ghost_destroy (g);
}
static void check_leaves (p4est_wrap_t *w, const Cells &L, const std::vector<int> &g, const char *what)
{
  int me = vp::me (), n = g[me + 1] - g[me];
  for (int track = 0; track <= !w->params.hollow; ++track) {
    std::vector<char> mir (n, 0);
    if (track) {
      sc_array_t *a = &p4est_wrap_get_ghost (w)->mirrors;
      for (size_t k = 0; k < a->elem_count; ++k) mir[p4est_quadrant_array_index (a, k)->p.piggy3.local_num] = 1;
    }
    int i = 0, inq = 0;
    p4est_wrap_leaf_t *l = p4est_wrap_leaf_first (w, track);
    if (!l != !n) fail ("%s: leaf_first on %d leaves", what, n);
    for (; l; l = p4est_wrap_leaf_next (l), ++i) {
      if (i >= n) fail ("%s: the leaf iterator does not end", what);
      const Cell &c = L[g[me] + i];
      inq = i && L[g[me] + i - 1].t == c.t ? inq + 1 : 0;
      if (l->pp != w || l->which_tree != c.t || l->which_quad != inq || l->local_quad != i) fail ("%s: the leaf iterator gives tree %d leaf %d (%d) instead of tree %d leaf %d (%d)", what, (int) l->which_tree, (int) l->which_quad, (int) l->local_quad, c.t, inq, i);
      if (to_cell (*l->quad, l->which_tree) != c || l->quad != local_quad (w->p4est, i)) fail ("%s: leaf %d of the iterator", what, i);
      if (l->tree != p4est_tree_array_index (w->p4est->trees, c.t) || l->tquadrants != &l->tree->quadrants) fail ("%s: tree of leaf %d of the iterator", what, i);
      if (P4EST_LEAF_IS_FIRST_IN_TREE (l) != (inq == 0)) fail ("%s: first leaf in tree", what);
      if (l->is_mirror != (track && mir[i])) fail ("%s: leaf %d of the iterator has mirror flag %d", what, i, l->is_mirror);
    }
    if (i != n) fail ("%s: the leaf iterator ends after %d of %d leaves", what, i, n);
  }
}
static void check_wrap (p4est_wrap_t *w, const Cells &L, const std::vector<int> &g, const char *what)
{
  check_p4est (w->p4est, L, g, 0, what);
  if (w->p4est->data_size != 0) fail ("%s: data size", what);
  if (w->p4est->user_pointer != w || w->params.user_pointer != &tok) fail ("%s: user pointer", what);
  if (w->p4est->connectivity != w->conn) fail ("%s: connectivity", what);
  if (w->p4est_dim != D || w->p4est_half != NC / 2 || w->p4est_faces != NF || w->p4est_children != NC) fail ("%s: constants", what);
  check_leaves (w, L, g, what);
  if (!w->params.hollow) check_objects (w, what);
}
static void mark (p4est_wrap_t *w, const std::vector<std::vector<int>> &marks, const Cells &L, const std::vector<int> &g)
{
  int me = vp::me ();
  for (auto &r : marks) {
    int inq = 0;
    for (int i = g[me]; i < g[me + 1]; ++i) {
      inq = i > g[me] && L[i].t == L[i - 1].t ? inq + 1 : 0;
      if (r[i] == 1) p4est_wrap_mark_refine (w, L[i].t, inq);
      if (r[i] == 2) p4est_wrap_mark_coarsen (w, L[i].t, inq);
    }
  }
}
static void check_list (sc_array_t *a, bool want, const std::vector<int> &v, const std::vector<int> &g, const char *what)
{
  int me = vp::me ();
  if (!want) { if (a) fail ("list of newly %s elements although not requested", what); return; }
  if (!a) fail ("no list of newly %s elements", what);
  std::vector<int> x, y;
  for (int i : v) if (i >= g[me] && i < g[me + 1]) x.push_back (i - g[me]);
  for (size_t k = 0; k < a->elem_count; ++k) y.push_back (*(p4est_locidx_t *) sc_array_index (a, k));
  if (x == y) return;
  std::string s, t;
  for (int i : x) s += strf (" %d", i);
  for (int i : y) t += strf (" %d", i);
  fail ("newly %s elements:%s instead of%s", what, t.c_str (), s.c_str ());
}
static void adapt (p4est_wrap_t *w, const Step &s)
{
  int me = vp::me ();
  mark (w, s.marks, s.L0, s.g0);
  calls[me].clear ();
  int ch = p4est_wrap_adapt (w);
  if (!!ch != s.changed) fail ("adapt returns %d although the mesh has %schanged", ch, s.changed ? "" : "not ");
  check_wrap (w, s.L, s.g, "adapt");
  std::vector<Call> want;
  auto mine = [&](const Cell &c) { for (int i = s.g[me]; i < s.g[me + 1]; ++i) if (contains (c, s.L[i])) return true; else if (contains (s.L[i], c)) return true; return false; };
  for (auto &c : s.split) if (mine (c)) want.push_back ({true, c});
  for (auto &c : s.merge) if (mine (c)) want.push_back ({false, c});
  std::sort (want.begin (), want.end ());
  auto got = calls[me];
  std::sort (got.begin (), got.end ());
  auto lt = [](const Call &a, const Call &b) { return a < b; };
  if (got.size () != want.size () || std::lexicographical_compare (got.begin (), got.end (), want.begin (), want.end (), lt) || std::lexicographical_compare (want.begin (), want.end (), got.begin (), got.end (), lt)) {
    std::string a, b;
    for (auto &c : got) a += (c.split ? " split " : " merge ") + str (c.c);
    for (auto &c : want) b += (c.split ? " split " : " merge ") + str (c.c);
    fail ("replacements:%s instead of%s", a.c_str (), b.c_str ());
  }
  check_list (w->newly_refined, par.store, s.nref, s.g, "refined");
  check_list (w->newly_coarsened, par.store, s.ncoa, s.g, "coarsened");
}
static void copies (p4est_wrap_t *w, const Cells &L, const std::vector<int> &g, const Conn &m, int delay)
{
  static int tok2;
  int me = vp::me ();
  p4est_wrap_t *c = p4est_wrap_new_copy (w, 0, on_replace, &tok), *d = p4est_wrap_new_copy (c, 9, NULL, &tok2);
  for (auto *x : {c, d}) {
    check_p4est (x->p4est, L, g, 0, "copy");
    if (!x->params.hollow || x->flags || x->ghost || x->mesh || x->ghost_aux || x->mesh_aux) fail ("a copy is not hollow");
    if (x->conn != w->conn || x->p4est->connectivity != w->conn || x->p4est->user_pointer != x) fail ("copy: pointers");
    if (!x->newly_refined != !w->newly_refined || !x->newly_coarsened != !w->newly_coarsened) fail ("copy: lists of elements");
    if (x->newly_refined && (!sc_array_is_equal (x->newly_refined, w->newly_refined) || !sc_array_is_equal (x->newly_coarsened, w->newly_coarsened) || x->newly_refined == w->newly_refined)) fail ("copy: lists of elements");
    check_leaves (x, L, g, "copy");
  }
  if (c->params.user_pointer != &tok || d->params.user_pointer != &tok2 || c->params.replace_fn != on_replace || d->params.replace_fn) fail ("copy: parameters");
  if (d->p4est->data_size != 9 || c->p4est->data_size != 0) fail ("copy: data sizes");
  p4est_wrap_destroy (d);
  // adapt the copy; the original stays
  p4est_wrap_set_hollow (c, 0);
  check_wrap (c, L, g, "copy");
  Model mo;
  mo.m = &m;
  mo.par = par;
  mo.par.delay = delay;
  mo.L = L;
  mo.g = g;
  mo.age.assign (L.size (), 0);
  Step s;
  s.marks.push_back (std::vector<int> (L.size (), 1));
  for (size_t i = 0; i < L.size (); ++i) if (i % 3) s.marks[0][i] = delay ? 0 : 2;
  mo.adapt (s);
  adapt (c, s);
  if (s.changed) { p4est_wrap_partition (c, par.wexp, NULL, NULL, NULL); check_wrap (c, s.L, mo.g, "partition of a copy"); if (s.moved) p4est_wrap_complete (c); }
  p4est_wrap_destroy (c);
  (void) me;
}
static void play (const HostConn &hc, const Cells &L, const std::vector<int> &g, int how)
{
  rank_begin ();
  int me = vp::me ();
  long b0 = vp::live_blocks (me);
  p4est_connectivity_t *conn = copy_conn (&hc.c);
  p4est_t *p = make_p4est (conn, L, g, (size_t) par.data, NULL);
  p4est_wrap_t *w;
  if (how & 1) {
    p4est_wrap_params_t pa;
    p4est_wrap_params_init (&pa);
    if (pa.hollow != 1 || pa.replace_fn || pa.coarsen_delay || pa.coarsen_affect || pa.store_adapted || pa.user_pointer) fail ("default parameters");
    pa.hollow = how >> 1 & 1;
    pa.mesh_params.btype = btypes ()[par.btype].first;
    pa.mesh_params.compute_level_lists = par.mp & 1;
    pa.mesh_params.compute_tree_index = par.mp >> 1 & 1;
    pa.replace_fn = on_replace;
    pa.coarsen_delay = par.delay;
    pa.coarsen_affect = par.affect;
    pa.partition_for_coarsening = par.pfc;
    pa.store_adapted = par.store;
    pa.user_pointer = &tok;
    w = p4est_wrap_new_p4est_params (p, &pa);
    memset (&pa, 0x5a, sizeof pa);
  }
  else {
    w = p4est_wrap_new_p4est (p, how >> 1 & 1, btypes ()[par.btype].first, on_replace, &tok);
    w->params.store_adapted = par.store;
    p4est_wrap_set_partitioning (w, par.pfc);
    p4est_wrap_set_coarsen_delay (w, par.delay, par.affect);
  }
  if (how >> 1 & 1) {
    if (w->flags || w->ghost || w->mesh) fail ("a hollow wrap holds flags or a mesh");
    check_wrap (w, L, g, "hollow wrap");
    p4est_wrap_set_hollow (w, 1);
    p4est_wrap_set_hollow (w, 0);
  }
  check_wrap (w, L, g, "new wrap");
  int delay = par.delay;
  const Cells *cl = &L;
  const std::vector<int> *cg = &g;
  std::vector<int> gg;
  for (auto &s : *steps) {
    if (s.kind == HOLLOW) {
      mark (w, s.marks, *cl, *cg);
      p4est_wrap_set_hollow (w, 1);
      if (w->flags || w->ghost || w->mesh || w->ghost_aux || w->mesh_aux) fail ("a hollow wrap holds flags or a mesh");
      check_wrap (w, *cl, *cg, "set to hollow");
      p4est_wrap_set_hollow (w, 0);
      check_wrap (w, *cl, *cg, "set to not hollow");
    }
    else if (s.kind == DELAY) { p4est_wrap_set_coarsen_delay (w, s.delay, s.affect); delay = s.delay; }
    else if (s.kind == COPY) { copies (w, *cl, *cg, *hc.m, delay); check_wrap (w, *cl, *cg, "wrap after using a copy"); }
    else {
      adapt (w, s);
      if (s.changed) {
        p4est_locidx_t uf = -7, ul = -7, uo = -7;
        gg = s.g;
        // the model's partition is that of the next step
        size_t at = &s - &(*steps)[0];
        (void) at;
        int mv = p4est_wrap_partition (w, par.wexp, &uf, &ul, &uo);
        if (!!mv != s.moved) fail ("partition returns %d although the partition has %schanged", mv, s.moved ? "" : "not ");
        gg = std::vector<int> (s.age.begin () + (long) s.L.size (), s.age.end ());
        check_wrap (w, s.L, gg, "partition");
        int lo = std::max (s.g[me], gg[me]), hi = std::min (s.g[me + 1], gg[me + 1]);
        int ef = 0, el = 0, eo = 0;
        if (lo < hi) { ef = lo - gg[me]; el = hi - lo; eo = lo - s.g[me]; }
        if (uf != ef || ul != el || uo != eo) fail ("partition: unchanged elements %d, %d, %d instead of %d, %d, %d", (int) uf, (int) ul, (int) uo, ef, el, eo);
        if (mv) p4est_wrap_complete (w);
        if (w->ghost_aux || w->mesh_aux) fail ("an intermediate mesh remains");
        check_wrap (w, s.L, gg, "complete");
        cl = &s.L;
        cg = &gg;
      }
    }
  }
  p4est_wrap_destroy (w);
  if (vp::live_blocks (me) != b0) fail ("memory: %ld blocks remain", vp::live_blocks (me) - b0);
  rank_end ();
}
// ------------------------------------------------------------- sequences
struct Plan { std::vector<int> pat; };
static void patterns (int k, const Cells &L, std::vector<std::vector<int>> &out)
{
  size_t n = L.size ();
  std::vector<int> a (n, 0);
  switch (k) {
  case 0: break;                                          // nothing
  case 1: for (auto &x : a) x = 2; out.push_back (a); break;           // coarsen everything
  case 2: a[0] = 1; out.push_back (a); break;
  case 3: for (auto &x : a) x = 2; a[n - 1] = 1; out.push_back (a); break;
  case 4: for (size_t i = 0; i < n; ++i) a[i] = i % 3 == 1 ? 1 : 2; out.push_back (a); break;
  case 5:                                                 // marks replaced by others
    for (auto &x : a) x = 1;
    out.push_back (a);
    for (size_t i = 0; i < n; ++i) a[i] = i % 5 == 2 ? 0 : 2;
    out.push_back (a);
    for (size_t i = 0; i < n; ++i) a[i] = i % 7 == 3 ? 1 : 0;
    out.push_back (a);
    break;
  }
}
static bool make_steps (Model &mo, const std::vector<int> &pat, std::vector<Step> &out, size_t maxn)
{
  out.clear ();
  for (int k : pat) {
    Step s;
    if (k == 6) {                                         // marks are lost by hollowness
      s.kind = HOLLOW;
      s.marks.push_back (std::vector<int> (mo.L.size (), 1));
      out.push_back (s);
      s = Step ();
      k = 1;
    }
    else if (k == 7) {
      s.kind = DELAY;
      mo.par.delay = s.delay = (mo.par.delay + 1) % 3;
      mo.par.affect = s.affect = !mo.par.affect;
      mo.age.assign (mo.L.size (), 0);
      out.push_back (s);
      s = Step ();
      k = 1;
    }
    else if (k == 8) { s.kind = COPY; out.push_back (s); continue; }
    patterns (k, mo.L, s.marks);
    mo.adapt (s);
    // offsets after the partition follow the ages
    s.age = mo.age;
    s.age.insert (s.age.end (), mo.g.begin (), mo.g.end ());
    out.push_back (s);
    if (mo.L.size () > maxn) return false;
  }
  return true;
}
static std::string gstr (const std::vector<int> &g) { std::string s; for (int x : g) s += strf (" %d", x); return s; }
static void go (const HostConn &hc, const Cells &L, const std::vector<int> &g, const Par &p, int how, const std::vector<Step> &st, const std::string &what)
{
  int P = (int) g.size () - 1;
  std::string text = strf ("%s cut at%s, neighbors %d, delay %d affect %d, for coarsening %d, weights %d, variant %d: %s; leaves {%s}", hc.m->name.c_str (), gstr (g).c_str (), p.btype, p.delay, p.affect, p.pfc, p.wexp, how, what.c_str (), str (L).c_str ());
  E.describe ([=] { return text; });
  steps = &st;
  par = p;
  vp::Options op;
  const HostConn *h = &hc;
  const Cells *l = &L;
  const std::vector<int> *gp = &g;
  E.run (P, op, [=](int) { play (*h, *l, *gp, how); }, [=] { calls.assign ((size_t) P, {}); });
  E.transition ((long) st.size ());
  E.validated ();
}
static long rot = 0;
static Par next_par ()
{
  Par p;
  long r = rot++;
  p.btype = (int) (r % (long) btypes ().size ());
  r += r / 7;
  p.delay = (int) (r % 3);
  p.affect = (int) (r / 3 % 2);
  p.pfc = (int) (r / 6 % 2);
  p.store = r % 11 != 10;
  p.data = (int) (r % 2 * 5);
  p.wexp = (int) (r / 2 % 2);
  p.mp = (int) (r % 4);
  return p;
}
static void all_marks (bool th)
{
  SpaceOpt o;
  o.bal = 0;
  o.K1 = D == 2 ? 3 : 1; o.K4 = 1; o.Kn = 1;
  o.cap = th ? 120 : 14;
  o.twoK = 1;
  o.twocap = 4;
  o.chains = true;
  spaces (o, [&](HostConn &hc, const Cells &L) {
    int n = (int) L.size ();
    long shift = rot = (long) (std::hash<std::string> () (hc.m->name + str (L)) % 1000003);
    // all marks where that is few, otherwise all on a window of leaves
    int win = th ? 7 : 4;
    int step = th ? 1 : D == 3 && n <= 200 ? 27 : n <= 4 && hc.m->nt == 1 ? 1 : n > 200 ? 81 : n > 40 ? 32 : hc.m->nt == 2 ? 16 : 12;
    parts (L, 1, th ? 4 : 3, th ? 40 : 6, [&](int P, const std::vector<int> &g) {
      std::vector<int> w;
      if (n <= win) for (int i = 0; i < n; ++i) w.push_back (i);
      else {
        // the deepest leaves and the ends
        int k = 0;
        for (int i = 0; i < n; ++i) if (L[i].l > L[k].l) k = i;
        std::set<int> s {0, n - 1};
        for (int i = 0; (int) s.size () < win && i < n; ++i) s.insert ((k + i) % n);
        w.assign (s.begin (), s.end ());
      }
      long N = 1;
      for (size_t i = 0; i < w.size (); ++i) N *= 3;
      for (int rest = 0; rest < (n > win ? 2 : 1); ++rest) for (long c = shift++ % step; c < N; c += step) {
        Par p = next_par ();
        int how = (int) (rot % 4);
        if (!E.sub ()) continue;
        Model mo;
        mo.m = hc.m.get ();
        mo.par = p;
        if (p.delay && c % 2) p.delay = mo.par.delay = 0;
        mo.L = L;
        mo.g = g;
        mo.age.assign ((size_t) n, 0);
        Step s;
        s.marks.push_back (std::vector<int> ((size_t) n, rest ? 2 : 0));
        std::string ms;
        long x = c;
        for (int i : w) { s.marks[0][i] = (int) (x % 3); ms += strf ("%d%c ", i, "-RC"[x % 3]); x /= 3; }
        mo.adapt (s);
        s.age = mo.age;
        s.age.insert (s.age.end (), mo.g.begin (), mo.g.end ());
        // flags are forgotten
        Step e;
        mo.adapt (e);
        e.age = mo.age;
        e.age.insert (e.age.end (), mo.g.begin (), mo.g.end ());
        go (hc, L, g, p, how, {s, e}, strf ("marks %s (others %s)", ms.c_str (), rest ? "C" : "-"));
      }
    });
  });
}
static void sequences (bool th)
{
  struct S { std::string m; Cells L; int depth, P; size_t maxn; };
  for (auto nm : {"unit", "periodic", D == 2 ? "moebius" : "rotcubes", "twowrap", "touching"}) {
    auto m = !strcmp (nm, "touching") ? touching (0) : named (nm);
    if (!m) continue;
    int lev = m->nt == 1;
    for (int st = 0; st < 2; ++st) {
      Cells L = uniform (m->nt, lev);
      if (st) { Cells x; for (auto &c : L) if (c == L.back ()) for (int k = 0; k < NC; ++k) x.push_back (child (c, k)); else x.push_back (c); L = x; }
      L = balance (*m, L, 0);
      int NP = 9;
      for (int P = 1; P <= (th ? 4 : 3); ++P) {
        int depth = th ? 4 : P == 2 ? 3 : 2;
        long N = 1;
        for (int i = 0; i < depth; ++i) N *= NP;
        E.stage ("%s start %d on %d processes: all sequences of %d operations", nm, st, P, depth);
        auto g = equal_cuts ((int) L.size (), P);
        HostConn hc (m);
        for (long c0 = 0; c0 < N; c0 += NP * NP) {
          rot = 3 * c0 + 7 * P + st;
          bool on = E.take ();
          for (long c = c0; c < c0 + NP * NP; c += th || c0 == 0 ? 1 : D == 3 ? 6 : 3) for (int v = 0; v < (D == 2 && m->nt < 3 ? 2 : 1); ++v) {
            Par p = next_par ();
            if (!on || !E.sub ()) continue;
            std::vector<int> pat;
            long x = c;
            for (int i = 0; i < depth; ++i) { pat.push_back ((int) (x % NP)); x /= NP; }
            pat.push_back (1);            // at last coarsen everything twice
            pat.push_back (1);
            Model mo;
            mo.m = m.get ();
            mo.par = p;
            mo.L = L;
            mo.g = g;
            mo.age.assign (L.size (), 0);
            std::vector<Step> s;
            make_steps (mo, pat, s, D == 2 ? 250 : 400);
            std::string t;
            for (int k : pat) t += strf (" %d", k);
            go (hc, L, g, p, (int) (rot % 4), s, "sequence" + t);
          }
        }
        if (!hc.intact ()) E.bad ("coarse mesh modified");
      }
    }
  }
}
static void constructors ()
{
  struct K { std::string name; std::function<p4est_wrap_t *(sc_MPI_Comm, int)> f; std::shared_ptr<Conn> m; };
  std::vector<K> v;
#ifdef P4_TO_P8
  v.push_back ({"unitcube", p8est_wrap_new_unitcube, named ("unit")});
  v.push_back ({"rotwrap", p8est_wrap_new_rotwrap, named ("rotwrap")});
  v.push_back ({"brick", [](sc_MPI_Comm c, int l) { return p4est_wrap_new_brick (c, 2, 3, 1, 1, 0, 1, l); }, brick (2, 3, 1, 1, 0, 1)});
#else
  v.push_back ({"unitsquare", p4est_wrap_new_unitsquare, named ("unit")});
  v.push_back ({"periodic", p4est_wrap_new_periodic, named ("periodic")});
  v.push_back ({"rotwrap", p4est_wrap_new_rotwrap, named ("rotwrap")});
  v.push_back ({"corner", p4est_wrap_new_corner, named ("corner")});
  v.push_back ({"pillow", p4est_wrap_new_pillow, named ("pillow")});
  v.push_back ({"moebius", p4est_wrap_new_moebius, named ("moebius")});
  v.push_back ({"cubed", p4est_wrap_new_cubed, named ("cubed")});
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) v.push_back ({strf ("disk %d %d", a, b), [=](sc_MPI_Comm c, int l) { return p4est_wrap_new_disk (c, a, b, l); }, get_conn (strf ("disk%d%d", a, b), [=] { return p4est_connectivity_new_disk (a, b); })});
  v.push_back ({"brick", [](sc_MPI_Comm c, int l) { return p4est_wrap_new_brick (c, 2, 3, 0, 1, l); }, brick (2, 3, 0, 1)});
#endif
  v.push_back ({"world", [](sc_MPI_Comm, int l) { return p4est_wrap_new_world (l); }, named ("unit")});
  auto cube = named ("unit");
  v.push_back ({"params NULL", [](sc_MPI_Comm c, int l) { return p4est_wrap_new_params (c, p4est_connectivity_new_byname ("unit"), l, NULL); }, cube});
  v.push_back ({"ext", [](sc_MPI_Comm c, int l) { return p4est_wrap_new_ext (c, p4est_connectivity_new_byname ("unit"), l, 1, full_type (), NULL, NULL); }, cube});
  v.push_back ({"conn", [](sc_MPI_Comm c, int l) { return p4est_wrap_new_conn (c, p4est_connectivity_new_byname ("unit"), l); }, cube});
  for (auto &k : v) {
    E.stage ("new wrap: %s", k.name.c_str ());
    if (!E.take ()) continue;
    for (int P = 1; P <= 4; ++P) for (int l = -1; l <= 2; ++l) {
      if (!E.sub ()) continue;
      std::string text = strf ("new wrap %s level %d on %d processes", k.name.c_str (), l, P);
      E.describe ([=] { return text; });
      auto kk = &k;
      Cells L = uniform (k.m->nt, std::max (l, 0));
      auto g = equal_cuts ((int) L.size (), P);
      E.run (P, vp::Options (), [&](int) {
        rank_begin ();
        p4est_wrap_t *w = kk->f (sc_MPI_COMM_WORLD, l);
        if (w->conn != w->p4est->connectivity || !conn_equal (*model_of (w->conn, ""), *kk->m)) fail ("another coarse mesh");
        check_p4est (w->p4est, L, g, 0, "new wrap");
        if (w->p4est->user_pointer != w || w->params.user_pointer || w->params.replace_fn) fail ("pointers");
        bool hollow = kk->name == "ext" || kk->name == "params NULL";
        if (!w->params.hollow != !hollow || !w->flags != hollow || !w->ghost != hollow || !w->mesh != hollow) fail ("hollowness");
        par = Par ();
        par.btype = (int) btypes ().size () - 1;
        check_leaves (w, L, g, "new wrap");
        if (!hollow) check_objects (w, "new wrap");
        if (!hollow && p4est_wrap_adapt (w)) fail ("adapt without marks returns true");
        p4est_wrap_destroy (w);
        rank_end ();
      });
      E.validated ();
      E.transition ();
    }
  }
}
void enumerate ()
{
  constructors ();
  all_marks (E.thorough);
  sequences (E.thorough);
}
