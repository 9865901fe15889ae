// C17 Corner-node numbering identifies each independent corner once across processes
#include "ref/nodes.hh"
#if VP_DIM == 3
#include <p8est_nodes.h>
typedef p8est_hang4_t hangface_t;
#else
#include <p4est_nodes.h>
typedef p4est_hang2_t hangface_t;
#endif
using namespace br;

static int64_t cl (int64_t v) { return v == R ? R - 1 : v; }
// order of points: tree, then z-order of the position clamped into the tree
static bool pt_less (const Pt &a, const Pt &b)
{
  if (a.t != b.t) return a.t < b.t;
  int64_t x[3], y[3];
  for (int d = 0; d < 3; ++d) { x[d] = d < D ? cl (a.x[d]) : 0; y[d] = d < D ? cl (b.x[d]) : 0; }
  return zcmp_pt (x, y) < 0;
}
struct PtLess { bool operator() (const Pt &a, const Pt &b) const { return pt_less (a, b); } };

struct Ref
{
  std::vector<Pt> pts;                          // all points, in order
  std::vector<char> indep;
  std::vector<std::array<int, NC>> corner;      // point of every leaf corner
  std::vector<std::array<int, NC>> kind;        // 0 independent 1 face 2 edge
  std::vector<std::array<std::vector<int>, NC>> dep;    // points a hanging corner depends on
  std::vector<int> home;                        // leaf that holds the clamped position
};
static Ref make_ref (const Conn &C, const Cells &L)
{
  Ref r;
  Hang H = hanging (C, L);
  Tree T = make_tree (C.nt, L);
  T.leaves ();
  std::map<Pt, int, PtLess> id;
  std::vector<Pt> reps;
  auto key = [&](const Cell &c, int k) {
    Pt p;
    bool inner = true;
    p.t = c.t;
    for (int d = 0; d < 3; ++d) { p.x[d] = d < D ? c.x[d] + (k >> d & 1) * c.h () : 0; if (d < D) inner = inner && p.x[d] > 0 && p.x[d] < R; }
    if (!inner) {
      C.pt_reps (p, reps);
      for (auto &q : reps) if (pt_less (q, p)) p = q;
    }
    return id.insert ({p, 0}).first;
  };
  typedef std::map<Pt, int, PtLess>::iterator It;
  std::vector<std::array<It, NC>> own (L.size ());
  std::vector<std::array<std::vector<It>, NC>> dp (L.size ());
  r.kind.resize (L.size ());
  for (size_t i = 0; i < L.size (); ++i) {
    int cid = L[i].l ? child_id (L[i]) : 0;
    for (int k = 0; k < NC; ++k) {
      own[i][k] = key (L[i], k);
      int df = cid ^ k, n = __builtin_popcount (df);
      int &kd = r.kind[i][k] = 0;
      if (L[i].l == 0 || n == 0 || n == D) continue;
      if (n == D - 1) {
        int ax = 0;
        while (df >> ax & 1) ++ax;
        if (H.face[i][2 * ax + (cid >> ax & 1)]) kd = 1;
      }
      if (D == 3 && n == 1) {
        int ax = 0;
        while (!(df >> ax & 1)) ++ax;
        for (int e = 4 * ax; e < 4 * ax + 4; ++e) {
          int s[3];
          bool on = true;
          edge_fix (e, s);
          for (int d = 0; d < 3; ++d) if (s[d] >= 0 && s[d] != (cid >> d & 1)) on = false;
          if (on && H.edge[i][e]) kd = 2;
        }
      }
      // the corners of the parent that span the hanging entity
      if (kd) for (int j = 0; j < NC; ++j) if (((j ^ cid) & ~df) == 0) dp[i][k].push_back (key (parent (L[i]), j));
    }
  }
  int n = 0;
  for (auto &x : id) { x.second = n++; r.pts.push_back (x.first); }
  r.indep.assign (n, 0);
  r.corner.resize (L.size ());
  r.dep.resize (L.size ());
  std::vector<char> hang (n, 0);
  for (size_t i = 0; i < L.size (); ++i) for (int k = 0; k < NC; ++k) {
    int p = r.corner[i][k] = own[i][k]->second;
    if (!r.kind[i][k]) r.indep[p] = 1; else hang[p] = 1;
    for (auto &d : dp[i][k]) { r.dep[i][k].push_back (d->second); r.indep[d->second] = 1; }
    std::sort (r.dep[i][k].begin (), r.dep[i][k].end ());
  }
  for (int p = 0; p < n; ++p) if (r.indep[p] && hang[p]) { fprintf (stderr, "reference: point both hanging and independent\n"); abort (); }
  r.home.assign (n, -1);
  for (int p = 0; p < n; ++p) {
    Cell c;
    c.t = r.pts[p].t;
    c.l = QMAX;
    for (int d = 0; d < D; ++d) c.x[d] = cl (r.pts[p].x[d]) & ~1LL;
    int i = c.t;
    while (T.n[i].kid >= 0) i = T.n[i].kid + child_id (ancestor (c, T.n[i].c.l + 1));
    r.home[p] = T.n[i].leaf;
  }
  return r;
}
static void same_pt (const p4est_quadrant_t *q, const Pt &p, const char *what)
{
  Cell c = to_cell (*q, 0);
  bool ok = q->level == P4EST_MAXLEVEL;
  for (int d = 0; d < D; ++d) ok = ok && c.x[d] == p.x[d];
  if (!ok) fail ("%s at (%llx,%llx,%llx) level %d expected (%llx,%llx,%llx)", what, (long long) c.x[0], (long long) c.x[1], (long long) c.x[2], q->level, (long long) p.x[0], (long long) p.x[1], (long long) p.x[2]);
}

static void check_nodes (p4est_nodes_t *nd, int me, const Cells &L, const std::vector<int> &g, const Ref &r)
{
  int P = (int) g.size () - 1, K = g[me + 1] - g[me], n = (int) r.pts.size ();
  auto o = owners (g);
  std::vector<std::vector<int>> users (n);      // sorted list of processes
  for (size_t i = 0; i < L.size (); ++i) for (int k = 0; k < NC; ++k) {
    auto use = [&](int p) { auto &u = users[p]; if (u.empty () || u.back () != o[i]) u.push_back (o[i]); };
    if (!r.kind[i][k]) use (r.corner[i][k]); else for (int d : r.dep[i][k]) use (d);
  }
  std::vector<int> num (n, -1), cnt (P, 0);
  for (int p = 0; p < n; ++p) if (r.indep[p]) num[p] = cnt[o[r.home[p]]]++;
  if (nd->num_local_quadrants != K) fail ("nodes: num_local_quadrants %d expected %d", (int) nd->num_local_quadrants, K);
  for (int p = 0; p < P; ++p) if (nd->global_owned_indeps[p] != cnt[p]) fail ("nodes: global_owned_indeps[%d] = %d expected %d", p, (int) nd->global_owned_indeps[p], cnt[p]);
  // the independent nodes of this process in order
  std::vector<int> loc, where (n, -1);
  for (int p = 0; p < n; ++p) if (std::find (users[p].begin (), users[p].end (), me) != users[p].end ()) { where[p] = (int) loc.size (); loc.push_back (p); }
  if (nd->indep_nodes.elem_count != loc.size ()) fail ("nodes: %zu independent nodes expected %zu", nd->indep_nodes.elem_count, loc.size ());
  int nl = 0, first = -1, owned = 0, shared = 0;
  for (size_t j = 0; j < loc.size (); ++j) {
    int p = loc[j], w = o[r.home[p]];
    p4est_indep_t *in = (p4est_indep_t *) sc_array_index (&nd->indep_nodes, j);
    same_pt ((p4est_quadrant_t *) in, r.pts[p], "nodes: independent node");
    if (in->p.piggy3.which_tree != r.pts[p].t) fail ("nodes: independent node %zu is in tree %d expected %d", j, (int) in->p.piggy3.which_tree, r.pts[p].t);
    if (in->p.piggy3.local_num != num[p]) fail ("nodes: independent node %zu has number %d expected %d of rank %d", j, (int) in->p.piggy3.local_num, num[p], w);
    if (w == me) { if (first < 0) first = (int) j; ++owned; if (users[p].size () > 1) ++shared; }
    else if (nd->nonlocal_ranks[nl++] != w) fail ("nodes: independent node %zu is owned by %d expected %d", j, nd->nonlocal_ranks[nl - 1], w);
    std::vector<int> want, got;
    for (int u : users[p]) if (u != me) want.push_back (u);
    if (std::find (users[p].begin (), users[p].end (), w) == users[p].end ()) fail ("reference: owner does not use the node");
    if (in->pad8 != (int) want.size ()) fail ("nodes: independent node %zu has %d sharers expected %s", j, in->pad8, str (want).c_str ());
    if (!want.empty ()) {
      if (want.size () > nd->shared_indeps.elem_count) fail ("nodes: shared_indeps is too short");
      sc_recycle_array_t *ra = (sc_recycle_array_t *) sc_array_index (&nd->shared_indeps, want.size () - 1);
      long pos = nd->shared_offsets ? (long) nd->shared_offsets[j] : (long) in->pad16;
      if (nd->shared_offsets && in->pad16 != -1) fail ("nodes: pad16 of node %zu with shared_offsets is %d", j, in->pad16);
      if (ra->a.elem_size != want.size () * sizeof (int) || pos < 0 || pos >= (long) ra->a.elem_count) fail ("nodes: sharer position %ld of node %zu", pos, j);
      int *s = (int *) sc_array_index (&ra->a, (size_t) pos);
      got.assign (s, s + want.size ());
      std::sort (got.begin (), got.end ());
      if (got != want) fail ("nodes: independent node %zu is shared with %s expected %s", j, str (got).c_str (), str (want).c_str ());
    }
  }
  if (nd->num_owned_indeps != owned || (owned && nd->offset_owned_indeps != first) || nd->num_owned_shared != shared) fail ("nodes: owned %d+%d shared %d expected %d+%d shared %d", (int) nd->offset_owned_indeps, (int) nd->num_owned_indeps, (int) nd->num_owned_shared, first, owned, shared);
  // element corners
  int ni = (int) loc.size (), nf = (int) nd->face_hangings.elem_count, ne = 0;
#ifdef P4_TO_P8
  ne = (int) nd->edge_hangings.elem_count;
#endif
  std::vector<int> hp (nf + ne, -1);
  std::set<int> seen;
  for (int i = 0; i < K; ++i) for (int k = 0; k < NC; ++k) {
    int gi = g[me] + i, l = nd->local_nodes[i * NC + k], p = r.corner[gi][k];
    if (l < 0 || l >= ni + nf + ne) fail ("nodes: local_nodes[%d] out of range", i * NC + k);
    int kind = l < ni ? 0 : l < ni + nf ? 1 : 2, want = r.kind[gi][k];
    if (D == 2 && want == 2) want = 1;
    if (kind != want) fail ("nodes: corner %d of leaf %s is of kind %d expected %d", k, str (L[gi]).c_str (), kind, want);
    if (kind == 0) { if (where[p] != l) fail ("nodes: corner %d of leaf %s is node %d expected %d", k, str (L[gi]).c_str (), l, where[p]); continue; }
    int h = l - ni;
    if (hp[h] < 0) { if (!seen.insert (p).second) fail ("nodes: two hanging nodes for corner %d of leaf %s", k, str (L[gi]).c_str ()); hp[h] = p; }
    else if (hp[h] != p) fail ("nodes: hanging node %d stands for different points (corner %d of leaf %s)", h, k, str (L[gi]).c_str ());
    std::vector<int> got, dep;
    p4est_quadrant_t *q;
    int tree;
    if (kind == 1) {
      hangface_t *f = (hangface_t *) sc_array_index (&nd->face_hangings, (size_t) h);
      got.assign (f->p.piggy.depends, f->p.piggy.depends + NC / 2);
      q = (p4est_quadrant_t *) f;
      tree = f->p.piggy.which_tree;
    }
    else {
#ifdef P4_TO_P8
      p8est_hang2_t *f = (p8est_hang2_t *) sc_array_index (&nd->edge_hangings, (size_t) (h - nf));
      got.assign (f->p.piggy.depends, f->p.piggy.depends + 2);
      q = (p4est_quadrant_t *) f;
      tree = f->p.piggy.which_tree;
#else
      q = NULL;
      tree = -1;
#endif
    }
    same_pt (q, r.pts[p], "nodes: hanging node");
    if (tree != r.pts[p].t) fail ("nodes: hanging node at corner %d of leaf %s is in tree %d expected %d", k, str (L[gi]).c_str (), tree, r.pts[p].t);
    for (int d : r.dep[gi][k]) dep.push_back (where[d]);
    std::sort (dep.begin (), dep.end ());
    std::sort (got.begin (), got.end ());
    if (got != dep) fail ("nodes: corner %d of leaf %s depends on %s expected %s", k, str (L[gi]).c_str (), str (got).c_str (), str (dep).c_str ());
  }
  for (int h = 0; h < nf + ne; ++h) if (hp[h] < 0) fail ("nodes: hanging node %d is not referred to", h);
}
// without a ghost layer: corners are the same node exactly if they are the same
// point of the same tree
static void check_local (p4est_nodes_t *nd, int me, const Cells &L, const std::vector<int> &g, bool balanced)
{
  int K = g[me + 1] - g[me], n = 0;
  std::map<Pt, int> id;
  if (nd->num_local_quadrants != K || nd->face_hangings.elem_count || nd->global_owned_indeps != NULL) fail ("local nodes: counts");
#ifdef P4_TO_P8
  if (nd->edge_hangings.elem_count) fail ("local nodes: edge hangings");
#endif
  for (int i = 0; i < K; ++i) for (int k = 0; k < NC; ++k) {
    const Cell &c = L[g[me] + i];
    int l = nd->local_nodes[i * NC + k];
    Pt p;
    p.t = c.t;
    for (int d = 0; d < 3; ++d) p.x[d] = d < D ? c.x[d] + (k >> d & 1) * c.h () : 0;
    if (l < 0 || l >= (int) nd->indep_nodes.elem_count) fail ("local nodes: local_nodes[%d] out of range", i * NC + k);
    p4est_indep_t *in = (p4est_indep_t *) sc_array_index (&nd->indep_nodes, (size_t) l);
    same_pt ((p4est_quadrant_t *) in, p, "local nodes: node");
    if (in->p.piggy3.which_tree != c.t || in->p.piggy3.local_num != l || in->pad8 != 0) fail ("local nodes: node %d", l);
    auto it = id.insert ({p, l});
    if (it.second) ++n;
    else if (balanced && it.first->second != l) fail ("local nodes: corner %d of leaf %s is node %d but the same point is also node %d", k, str (c).c_str (), l, it.first->second);
  }
  if (nd->num_owned_indeps != (int) nd->indep_nodes.elem_count || nd->offset_owned_indeps != 0) fail ("local nodes: owned");
  if (balanced && n != (int) nd->indep_nodes.elem_count) fail ("local nodes: %zu nodes expected %d", nd->indep_nodes.elem_count, n);
}

static void body (HostConn &hc, const Cells &L, const std::vector<int> &g, const Ref *r, size_t ds, bool loc)
{
  rank_begin ();
  int me = vp::me ();
  p4est_t *p = make_p4est (&hc.c, L, g, ds, NULL);
  if (r) {
    p4est_ghost_t *gl = p4est_ghost_new (p, full_type ());
    p4est_nodes_t *nd = p4est_nodes_new (p, gl);
    check_nodes (nd, me, L, g, *r);
    if (!p4est_nodes_is_valid (p, nd)) fail ("p4est_nodes_is_valid returns false");
    p4est_nodes_destroy (nd);
    p4est_ghost_destroy (gl);
  }
  if (loc) {
    p4est_nodes_t *nd = p4est_nodes_new (p, NULL);
    check_local (nd, me, L, g, r != nullptr);
    p4est_nodes_destroy (nd);
  }
  check_p4est (p, L, g, 1, "after nodes_new");
  p4est_destroy (p);
  rank_end ();
}

// two columns of trees with many shared nodes
static std::shared_ptr<Conn> columns (int n)
{
  auto m = std::make_shared<Conn> ();
  int n2 = D == 3 ? n : 1;
  m->name = strf ("columns%d", n);
  m->nt = 2 * n * n2;
  m->ctt_off = {0};
  if (D == 3) m->ett_off = {0};
  auto tr = [&](int a, int j, int k) { return a < 0 || a > 1 || j < 0 || j >= n || k < 0 || k >= n2 ? -1 : (a * n2 + k) * n + j; };
  for (int a = 0; a < 2; ++a) for (int k = 0; k < n2; ++k) for (int j = 0; j < n; ++j) for (int f = 0; f < NF; ++f) {
    int s = f & 1 ? 1 : -1, t = f / 2 == 0 ? tr (a + s, j, k) : f / 2 == 1 ? tr (a, j + s, k) : tr (a, j, k + s);
    m->ttt.push_back (t < 0 ? tr (a, j, k) : t);
    m->ttf.push_back (t < 0 ? f : f ^ 1);
  }
  // edges and corners are only needed where more than two trees meet
  if (D == 3) {
    m->tte.assign (12 * m->nt, -1);
    for (int a = 0; a < 2; ++a) for (int k = 0; k <= n; ++k) for (int j = 0; j < n; ++j) for (int ax = 0; ax < 3; ++ax) {
      // lower edge along ax of cell (a,j,k)
      std::vector<std::pair<int, int>> v;
      for (int u = 0; u < 2; ++u) for (int w = 0; w < 2; ++w) {
        int q[3] = {a, j, k}, b1 = ax == 0 ? 1 : 0, b2 = ax == 2 ? 1 : 2;
        q[b1] -= u; q[b2] -= w;
        int t = tr (q[0], q[1], q[2]);
        if (t >= 0) v.push_back ({t, 4 * ax + u + 2 * w});
      }
      if (v.size () < 4) continue;
      for (auto &x : v) { m->tte[12 * x.first + x.second] = (int) m->ett_off.size () - 1; m->ett.push_back (x.first); m->ete.push_back (x.second); }
      m->ett_off.push_back ((int) m->ett.size ());
    }
  }
  m->ttc.assign (NC * m->nt, -1);
  for (int k = 0; k < n2 + (D == 3); ++k) for (int j = 0; j < n; ++j) {
    std::vector<std::pair<int, int>> v;
    for (int c = 0; c < NC; ++c) { int t = tr (1 - (c & 1), j - (c >> 1 & 1), k - (c >> 2 & 1)); if (t >= 0) v.push_back ({t, c}); }
    if ((int) v.size () < NC) continue;
    for (auto &x : v) { m->ttc[NC * x.first + x.second] = (int) m->ctt_off.size () - 1; m->ctt.push_back (x.first); m->ctc.push_back (x.second); }
    m->ctt_off.push_back ((int) m->ctt.size ());
  }
  if (D == 3 && m->ett_off.size () == 1) m->tte.clear ();
  return m;
}

void enumerate ()
{
  bool th = E.thorough;
  // balanced forests with the ghost layer; without it any forest
  for (int bal = 0; bal >= -1; --bal) {
    SpaceOpt o;
    o.bal = bal;
    o.shapes = D == 2;
    o.cap = D == 2 ? 150 : 40;
    o.twocap = D == 2 ? 30 : 10;
    o.K1 = D == 2 ? 4 : 3;
    if (bal < 0) { o.cap = 20; o.twoK = -1; o.only = {"unit", "rotwrap", "brick221"}; o.touch = false; o.shapes = false; }
    if (D == 3) o.Lmax = 3;
    if (th) { o.K1++; o.K4++; o.cap *= 8; if (o.twoK >= 0) o.twoK++; o.twocap *= 8; }
    int rot = 0;
    spaces (o, [&](HostConn &hc, const Cells &L) {
      if (L.size () > 1200) return;
      Ref r;
      if (bal == 0) r = make_ref (*hc.m, L);
      rot = (int) L.size ();
      parts (L, 1, 4, th ? 150 : L.size () > 60 ? 8 : D == 2 ? 30 : 20, [&](int P, const std::vector<int> &g) {
        int k = ++rot;
        if (!E.sub ()) return;
        E.describe ([=, &hc, &L] { return strf ("%s%s cuts %s leaves {%s}", hc.m->name.c_str (), bal ? " not balanced" : "", str (g).c_str (), str (L).c_str ()); });
        E.transition ();
        E.validated ();
        vp::Options op;
        op.leak_mpi = true;
        op.sync_send = k % 2;
        op.choices = P > 1 && k % 8 == 0 && bal == 0;
        E.maxexec = th ? 100 : 12;
        E.run (P, op, [&](int) { body (hc, L, g, bal == 0 ? &r : nullptr, k % 3 == 0 ? 5 : 0, bal < 0 || k % 4 == 0); });
      });
    });
  }
  // more shared nodes than fit a 16 bit position
  int n = D == 2 ? 33000 : 183;
  E.stage ("more than 32767 shared nodes: two columns of %d trees", D == 2 ? n : n * n);
  if (E.take ()) {
    auto m = columns (n);
    HostConn hc (m);
    Cells L = uniform (m->nt, 0);
    Ref r = make_ref (*m, L);
    int h = m->nt / 2;
    for (auto g : {std::vector<int> {0, h, m->nt}, std::vector<int> {0, h, m->nt - 5, m->nt}, std::vector<int> {0, 7, h, m->nt}}) if (E.sub ()) {
      E.describe ([=] { return strf ("%s cuts %s", m->name.c_str (), str (g).c_str ()); });
      E.transition ();
      E.run ((int) g.size () - 1, vp::Options (), [&](int) { body (hc, L, g, &r, 0, false); });
    }
  }
}
