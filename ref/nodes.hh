// Reference numbering of the conforming node space and the exact comparison
// with a p4est_lnodes_t.
#pragma once
#include "ref/ghost.hh"
#if VP_DIM == 3
#include <p8est_lnodes.h>
#else
#include <p4est_lnodes.h>
#endif
namespace br
{
// hanging faces and edges of every leaf: -1 or the child number of the leaf
struct Hang { std::vector<std::array<char, 6>> face; std::vector<std::array<char, 12>> edge; };
inline Hang hanging (const Conn &C, const Cells &L)
{
  Tree T = make_tree (C.nt, L);
  T.leaves ();
  Hang H;
  H.face.resize (L.size ());
  H.edge.resize (L.size ());
  std::vector<Box> rp;
  for (size_t i = 0; i < L.size (); ++i) {
    H.face[i].fill (0);
    H.edge[i].fill (0);
    int r[3];
    auto coarse = [&](bool onedge) {
      bool h = false;
      Box b = sub_box (L[i], r);
      int inside = 1;
      for (int d = 0; d < D; ++d) if (b.lo[d] == 0 || b.hi[d] == R) inside = 0;
      rp.clear ();
      if (inside) rp.push_back (b); else C.reps (b, rp);
      for (auto &x : rp) T.query (x, [&](int k) {
        const Cell &c = T.n[k].c;
        if (c.l >= L[i].l || box_dim (x) != box_dim (b)) return;
        Box cb = box_of (c);
        if (!box_in (x, cb)) return;
        if (onedge) { int fx = 0; for (int d = 0; d < D; ++d) fx += x.lo[d] == x.hi[d] && (x.lo[d] == cb.lo[d] || x.lo[d] == cb.hi[d]); if (fx < 2) return; }
        h = true;
      });
      return h;
    };
    for (int f = 0; f < NF; ++f) { face_region (f, r); H.face[i][f] = coarse (false); }
    for (int e = 0; e < NE; ++e) { edge_region (e, r); H.edge[i][e] = coarse (true); }
  }
  return H;
}
struct NodeRef
{
  int degree = 0, vnodes = 0, n = 0;
  std::vector<std::vector<int>> en;     // per leaf and position
  std::vector<int> dim;                 // dimension of the entity a node is in
  std::vector<int> low;                 // lowest leaf touching a node
  std::vector<int> alt;                 // lowest leaf on the first side of the tree boundary a node is on
  std::vector<std::vector<int>> users;  // leaves that refer to a node
};
// symmetric dyadic positions in units of h / 2^bits
inline int node_bits (int N) { return N <= 1 ? 0 : N == 2 ? 1 : N <= 4 ? 2 : 3; }
inline int node_pos (int N, int i)
{
  static const int t[6][7] = {{0}, {0, 1}, {0, 1, 2}, {0, 1, 3, 4}, {0, 1, 2, 3, 4}, {0, 1, 2, 6, 7, 8}};
  return t[N][i];
}
// positions of one element: region and dyadic position per axis
struct Pos { int r[3]; int p[3]; };
inline std::vector<Pos> positions (int degree, int &bits)
{
  std::vector<Pos> v;
  if (degree >= 1) {
    bits = node_bits (degree);
    int n = degree + 1, tot = 1;
    for (int d = 0; d < D; ++d) tot *= n;
    for (int k = 0; k < tot; ++k) {
      Pos p;
      int q = k;
      for (int d = 0; d < 3; ++d) {
        int i = d < D ? q % n : 0;
        q /= n;
        p.r[d] = i == 0 ? 0 : i == degree ? 1 : 2;
        p.p[d] = d < D ? node_pos (degree, i) : 0;
      }
      v.push_back (p);
    }
    return v;
  }
  bits = 1;
  auto add = [&](const int *r) { Pos p; for (int d = 0; d < 3; ++d) { p.r[d] = r[d]; p.p[d] = d >= D ? 0 : r[d] == 2 ? 1 : 2 * r[d]; } v.push_back (p); };
  int r[3];
  for (int f = 0; f < NF; ++f) { face_region (f, r); add (r); }
  if (D == 3 && degree <= -2) for (int e = 0; e < NE; ++e) { edge_region (e, r); add (r); }
  if (degree <= -D) for (int c = 0; c < NC; ++c) { for (int d = 0; d < 3; ++d) r[d] = c >> d & 1; add (r); }
  return v;
}
// number of the tree face, edge or corner that a box lies on
inline int tree_side (const Box &b)
{
  int s[3] = {-1, -1, -1}, n = 0;
  for (int d = 0; d < D; ++d) if (b.lo[d] == b.hi[d] && (b.lo[d] == 0 || b.lo[d] == R)) { s[d] = b.lo[d] == R; ++n; }
  if (n == 0) return 0;
  if (n == 1) for (int d = 0; d < D; ++d) if (s[d] >= 0) return 2 * d + s[d];
  if (n == D) { int c = 0; for (int d = 0; d < D; ++d) c |= s[d] << d; return c; }
  for (int e = 0; e < NE; ++e) { int f[3]; edge_fix (e, f); bool eq = true; for (int d = 0; d < 3; ++d) if (f[d] != s[d]) eq = false; if (eq) return e; }
  return -1;
}
inline NodeRef node_ref (const Conn &C, const Cells &L, const Hang &H, int degree)
{
  NodeRef N;
  int bits;
  auto ps = positions (degree, bits);
  N.degree = degree;
  N.vnodes = (int) ps.size ();
  Tree T = make_tree (C.nt, L);
  T.leaves ();
  std::map<std::pair<int, Pt>, int> id;
  std::vector<Box> rp;
  for (size_t i = 0; i < L.size (); ++i) {
    N.en.push_back ({});
    for (auto &p : ps) {
      bool h = false;
      // hanging faces or edges whose closure contains this position
      for (int f = 0; f < NF; ++f) if (H.face[i][f] && p.r[f / 2] == (f & 1)) h = true;
      for (int e = 0; e < NE; ++e) if (H.edge[i][e]) { int s[3]; edge_fix (e, s); bool on = true; for (int d = 0; d < 3; ++d) if (s[d] >= 0 && p.r[d] != s[d]) on = false; if (on) h = true; }
      Cell c = h ? parent (L[i]) : L[i];
      Pt q;
      q.t = c.t;
      int dim = 0;
      for (int d = 0; d < 3; ++d) { q.x[d] = d < D ? c.x[d] + p.p[d] * (c.h () >> bits) : 0; dim += d < D && p.r[d] == 2; }
      Pt cq = dim == D ? q : C.canon (q);
      auto it = id.insert ({{dim, cq}, N.n});
      if (it.second) {
        ++N.n;
        // lowest leaf touching the entity
        C.reps (sub_box (c, p.r), rp);
        int lo = (int) L.size (), first = lo;
        std::pair<int, int> side (INT_MAX, 0);
        for (auto &b : rp) {
          int mine = (int) L.size ();
          T.query (b, [&](int k) {
            Box o;
            if (T.n[k].leaf < mine && box_cap (b, box_of (T.n[k].c), o) && box_dim (o) == dim) mine = T.n[k].leaf;
          });
          if (mine == (int) L.size ()) continue;
          lo = std::min (lo, mine);
          std::pair<int, int> sd (b.t, tree_side (b));
          if (sd < side) side = sd, first = mine;
          else if (sd == side) first = std::min (first, mine);
        }
        N.dim.push_back (dim);
        N.low.push_back (lo);
        N.alt.push_back (first);
        N.users.push_back ({});
      }
      N.en.back ().push_back (it.first->second);
      auto &u = N.users[it.first->second];
      if (u.empty () || u.back () != (int) i) u.push_back ((int) i);
    }
  }
  return N;
}
// numbers assigned by the library, shared by all ranks of an execution
struct NodeMap { std::vector<int64_t> num; std::vector<int> ref; void reset (int n) { num.assign (n, -1); ref.assign (n, -1); } };
inline void check_lnodes (p4est_lnodes_t *ln, int me, const Cells &L, const std::vector<int> &g, const Hang &H, const NodeRef &N, NodeMap &M)
{
  int P = (int) g.size () - 1, K = g[me + 1] - g[me];
  auto o = owners (g);
  if (ln->degree != N.degree || ln->vnodes != N.vnodes || ln->num_local_elements != K) fail ("lnodes: degree %d vnodes %d elements %d", ln->degree, ln->vnodes, (int) ln->num_local_elements);
  // owned counts
  std::vector<int64_t> off (P + 1, 0);
  for (int p = 0; p < P; ++p) {
    int c = 0;
    for (int k : N.low) c += o[k] == p;
    if (ln->global_owned_count[p] != c) fail ("lnodes: rank %d owns %d nodes, expected %d", p, (int) ln->global_owned_count[p], c);
    off[p + 1] = off[p] + c;
  }
  if (ln->owned_count != ln->global_owned_count[me] || ln->global_offset != off[me]) fail ("lnodes: owned_count %d global_offset %lld expected %lld", (int) ln->owned_count, (long long) ln->global_offset, (long long) off[me]);
  int nl = ln->num_local_nodes;
  std::vector<int> ref (nl, -1);        // reference node of each local node
  for (int i = 0; i < K; ++i) for (int v = 0; v < N.vnodes; ++v) {
    int k = ln->element_nodes[i * N.vnodes + v], r = N.en[g[me] + i][v];
    if (k < 0 || k >= nl) fail ("lnodes: element_nodes out of range");
    int64_t gn = k < ln->owned_count ? ln->global_offset + k : ln->nonlocal_nodes[k - ln->owned_count];
    if (ref[k] >= 0 && ref[k] != r) fail ("lnodes: local node %d at leaf %s position %d stands for different points", k, str (L[g[me] + i]).c_str (), v);
    ref[k] = r;
    if (gn < 0 || gn >= N.n) fail ("lnodes: global number %lld out of range 0..%d", (long long) gn, N.n);
    int ow = o[N.low[r]];
    if (gn < off[ow] || gn >= off[ow + 1]) fail ("lnodes: node %lld at leaf %s position %d is not owned by rank %d", (long long) gn, str (L[g[me] + i]).c_str (), v, ow);
    if ((ow == me) != (k < ln->owned_count)) fail ("lnodes: local node %d of %d owned ones is owned by %d", k, (int) ln->owned_count, ow);
    if (M.num[r] >= 0 && M.num[r] != gn) fail ("lnodes: leaf %s position %d has number %lld, but the same point has number %lld elsewhere", str (L[g[me] + i]).c_str (), v, (long long) gn, (long long) M.num[r]);
    if (M.ref[gn] >= 0 && M.ref[gn] != r) fail ("lnodes: leaf %s position %d has number %lld that is used for another point", str (L[g[me] + i]).c_str (), v, (long long) gn);
    M.num[r] = gn;
    M.ref[gn] = r;
  }
  std::set<int> uniq;
  for (int k = 0; k < nl; ++k) {
    if (ref[k] < 0) fail ("lnodes: local node %d is not referred to by any local element", k);
    if (!uniq.insert (ref[k]).second) fail ("lnodes: two local nodes for the same point");
  }
  // without nodes on edges or corners the code describes the faces only
  bool eu = N.degree != -1;
  for (int i = 0; i < K; ++i) {
    const Cell &c = L[g[me] + i];
    int cid = c.l ? child_id (c) : 0;
    int hf[6], he[12];
    bool any = false;
    for (int f = 0; f < NF; ++f) any = any || H.face[g[me] + i][f];
    for (int e = 0; e < NE; ++e) any = any || (eu && H.edge[g[me] + i][e]);
    if (ln->face_code[i] < 0) fail ("lnodes: negative face code");
#ifdef P4_TO_P8
    int a = p8est_lnodes_decode (ln->face_code[i], hf, he);
#else
    int a = p4est_lnodes_decode (ln->face_code[i], hf);
    (void) he;
#endif
    if (!!a != any) fail ("lnodes: face code %d of leaf %s is %s", (int) ln->face_code[i], str (c).c_str (), any ? "zero" : "not zero");
    if (!any) continue;
    for (int f = 0; f < NF; ++f) {
      int w = -1;
      if (H.face[g[me] + i][f]) { w = -1; for (int k = 0; k < NC / 2; ++k) if (face_corner (f, k) == cid) w = k; }
      if (hf[f] != w) fail ("lnodes: leaf %s hanging_face[%d] = %d expected %d", str (c).c_str (), f, hf[f], w);
    }
    for (int e = 0; e < NE; ++e) {
      int s[3], w = -1;
      edge_fix (e, s);
      bool onf = false;
      for (int d = 0; d < 3; ++d) if (s[d] >= 0 && H.face[g[me] + i][2 * d + s[d]]) onf = true;
      bool onp = true;          // on an edge of the parent
      for (int d = 0; d < 3; ++d) if (s[d] >= 0 && s[d] != (cid >> d & 1)) onp = false;
      if (eu && H.edge[g[me] + i][e]) w = (onf ? 2 : 0) + (cid >> edge_axis (e) & 1);
      else if (onf) w = 4;
      if (onf && onp && !H.edge[g[me] + i][e]) fail ("reference: edge %d of %s", e, str (c).c_str ());
      if (he[e] != w) fail ("lnodes: leaf %s hanging_edge[%d] = %d expected %d", str (c).c_str (), e, he[e], w);
    }
  }
  // sharers
  std::vector<std::vector<int>> sh (P);
  for (int k = 0; k < nl; ++k) {
    std::set<int> who;
    for (int u : N.users[ref[k]]) who.insert (o[u]);
    if (who.size () > 1) for (int p : who) sh[p].push_back (k);
  }
  // both sides list shared nodes by global number
  for (auto &v : sh) std::sort (v.begin (), v.end (), [&](int a, int b) { return M.num[ref[a]] < M.num[ref[b]]; });
  size_t j = 0, ns = ln->sharers ? ln->sharers->elem_count : 0;
  for (int p = 0; p < P; ++p) {
    if (sh[p].empty ()) continue;
    if (j >= ns) fail ("lnodes: rank %d is missing in sharers", p);
    p4est_lnodes_rank_t *lr = p4est_lnodes_rank_array_index (ln->sharers, j++);
    if (lr->rank != p) fail ("lnodes: sharers list rank %d expected %d", lr->rank, p);
    std::vector<int> got;
    for (size_t k = 0; k < lr->shared_nodes.elem_count; ++k) got.push_back ((int) *(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, k));
    if (got != sh[p]) fail ("lnodes: nodes shared with %d are %s expected %s", p, str (got).c_str (), str (sh[p]).c_str ());
    int mo = 0, mc = 0;
    for (size_t k = 0; k < got.size (); ++k) if (got[k] < ln->owned_count) { if (!mc) mo = (int) k; ++mc; }
    if (lr->shared_mine_count != mc || (mc && lr->shared_mine_offset != mo)) fail ("lnodes: shared_mine %d+%d expected %d+%d for rank %d", (int) lr->shared_mine_offset, (int) lr->shared_mine_count, mo, mc, p);
    int oo = 0, oc = 0;
    for (int k = 0; k < nl; ++k) if (o[N.low[ref[k]]] == p) { if (!oc) oo = k; ++oc; }
    if (lr->owned_count != oc || (oc && lr->owned_offset != oo)) fail ("lnodes: owned %d+%d expected %d+%d for rank %d", (int) lr->owned_offset, (int) lr->owned_count, oo, oc, p);
  }
  if (j != ns) fail ("lnodes: %zu sharers expected %zu", ns, j);
}
}
