// Reference model: coarse meshes as glued cubes, leaves as boxes.
// Deliberately simple; shares no code with p4est.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <vector>

#ifndef VP_DIM
#define VP_DIM 2
#endif

namespace ref
{
constexpr int D = VP_DIM;
constexpr int NF = 2 * D;
constexpr int NC = 1 << D;              // corners = children
constexpr int NE = D == 3 ? 12 : 0;
constexpr int64_t R = 1LL << 30;        // root length
constexpr int QMAX = 29;                // deepest level
inline int64_t len (int l) { return R >> l; }

// ------------------------------------------------------------------ cells
struct Cell
{
  int t = 0;
  int64_t x[3] = {0, 0, 0};
  int l = 0;
  int64_t h () const { return len (l); }
};
// Morton comparison of two points of the same tree: -1 0 1
inline int zcmp_pt (const int64_t *a, const int64_t *b)
{
  int best = -1;
  uint64_t bm = 0;
  for (int d = D - 1; d >= 0; --d) {
    uint64_t m = (uint64_t) (a[d] ^ b[d]);
    // is the most significant bit of m above that of bm?
    if (best < 0 ? m != 0 : (bm < m && bm < (bm ^ m))) { best = d; bm = m; }
  }
  if (best < 0) return 0;
  return a[best] < b[best] ? -1 : 1;
}
inline int cmp (const Cell &a, const Cell &b)
{
  if (a.t != b.t) return a.t < b.t ? -1 : 1;
  int z = zcmp_pt (a.x, b.x);
  if (z) return z;
  return a.l < b.l ? -1 : a.l > b.l;
}
inline bool operator< (const Cell &a, const Cell &b) { return cmp (a, b) < 0; }
inline bool operator== (const Cell &a, const Cell &b) { return cmp (a, b) == 0; }
inline bool operator!= (const Cell &a, const Cell &b) { return cmp (a, b) != 0; }
inline Cell child (const Cell &c, int i)
{
  Cell r = c;
  r.l = c.l + 1;
  for (int d = 0; d < D; ++d) if (i >> d & 1) r.x[d] += len (r.l);
  return r;
}
inline Cell ancestor (const Cell &c, int l)
{
  Cell r = c;
  r.l = l;
  for (int d = 0; d < D; ++d) r.x[d] = c.x[d] - ((c.x[d] % len (l)) + len (l)) % len (l);
  return r;
}
inline Cell parent (const Cell &c) { return ancestor (c, c.l - 1); }
inline int child_id (const Cell &c)
{
  int i = 0;
  for (int d = 0; d < D; ++d) if (c.x[d] & len (c.l)) i |= 1 << d;
  return i;
}
inline bool contains (const Cell &a, const Cell &b)    // a ancestor of or equal to b
{
  if (a.t != b.t || a.l > b.l) return false;
  for (int d = 0; d < D; ++d) if (b.x[d] < a.x[d] || b.x[d] >= a.x[d] + a.h ()) return false;
  return true;
}
inline Cell first_desc (const Cell &c, int l) { Cell r = c; r.l = l; return r; }
inline Cell last_desc (const Cell &c, int l)
{
  Cell r = c;
  r.l = l;
  for (int d = 0; d < D; ++d) r.x[d] += c.h () - len (l);
  return r;
}
inline Cell root (int t) { Cell c; c.t = t; return c; }
inline std::string str (const Cell &c)
{
  char b[96];
  if (c.l <= 8) {
    if (D == 2) snprintf (b, sizeof b, "t%d/%d(%lld,%lld)", c.t, c.l, (long long) (c.x[0] / c.h ()), (long long) (c.x[1] / c.h ()));
    else snprintf (b, sizeof b, "t%d/%d(%lld,%lld,%lld)", c.t, c.l, (long long) (c.x[0] / c.h ()), (long long) (c.x[1] / c.h ()), (long long) (c.x[2] / c.h ()));
  }
  else snprintf (b, sizeof b, "t%d/%d[%llx,%llx,%llx]", c.t, c.l, (long long) c.x[0], (long long) c.x[1], (long long) c.x[2]);
  return b;
}
typedef std::vector<Cell> Cells;
inline std::string str (const Cells &v) { std::string s; for (auto &c : v) { if (!s.empty ()) s += " "; s += str (c); } return s; }

// ------------------------------------------------------------------ boxes
struct Box
{
  int t;
  int64_t lo[3], hi[3];
  bool operator< (const Box &o) const { return std::tie (t, lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]) < std::tie (o.t, o.lo[0], o.lo[1], o.lo[2], o.hi[0], o.hi[1], o.hi[2]); }
  bool operator== (const Box &o) const { return !(*this < o) && !(o < *this); }
};
inline Box box_of (const Cell &c)
{
  Box b;
  b.t = c.t;
  for (int d = 0; d < 3; ++d) { b.lo[d] = d < D ? c.x[d] : 0; b.hi[d] = d < D ? c.x[d] + c.h () : 0; }
  return b;
}
inline int box_dim (const Box &b) { int k = 0; for (int d = 0; d < D; ++d) k += b.hi[d] > b.lo[d]; return k; }
// intersection of closed boxes; false if empty
inline bool box_cap (const Box &a, const Box &b, Box &o)
{
  if (a.t != b.t) return false;
  o.t = a.t;
  for (int d = 0; d < 3; ++d) {
    o.lo[d] = std::max (a.lo[d], b.lo[d]);
    o.hi[d] = std::min (a.hi[d], b.hi[d]);
    if (o.lo[d] > o.hi[d]) return false;
  }
  return true;
}
inline bool box_in (const Box &a, const Box &b)       // a subset of b
{
  if (a.t != b.t) return false;
  for (int d = 0; d < 3; ++d) if (a.lo[d] < b.lo[d] || a.hi[d] > b.hi[d]) return false;
  return true;
}

// ------------------------------------------------------------------ coarse mesh
// Affine signed-permutation map of a face/edge/corner region into another tree.
struct Map
{
  int t2;                       // target tree
  int axis[3];                  // target axis of each source axis, -1: none
  int flip[3];
  int64_t fix[3];               // fixed coordinate on target axes not hit
  bool hit[3];
  Box apply (const Box &b) const
  {
    Box o;
    o.t = t2;
    for (int d = 0; d < 3; ++d) { o.lo[d] = o.hi[d] = d < D ? fix[d] : 0; }
    for (int d = 0; d < D; ++d) if (axis[d] >= 0) {
      int a = axis[d];
      o.lo[a] = flip[d] ? R - b.hi[d] : b.lo[d];
      o.hi[a] = flip[d] ? R - b.lo[d] : b.hi[d];
    }
    return o;
  }
};
// the axes tangential to face f, ascending
inline void tang (int f, int *a) { int k = 0; for (int d = 0; d < D; ++d) if (d != f / 2) a[k++] = d; }
inline int edge_axis (int e) { return e / 4; }
// coordinates (0/1) of edge e on the axes other than its own
inline void edge_fix (int e, int *side)               // side[d] = 0/1 or -1 for own axis
{
  int ax = e / 4, k = 0;
  for (int d = 0; d < 3; ++d) if (d == ax) side[d] = -1; else side[d] = e >> k++ & 1;
}
inline int face_parity (int f) { static const int p[6] = {-1, 1, 1, -1, -1, 1}; return p[f]; }
// corner numbers of face f in face z-order
inline int face_corner (int f, int i)
{
  int a[2] = {0, 0}, c = 0;
  tang (f, a);
  for (int k = 0; k < D - 1; ++k) if (i >> k & 1) c |= 1 << a[k];
  if (f & 1) c |= 1 << (f / 2);
  return c;
}
inline Map face_map (int f, int t2, int nf, int o)
{
  Map m;
  m.t2 = t2;
  int a[2] = {0, 0}, b[2] = {0, 0};
  tang (f, a);
  tang (nf, b);
  for (int d = 0; d < 3; ++d) { m.axis[d] = -1; m.flip[d] = 0; m.fix[d] = 0; m.hit[d] = false; }
  m.fix[nf / 2] = nf & 1 ? R : 0;
  if (D == 2) { m.axis[a[0]] = b[0]; m.flip[a[0]] = o & 1; return m; }
  int s = -face_parity (f) * face_parity (nf);
  int o0 = o & 1, o1 = o >> 1 & 1;
  bool swap = ((o0 ^ o1) ? -1 : 1) != s;        // diag has sign (-1)^(o0+o1)
  // lower face -> higher face: corner 0 goes to corner o
  int ax[2], fl[2];                             // for u0,u1 of the lower face
  if (!swap) { ax[0] = 0; fl[0] = o0; ax[1] = 1; fl[1] = o1; }
  else { ax[0] = 1; fl[0] = o1; ax[1] = 0; fl[1] = o0; }
  if (f <= nf) for (int k = 0; k < 2; ++k) { m.axis[a[k]] = b[ax[k]]; m.flip[a[k]] = fl[k]; }
  else for (int k = 0; k < 2; ++k) { m.axis[a[ax[k]]] = b[k]; m.flip[a[ax[k]]] = fl[k]; }
  return m;
}

struct Conn
{
  std::string name;
  int nt = 0;
  std::vector<double> verts;                    // 3 per vertex
  std::vector<int> ttv;                         // NC per tree or empty
  std::vector<int> ttt, ttf;                    // NF per tree
  std::vector<int> tte, ett_off, ett, ete;      // 3D edges
  std::vector<int> ttc, ctt_off, ctt, ctc;      // corners
  bool boundary (int t, int f) const { return ttt[t * NF + f] == t && ttf[t * NF + f] % NF == f && ttf[t * NF + f] / NF == 0; }
  // all maps that leave tree t through a face, edge or corner region
  void face_maps (int t, int f, std::vector<Map> &v) const
  {
    int nt_ = ttt[t * NF + f], c = ttf[t * NF + f];
    if (boundary (t, f)) return;
    v.push_back (face_map (f, nt_, c % NF, c / NF));
  }
  void edge_maps (int t, int e, std::vector<Map> &v) const
  {
    if (D != 3 || tte.empty () || tte[t * 12 + e] < 0) return;
    int g = tte[t * 12 + e];
    for (int i = ett_off[g]; i < ett_off[g + 1]; ++i) if (ett[i] == t && ete[i] % 12 == e)
      for (int j = ett_off[g]; j < ett_off[g + 1]; ++j) if (j != i) {
        Map m;
        int e2 = ete[j] % 12, side[3];
        m.t2 = ett[j];
        edge_fix (e2, side);
        for (int d = 0; d < 3; ++d) { m.axis[d] = -1; m.flip[d] = 0; m.fix[d] = side[d] == 1 ? R : 0; }
        m.axis[edge_axis (e)] = edge_axis (e2);
        m.flip[edge_axis (e)] = (ete[i] / 12) ^ (ete[j] / 12);
        v.push_back (m);
      }
  }
  void corner_maps (int t, int c, std::vector<Map> &v) const
  {
    if (ttc.empty () || ttc[t * NC + c] < 0) return;
    int g = ttc[t * NC + c];
    for (int j = ctt_off[g]; j < ctt_off[g + 1]; ++j) if (!(ctt[j] == t && ctc[j] == c)) {
      Map m;
      m.t2 = ctt[j];
      for (int d = 0; d < 3; ++d) { m.axis[d] = -1; m.flip[d] = 0; m.fix[d] = d < D && (ctc[j] >> d & 1) ? R : 0; }
      v.push_back (m);
    }
  }
  mutable std::vector<std::array<std::vector<Map>, 27>> cache;
  // region code: per axis 0 (low) 1 (high) 2 (free); base 3
  const std::vector<Map> &region_maps (int t, const int *r) const
  {
    if (cache.empty ()) build ();
    int k = 0;
    for (int d = D - 1; d >= 0; --d) k = 3 * k + r[d];
    return cache[t][k];
  }
  void build () const
  {
    cache.resize (nt);
    int n = 1;
    for (int d = 0; d < D; ++d) n *= 3;
    for (int t = 0; t < nt; ++t) for (int k = 0; k < n; ++k) {
      int r[3] = {2, 2, 2}, q = k, fixed = 0;
      for (int d = 0; d < D; ++d) { r[d] = q % 3; q /= 3; fixed += r[d] < 2; }
      auto &v = cache[t][k];
      if (fixed == 1) { for (int d = 0; d < D; ++d) if (r[d] < 2) face_maps (t, 2 * d + r[d], v); }
      else if (fixed == 2 && D == 3) {
        for (int e = 0; e < 12; ++e) { int s[3]; edge_fix (e, s); bool ok = true; for (int d = 0; d < 3; ++d) ok = ok && (s[d] < 0 ? r[d] == 2 : r[d] == s[d]); if (ok) edge_maps (t, e, v); }
      }
      else if (fixed == D) { int c = 0; for (int d = 0; d < D; ++d) c |= r[d] << d; corner_maps (t, c, v); }
    }
  }
  // all representations of a closed box through the gluing, starting with itself
  void reps (const Box &b, std::vector<Box> &out) const
  {
    out.clear ();
    out.push_back (b);
    for (size_t i = 0; i < out.size (); ++i) {
      Box c = out[i];
      // enumerate boundary regions touched by c
      int can[3][3], cnt[3];
      bool inner = true;
      for (int d = 0; d < D; ++d) {
        cnt[d] = 0;
        can[d][cnt[d]++] = 2;
        if (c.lo[d] == 0) { can[d][cnt[d]++] = 0; inner = false; }
        if (c.hi[d] == R) { can[d][cnt[d]++] = 1; inner = false; }
      }
      if (inner) continue;
      int idx[3] = {0, 0, 0};
      for (;;) {
        int r[3] = {2, 2, 2};
        bool any = false;
        for (int d = 0; d < D; ++d) { r[d] = can[d][idx[d]]; any = any || r[d] < 2; }
        if (any) {
          const auto &ms = region_maps (c.t, r);
          if (!ms.empty ()) {
            Box s = c;
            for (int d = 0; d < D; ++d) { if (r[d] == 0) s.lo[d] = s.hi[d] = 0; if (r[d] == 1) s.lo[d] = s.hi[d] = R; }
            for (auto &m : ms) {
              Box o = m.apply (s);
              bool have = false;
              for (size_t k = 0; k < out.size () && !have; ++k) have = (k == 0 ? false : box_in (o, out[k])) || out[k] == o;
              // a representation inside the original box is still a self contact
              if (!have) out.push_back (o);
            }
          }
        }
        int d = 0;
        while (d < D && ++idx[d] == cnt[d]) idx[d++] = 0;
        if (d == D) break;
      }
    }
  }
  // canonical representative of a point
  struct Pt { int t; int64_t x[3]; bool operator< (const Pt &o) const { return std::tie (t, x[0], x[1], x[2]) < std::tie (o.t, o.x[0], o.x[1], o.x[2]); } bool operator== (const Pt &o) const { return !(*this < o) && !(o < *this); } };
  void pt_reps (const Pt &p, std::vector<Pt> &out) const
  {
    Box b;
    b.t = p.t;
    for (int d = 0; d < 3; ++d) b.lo[d] = b.hi[d] = p.x[d];
    std::vector<Box> v;
    reps (b, v);
    out.clear ();
    for (auto &q : v) out.push_back (Pt{q.t, {q.lo[0], q.lo[1], q.lo[2]}});
    std::sort (out.begin (), out.end ());
    out.erase (std::unique (out.begin (), out.end ()), out.end ());
  }
  Pt canon (const Pt &p) const
  {
    bool inner = true;
    for (int d = 0; d < D; ++d) inner = inner && p.x[d] > 0 && p.x[d] < R;
    if (inner) return p;
    std::vector<Pt> v;
    pt_reps (p, v);
    return v[0];
  }
};
typedef Conn::Pt Pt;

// ------------------------------------------------------------------ forests
// explicit refinement trees over all trees of a coarse mesh
struct Tree
{
  struct Node { Cell c; int kid = -1; int leaf = -1; };
  std::vector<Node> n;
  int nt;
  explicit Tree (int nt_) : nt (nt_) { for (int t = 0; t < nt; ++t) { Node x; x.c = root (t); n.push_back (x); } }
  void split (int i)
  {
    int k = (int) n.size ();
    n[i].kid = k;
    Cell c = n[i].c;
    for (int j = 0; j < NC; ++j) { Node x; x.c = child (c, j); n.push_back (x); }
  }
  // refine until cell c exists as a node
  int ensure (const Cell &c)
  {
    int i = c.t;
    while (n[i].c.l < c.l) {
      if (n[i].kid < 0) split (i);
      i = n[i].kid + child_id (ancestor (c, n[i].c.l + 1));
    }
    return i;
  }
  void collect (int i, Cells &out) { if (n[i].kid < 0) { n[i].leaf = (int) out.size (); out.push_back (n[i].c); } else for (int j = 0; j < NC; ++j) collect (n[i].kid + j, out); }
  Cells leaves () { Cells v; for (int t = 0; t < nt; ++t) collect (t, v); return v; }
  // visit leaf nodes whose closed box meets b
  template <class F> void query (const Box &b, F f) const { qrec (b.t, b, f); }
  template <class F> void qrec (int i, const Box &b, F &f) const
  {
    const Node &x = n[i];
    int64_t h = x.c.h ();
    for (int d = 0; d < D; ++d) if (b.hi[d] < x.c.x[d] || b.lo[d] > x.c.x[d] + h) return;
    if (x.kid < 0) { f (i); return; }
    for (int j = 0; j < NC; ++j) qrec (x.kid + j, b, f);
  }
};
inline Tree make_tree (int nt, const Cells &leaves) { Tree t (nt); for (auto &c : leaves) t.ensure (c); return t; }

struct Forest
{
  std::shared_ptr<const Conn> conn;
  Cells leaves;                 // all leaves in global order
};

// adjacency: for each leaf the other leaves touching it and the largest
// dimension of contact (D-1: face, 1: edge in 3D, 0: corner); self excluded
struct Nbr { int j; int dim; };
typedef std::vector<std::vector<Nbr>> Adj;
inline Adj adjacency (const Forest &F)
{
  Tree T = make_tree (F.conn->nt, F.leaves);
  T.leaves ();
  int n = (int) F.leaves.size ();
  Adj A (n);
  std::vector<Box> rp;
  std::vector<int> best (n, -1), touched;
  for (int i = 0; i < n; ++i) {
    F.conn->reps (box_of (F.leaves[i]), rp);
    touched.clear ();
    for (auto &b : rp) T.query (b, [&](int k) {
      int j = T.n[k].leaf;
      if (j == i) return;
      Box o;
      if (!box_cap (b, box_of (T.n[k].c), o)) return;
      int dm = box_dim (o);
      if (best[j] < 0) touched.push_back (j);
      if (dm > best[j]) best[j] = dm;
    });
    std::sort (touched.begin (), touched.end ());
    for (int j : touched) { A[i].push_back ({j, best[j]}); best[j] = -1; }
  }
  return A;
}
// coarsest refinement of T in which leaves touching in dimension >= k differ by <= 1
inline void balance_tree (const Conn &C, Tree &T, int k)
{
  std::vector<int> work;
  for (size_t i = 0; i < T.n.size (); ++i) if (T.n[i].kid < 0) work.push_back ((int) i);
  std::vector<Box> rp;
  while (!work.empty ()) {
    int i = work.back ();
    work.pop_back ();
    if (T.n[i].kid >= 0) continue;
    Cell c = T.n[i].c;
    if (c.l < 2) continue;
    C.reps (box_of (c), rp);
    for (auto &b : rp) for (;;) {
      int bad = -1;
      T.query (b, [&](int q) {
        if (bad >= 0 || q == i) return;
        Box o;
        if (T.n[q].c.l >= c.l - 1) return;
        if (box_cap (b, box_of (T.n[q].c), o) && box_dim (o) >= k) bad = q;
      });
      if (bad < 0) break;
      T.split (bad);
      for (int j = 0; j < NC; ++j) work.push_back (T.n[bad].kid + j);
    }
  }
}
// 2x2(x2) trees in a regular arrangement
inline const Conn &regular_block ()
{
  static Conn B;
  if (!B.nt) {
    B.name = "block";
    B.nt = NC;
    for (int t = 0; t < NC; ++t) for (int f = 0; f < NF; ++f) {
      int d = f / 2;
      bool in = (f & 1) != (t >> d & 1);
      B.ttt.push_back (in ? t ^ (1 << d) : t);
      B.ttf.push_back (in ? f ^ 1 : f);
    }
  }
  return B;
}
// The cells that the leaves L0 of one tree impose on a tree that lies opposite
// to it in a regular arrangement, seen across the axes S (bit set) to the
// sides given by hi (bit set): leaves of the opposite tree that touch the
// common edge or corner, in the frame of the first tree mirrored such that
// the second lies on the upper side.
inline Cells imposed (const Cells &L0, int S, int hi, int k)
{
  Tree T (NC);
  for (Cell c : L0) {
    c.t = 0;
    for (int d = 0; d < D; ++d) if ((S >> d & 1) && !(hi >> d & 1)) c.x[d] = R - c.x[d] - c.h ();
    T.ensure (c);
  }
  balance_tree (regular_block (), T, k);
  Cells out;
  for (auto &x : T.n) if (x.kid < 0 && x.c.t == S) {
    bool ok = true;
    for (int d = 0; d < D; ++d) if (S >> d & 1) ok = ok && x.c.x[d] == 0;
    if (ok) out.push_back (x.c);
  }
  return out;
}
// Balance of a forest.  For edges and corners where trees meet, p4est applies
// the rule requested for faces (or edges) as if the trees were arranged
// regularly, i.e. with the intermediate cells that a regular mesh has.
inline Cells balance (const Conn &C, const Cells &in, int k)
{
  Tree T = make_tree (C.nt, in);
  for (;;) {
    balance_tree (C, T, k);
    if (k == 0) return T.leaves ();
    std::vector<Cells> per (C.nt);
    std::vector<int> mx (C.nt, 0);
    Cells all = T.leaves ();
    for (auto &c : all) { per[c.t].push_back (c); mx[c.t] = std::max (mx[c.t], c.l); }
    size_t before = T.n.size ();
    for (int t = 0; t < C.nt; ++t) {
      if (mx[t] < 3) continue;
      if (D == 3) for (int e = 0; e < 12; ++e) {
        std::vector<Map> ms;
        C.edge_maps (t, e, ms);
        if (ms.empty ()) continue;
        int s[3], S = 0, hi = 0;
        edge_fix (e, s);
        for (int d = 0; d < 3; ++d) if (s[d] >= 0) { S |= 1 << d; hi |= s[d] << d; }
        Cells im = imposed (per[t], S, hi, k);
        int ax = edge_axis (e);
        for (auto &m : ms) for (auto &c : im) {
          Cell n;
          n.t = m.t2;
          n.l = c.l;
          for (int d = 0; d < 3; ++d) n.x[d] = m.fix[d] ? R - c.h () : 0;
          n.x[m.axis[ax]] = m.flip[ax] ? R - c.x[ax] - c.h () : c.x[ax];
          T.ensure (n);
        }
      }
      for (int q = 0; q < NC; ++q) {
        std::vector<Map> ms;
        C.corner_maps (t, q, ms);
        if (ms.empty ()) continue;
        Cells im = imposed (per[t], NC - 1, q, k);
        for (auto &m : ms) for (auto &c : im) {
          Cell n;
          n.t = m.t2;
          n.l = c.l;
          for (int d = 0; d < D; ++d) n.x[d] = m.fix[d] ? R - c.h () : 0;
          T.ensure (n);
        }
      }
    }
    if (T.n.size () == before) return T.leaves ();
  }
}
inline bool is_balanced (const Forest &F, const Adj &A, int k)
{
  for (size_t i = 0; i < A.size (); ++i) for (auto &n : A[i]) if (n.dim >= k && std::abs (F.leaves[i].l - F.leaves[n.j].l) > 1) return false;
  return true;
}

// ------------------------------------------------------------------ enumeration
// all subdivisions of one tree of depth <= L (relative to cell c)
inline void shapes_rec (const Cell &c, int L, std::vector<Cells> &out)
{
  out.push_back ({c});
  if (L == 0) return;
  std::vector<std::vector<Cells>> kids (NC);
  for (int j = 0; j < NC; ++j) shapes_rec (child (c, j), L - 1, kids[j]);
  std::vector<size_t> idx (NC, 0);
  for (;;) {
    Cells v;
    for (int j = 0; j < NC; ++j) v.insert (v.end (), kids[j][idx[j]].begin (), kids[j][idx[j]].end ());
    out.push_back (v);
    int j = 0;
    while (j < NC && ++idx[j] == kids[j].size ()) idx[j++] = 0;
    if (j == NC) break;
  }
}
inline Cells uniform (int nt, int l)
{
  Tree T (nt);
  for (size_t i = 0; i < T.n.size (); ++i) if (T.n[i].c.l < l) T.split ((int) i);
  return T.leaves ();
}
inline Cells split_at (const Cells &v, size_t i)
{
  Cells r (v.begin (), v.begin () + i);
  for (int j = 0; j < NC; ++j) r.push_back (child (v[i], j));
  r.insert (r.end (), v.begin () + i + 1, v.end ());
  return r;
}
// all forests reachable from base by <= K single refinements, not beyond level L,
// in breadth first order without repetition
inline std::vector<Cells> reachable (const Cells &base, int K, int L, size_t cap = (size_t) -1)
{
  std::vector<Cells> out {base};
  std::set<Cells> seen {base};
  size_t lo = 0;
  for (int k = 0; k < K; ++k) {
    size_t hi = out.size ();
    for (size_t i = lo; i < hi; ++i) for (size_t j = 0; j < out[i].size (); ++j) {
      if (out[i][j].l >= L) continue;
      Cells v = split_at (out[i], j);
      if (seen.insert (v).second) out.push_back (v);
      if (out.size () >= cap) return out;
    }
    lo = hi;
  }
  return out;
}
// base refined towards a corner of cell t down to level L: a deep chain
inline Cells chain (int nt, int t, int corner, int L)
{
  Tree T (nt);
  Cell c = root (t);
  for (int l = 0; l < L; ++l) c = child (c, corner);
  T.ensure (c);
  return T.leaves ();
}
// chain towards an interior point: first child a, then corner b all the way
inline Cells chain2 (int nt, int t, int a, int b, int L)
{
  Tree T (nt);
  Cell c = child (root (t), a);
  for (int l = 1; l < L; ++l) c = child (c, b);
  T.ensure (c);
  return T.leaves ();
}
// all nondecreasing cut vectors g[0]=0..g[P]=n
inline void partitions (int n, int P, const std::function<void(const std::vector<int> &)> &f)
{
  std::vector<int> g (P + 1, 0);
  g[P] = n;
  std::function<void(int)> rec = [&](int p) {
    if (p == P) { f (g); return; }
    for (int v = g[p - 1]; v <= n; ++v) { g[p] = v; rec (p + 1); }
  };
  if (P == 1) f (g);
  else rec (1);
}
inline std::string str (const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size (); ++i) { if (i) s += ","; s += std::to_string (v[i]); } return s + "]"; }
inline int owner_of (const std::vector<int> &g, int i) { int p = 0; while (g[p + 1] <= i) ++p; return p; }
}
