// Reference for mesh iteration: the faces, edges and corners of a balanced
// forest with the leaves around them, as far as a set of leaves is known.
#pragma once
#include "ref/ghost.hh"
namespace br
{
struct Side
{
  int t, num;                   // tree and face/edge/corner number
  bool hang = false;
  std::vector<int> q;           // leaf indices, -1 if not known
  Box rep;
  int sg[3];                    // orthant
};
struct Entity
{
  int dim;
  Box key;                      // first representation
  std::vector<Side> sides;
  int codim;                    // of the tree boundary it is on, 0: interior
};
inline int side_number (const Box &b, const int *sg)
{
  int dim = box_dim (b);
  int s[3];
  for (int d = 0; d < D; ++d) s[d] = b.lo[d] < b.hi[d] ? -1 : sg[d] > 0 ? 0 : 1;
  if (dim == D - 1) { for (int d = 0; d < D; ++d) if (s[d] >= 0) return 2 * d + s[d]; }
  if (dim == 0) { int c = 0; for (int d = 0; d < D; ++d) c |= s[d] << d; return c; }
  for (int e = 0; e < NE; ++e) { int f[3]; edge_fix (e, f); bool eq = true; for (int d = 0; d < 3; ++d) if (f[d] != s[d]) eq = false; if (eq) return e; }
  return -1;
}
inline int leaf_at (const Tree &T, int t, const int64_t *x)
{
  int i = t;
  while (T.n[i].kid >= 0) {
    int64_t h = len (T.n[i].c.l + 1);
    int j = 0;
    for (int d = 0; d < D; ++d) if (x[d] >= T.n[i].c.x[d] + h) j |= 1 << d;
    i = T.n[i].kid + j;
  }
  return T.n[i].leaf;
}
inline int tree_codim (const Box &b) { int n = 0; for (int d = 0; d < D; ++d) n += b.lo[d] == b.hi[d] && (b.lo[d] == 0 || b.lo[d] == R); return n; }
// Collect the sides of the region b.  Returns false if a known leaf covers it
// without having it as its own face, edge or corner; cover receives the region
// of that leaf that contains b and has the same dimension, if any.
inline bool entity_at (const Conn &C, const Cells &L, const Tree &T, const std::vector<char> &known, const Box &b, Entity &e, Box *cover, bool *covered)
{
  e.dim = box_dim (b);
  e.sides.clear ();
  int64_t h = 0;
  for (int d = 0; d < D; ++d) h = std::max (h, b.hi[d] - b.lo[d]);
  std::vector<Box> rp;
  C.reps (b, rp);
  std::vector<Box> mine;
  for (auto &x : rp) if (box_dim (x) == e.dim) mine.push_back (x);
  std::sort (mine.begin (), mine.end ());
  mine.erase (std::unique (mine.begin (), mine.end ()), mine.end ());
  e.key = mine[0];
  e.codim = tree_codim (e.key);
  bool ok = true;
  if (covered) *covered = false;
  for (auto &x : mine) for (int o = 0; o < NC; ++o) {
    Side s;
    s.t = x.t;
    s.rep = x;
    bool in = true;
    int64_t p[3] = {0, 0, 0};
    for (int d = 0; d < D; ++d) {
      bool fixd = x.lo[d] == x.hi[d];
      s.sg[d] = o >> d & 1 ? 1 : -1;
      if (!fixd) { if (s.sg[d] > 0) in = false; s.sg[d] = 0; p[d] = x.lo[d]; continue; }
      p[d] = s.sg[d] > 0 ? x.lo[d] : x.lo[d] - 1;
      if (p[d] < 0 || p[d] >= R) in = false;
    }
    if (!in) continue;
    s.num = side_number (x, s.sg);
    auto kn = [&](int j) { return known[j] ? j : -1; };
    int j = leaf_at (T, x.t, p);
    const Cell &c = L[j];
    Box cb = box_of (c);
    if (e.dim == 0) {
      bool own = true;
      for (int d = 0; d < D; ++d) own = own && (x.lo[d] == cb.lo[d] || x.lo[d] == cb.hi[d]);
      if (!own && known[j]) { ok = false; continue; }
      s.q = {own ? kn (j) : -1};
      e.sides.push_back (s);
      continue;
    }
    if (c.h () > h) {
      if (!known[j]) { s.q = {-1}; e.sides.push_back (s); continue; }
      ok = false;
      // region of c of the same dimension that contains x
      Box r = cb;
      int fx = 0;
      for (int d = 0; d < D; ++d) if (x.lo[d] == x.hi[d]) {
        if (x.lo[d] == cb.lo[d]) { r.hi[d] = r.lo[d]; ++fx; }
        else if (x.lo[d] == cb.hi[d]) { r.lo[d] = r.hi[d]; ++fx; }
      }
      if (fx == D - e.dim && cover) { *cover = r; *covered = true; }
      continue;
    }
    if (c.h () == h) { s.q = {kn (j)}; e.sides.push_back (s); continue; }
    // smaller leaves in z-order
    std::vector<int> q;
    bool any = false;
    for (int k = 0; k < 1 << e.dim; ++k) {
      int64_t y[3] = {p[0], p[1], p[2]};
      int bit = 0;
      for (int d = 0; d < D; ++d) if (x.lo[d] < x.hi[d]) { if (k >> bit & 1) y[d] += h / 2; ++bit; }
      q.push_back (kn (leaf_at (T, x.t, y)));
      any = any || q.back () >= 0;
    }
    s.hang = any;
    if (any) s.q = q; else s.q = {-1};
    e.sides.push_back (s);
  }
  return ok;
}
// all entities that the iteration has to visit on one rank
inline std::vector<Entity> entities (const Conn &C, const Cells &L, const Tree &T, const std::vector<char> &known, int lo, int hi, bool remote)
{
  std::vector<Entity> out;
  std::set<std::pair<int, Box>> seen;
  auto add = [&](const Box &b, auto &&self, int depth) -> void {
    Entity e;
    Box cov;
    bool covered;
    if (entity_at (C, L, T, known, b, e, &cov, &covered)) {
      if (seen.insert ({e.dim, e.key}).second) out.push_back (e);
    }
    else if (covered && depth < 2) self (cov, self, depth + 1);
  };
  auto parts_of = [&](const Box &b, auto &&f) {
    // all faces of the box of dimension 1 (3D) and 0
    if (box_dim (b) == 2) for (int d = 0; d < D; ++d) if (b.lo[d] < b.hi[d]) for (int s = 0; s < 2; ++s) {
      Box x = b;
      if (s) x.lo[d] = x.hi[d]; else x.hi[d] = x.lo[d];
      f (x);
    }
    for (int o = 0; o < NC; ++o) {
      Box x = b;
      bool use = true;
      for (int d = 0; d < D; ++d) { if (b.lo[d] == b.hi[d]) { if (o >> d & 1) use = false; continue; } if (o >> d & 1) x.lo[d] = x.hi[d]; else x.hi[d] = x.lo[d]; }
      if (use) f (x);
    }
  };
  for (int i = lo; i < hi; ++i) {
    int r[3];
    for (int f = 0; f < NF; ++f) { face_region (f, r); add (sub_box (L[i], r), add, 0); }
    for (int e = 0; e < NE; ++e) { edge_region (e, r); add (sub_box (L[i], r), add, 0); }
    for (int c = 0; c < NC; ++c) { for (int d = 0; d < 3; ++d) r[d] = c >> d & 1; add (sub_box (L[i], r), add, 0); }
    if (remote) {
      auto cov = [&](const Box &b) {
        Entity e;
        Box cb;
        bool covered;
        if (!entity_at (C, L, T, known, b, e, &cb, &covered) && covered) parts_of (cb, [&](const Box &x) { add (x, add, 0); });
      };
      for (int f = 0; f < NF; ++f) { face_region (f, r); cov (sub_box (L[i], r)); }
      for (int e = 0; e < NE; ++e) { edge_region (e, r); cov (sub_box (L[i], r)); }
    }
  }
  return out;
}
}
