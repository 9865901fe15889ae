// C18 Mesh neighbor tables list exactly the adjacent elements
#include "ref/iter.hh"
#ifdef P4_TO_P8
#include <p8est_mesh.h>
#include <p8est_search.h>
#include <p8est_extended.h>
#else
#include <p4est_mesh.h>
#include <p4est_search.h>
#include <p4est_extended.h>
#endif
using namespace br;
#ifndef P4_TO_P8
#define MESH_EDGES 0
#else
#define MESH_EDGES 12
#endif
static const int HALF = NC / 2;
static const int NO = D == 2 ? 2 : 4;           // face orientations
static const int FD = NO * NF;                  // codes of one size

// ---------------------------------------------------------------- reference
struct Nb { int kind = 0; std::vector<int> q; int code = 0; };          // faces; kind 0 none 1 same 2 double 3 half
struct Slot
{
  int kind = -1;                // -1 hanging, -3 nothing, 0 direct, 1 group
  int direct = -1;
  std::vector<std::pair<std::vector<int>, int>> grp;    // leaves (two for half size) and code
  void sort () { std::sort (grp.begin (), grp.end ()); }
};
struct Ref
{
  int lo, hi;
  std::vector<Nb> f;
  std::vector<Slot> e, c, h;    // h: corners with those across coarse edges
};
static Pt center (const Box &b, const int *bits = NULL)
{
  // center of the box or of one of its quarters (bits per axis)
  Pt p;
  p.t = b.t;
  for (int d = 0; d < 3; ++d) p.x[d] = d >= D ? 0 : b.lo[d] == b.hi[d] ? b.lo[d] : bits ? b.lo[d] + (b.hi[d] - b.lo[d]) / 4 * (bits[d] ? 3 : 1) : (b.lo[d] + b.hi[d]) / 2;
  return p;
}
// the part of box b (as bits over its free axes in z-order) that contains a
// representation of p, or -1
static int part_at (const Conn &C, const Pt &p, const Box &b, bool self_ok)
{
  std::vector<Pt> rp;
  C.pt_reps (p, rp);
  for (auto &y : rp) if (y.t == b.t && (self_ok || !(y == p))) {
    bool in = true;
    int k = 0, bit = 0;
    for (int d = 0; d < D; ++d) {
      in = in && y.x[d] >= b.lo[d] && y.x[d] <= b.hi[d];
      if (b.lo[d] < b.hi[d]) { if (2 * y.x[d] > b.lo[d] + b.hi[d]) k |= 1 << bit; ++bit; }
    }
    if (in) return k;
  }
  return -1;
}
// identifiers of the faces and edges at a side of an entity, close to it
static std::vector<Box> germs (const Conn &C, const Entity &e, const Side &s)
{
  std::vector<Box> out;
  int64_t h = 0;
  for (int d = 0; d < D; ++d) h = std::max (h, e.key.hi[d] - e.key.lo[d]);
  int64_t u = std::max<int64_t> (1, h / 4);
  int fixd[3], n = 0;
  for (int d = 0; d < D; ++d) if (s.rep.lo[d] == s.rep.hi[d]) fixd[n++] = d;
  // extend into a proper subset of the directions that are fixed
  for (int m = 1; m < (1 << n) - 1; ++m) {
    Box b = s.rep;
    for (int k = 0; k < n; ++k) if (m >> k & 1) { int d = fixd[k]; if (s.sg[d] > 0) b.hi[d] += u; else b.lo[d] -= u; }
    std::vector<Box> rp;
    C.reps (b, rp);
    Box x = b;
    for (auto &r : rp) if (box_dim (r) == box_dim (b) && r < x) x = r;
    out.push_back (x);
  }
  return out;
}
static bool shares (const std::vector<Box> &a, const std::vector<Box> &b)
{
  for (auto &x : a) for (auto &y : b) if (!(x < y) && !(y < x)) return true;
  return false;
}
// corner number of the leaf at part k of a side at the middle of the side
static int middle_corner (const Side &s, int k)
{
  int c = 0;
  for (int d = 0; d < D; ++d) {
    bool hi = s.rep.lo[d] == s.rep.hi[d] ? s.sg[d] < 0 : k == 0;
    if (hi) c |= 1 << d;
  }
  return c;
}
static Ref reference (const Conn &C, const Cells &L, const Tree &T, const std::vector<int> &g, int me, const std::vector<int> &gh)
{
  Ref R;
  R.lo = g[(size_t) me];
  R.hi = g[(size_t) me + 1];
  int n = R.hi - R.lo;
  R.f.resize ((size_t) n * NF);
  R.e.resize ((size_t) n * 12);
  R.c.resize ((size_t) n * NC);
  std::vector<char> known (L.size (), 0);
  for (int i = R.lo; i < R.hi; ++i) known[(size_t) i] = 1;
  for (int i : gh) known[(size_t) i] = 1;
  auto loc = [&](int q) { return q >= R.lo && q < R.hi; };
  auto ents = entities (C, L, T, known, R.lo, R.hi, false);
  for (auto &e : ents) {
    if (e.dim == D - 1) {
      if (e.sides.size () == 1) {
        auto &s = e.sides[0];
        for (int q : s.q) if (loc (q)) { auto &nb = R.f[(size_t) (q - R.lo) * NF + (size_t) s.num]; nb.kind = 1; nb.q = {q}; nb.code = s.num; }
        continue;
      }
      if (e.sides.size () != 2) fail ("reference: face with %zu sides", e.sides.size ());
      for (int k = 0; k < 2; ++k) {
        auto &a = e.sides[(size_t) k], &b = e.sides[(size_t) (1 - k)];
        // what a sees
        int o = e.codim ? C.ttf[(size_t) (a.t * NF + a.num)] / NF : 0;
        for (int part = 0; part < (int) a.q.size (); ++part) {
          int q = a.q[(size_t) part];
          if (!loc (q)) continue;
          auto &nb = R.f[(size_t) (q - R.lo) * NF + (size_t) a.num];
          if (nb.kind) fail ("reference: face of %s twice", str (L[(size_t) q]).c_str ());
          auto sub = [&](const Side &from, int pt, const Side &to) {
            int bits[3], bit = 0;
            for (int d = 0; d < 3; ++d) bits[d] = d < D && from.rep.lo[d] < from.rep.hi[d] ? pt >> bit++ & 1 : 0;
            return part_at (C, center (from.rep, bits), to.rep, e.codim == 0 || from.t != to.t || from.rep.lo[from.num / 2] == to.rep.lo[to.num / 2]);
          };
          if (!a.hang && !b.hang) { nb.kind = 1; nb.q = {b.q[0]}; nb.code = o * NF + b.num; }
          else if (a.hang) { nb.kind = 2; nb.q = {b.q[0]}; nb.code = FD + sub (a, part, b) * FD + o * NF + b.num; }
          else { nb.kind = 3; nb.code = -FD + o * NF + b.num; for (int h = 0; h < HALF; ++h) nb.q.push_back (b.q[(size_t) sub (a, h, b)]); }
        }
      }
      continue;
    }
    std::vector<std::vector<Box>> gm;
    for (auto &s : e.sides) gm.push_back (germs (C, e, s));
    if (e.dim == 0) {
      for (size_t k = 0; k < e.sides.size (); ++k) {
        auto &a = e.sides[k];
        int q = a.q[0];
        if (!loc (q)) continue;
        Slot &s = R.c[(size_t) (q - R.lo) * NC + (size_t) a.num];
        if (s.kind != -1) fail ("reference: corner of %s twice", str (L[(size_t) q]).c_str ());
        for (size_t m = 0; m < e.sides.size (); ++m) if (m != k && !shares (gm[k], gm[m])) s.grp.push_back ({{e.sides[m].q[0]}, e.sides[m].num});
        if (s.grp.empty ()) s.kind = -3;
        else if (!e.codim) {
          if (s.grp.size () != 1 || s.grp[0].second != (a.num ^ (NC - 1))) fail ("reference: corner inside a tree");
          s.kind = 0;
          s.direct = s.grp[0].first[0];
        }
        else s.kind = 1;
        s.sort ();
      }
      continue;
    }
  }
  R.h = R.c;
#ifdef P4_TO_P8
  for (auto &e : ents) if (e.dim == 1) {
    std::vector<std::vector<Box>> gm;
    for (auto &s : e.sides) gm.push_back (germs (C, e, s));
    // direction of the sides
    int64_t h = 0;
    for (int d = 0; d < D; ++d) h = std::max (h, e.key.hi[d] - e.key.lo[d]);
    Pt q;
    q.t = e.key.t;
    for (int d = 0; d < D; ++d) q.x[d] = e.key.lo[d] + (e.key.hi[d] > e.key.lo[d] ? h / 4 : 0);
    std::vector<Pt> pr;
    C.pt_reps (q, pr);
    std::vector<int> dir;
    for (auto &s : e.sides) {
      int o = 0;
      for (auto &y : pr) if (y.t == s.t) {
        bool on = true;
        int ax = -1;
        for (int d = 0; d < D; ++d) { if (s.rep.lo[d] == s.rep.hi[d]) on = on && y.x[d] == s.rep.lo[d]; else ax = d; }
        if (on && y.x[ax] == s.rep.lo[ax] + h / 4) o = 0;
        else if (on && y.x[ax] == s.rep.hi[ax] - h / 4) o = 1;
      }
      dir.push_back (o);
    }
    for (size_t k = 0; k < e.sides.size (); ++k) {
      auto &a = e.sides[k];
      for (int part = 0; part < (int) a.q.size (); ++part) {
        int i = a.q[(size_t) part];
        if (!loc (i)) continue;
        Slot &s = R.e[(size_t) (i - R.lo) * 12 + (size_t) a.num];
        if (s.kind != -1) fail ("reference: edge of %s twice", str (L[(size_t) i]).c_str ());
        std::vector<std::pair<std::vector<int>, int>> across;
        for (size_t m = 0; m < e.sides.size (); ++m) if (m != k && !shares (gm[k], gm[m])) {
          auto &b = e.sides[m];
          int o = dir[k] ^ dir[m], base = 12 * o + b.num;
          if (!a.hang && !b.hang) s.grp.push_back ({{b.q[0]}, base});
          else if (a.hang && b.hang) {
            s.grp.push_back ({{b.q[(size_t) (part ^ o)]}, base});
            across.push_back ({{b.q[(size_t) (part ^ 1 ^ o)]}, middle_corner (b, part ^ 1 ^ o)});
          }
          else if (a.hang) s.grp.push_back ({{b.q[0]}, 24 + 24 * (part ^ o) + base});
          else s.grp.push_back ({{b.q[(size_t) o], b.q[(size_t) (1 ^ o)]}, -24 + base});
        }
        if (s.grp.empty ()) s.kind = -3;
        else if (!e.codim && s.grp.size () == 1 && s.grp[0].second >= 0 && s.grp[0].second < 24) { s.kind = 0; s.direct = s.grp[0].first[0]; }
        else s.kind = 1;
        s.sort ();
        if (!across.empty ()) {
          Slot &c = R.h[(size_t) (i - R.lo) * NC + (size_t) middle_corner (a, part)];
          if (c.kind != -1) fail ("reference: edge hanging corner of %s twice", str (L[(size_t) i]).c_str ());
          if (!e.codim) { c.kind = 0; c.direct = across[0].first[0]; if (across.size () != 1 || across[0].second != (middle_corner (a, part) ^ 7)) fail ("reference: hanging corner"); }
          else { c.kind = 1; c.grp = across; c.sort (); }
        }
      }
    }
  }
#endif
  return R;
}

// ------------------------------------------------------------------- checks
struct View
{
  p4est_t *p; p4est_ghost_t *g; p4est_mesh_t *m;
  const Cells &L;
  const Ref &R;
  const std::vector<int> &gh;
  int lq, ng;
  // global number of a leaf given by its number in the mesh
  int leaf (int x) const
  {
    if (x < 0 || x >= lq + ng) fail ("mesh: leaf number %d out of range (%d local, %d ghosts)", x, lq, ng);
    return x < lq ? R.lo + x : gh[(size_t) (x - lq)];
  }
};
static std::string text (const Cells &L, const std::vector<int> &q, int code)
{
  std::string s;
  for (int i : q) s += (s.empty () ? "" : "+") + str (L[(size_t) i]);
  return s + strf (":%d", code);
}
static std::string text (const Cells &L, const Slot &s)
{
  if (s.kind < 0) return strf ("%d", s.kind);
  if (!s.kind) return "direct " + str (L[(size_t) s.direct]);
  std::string t = "group";
  for (auto &x : s.grp) t += " " + text (L, x.first, x.second);
  return t;
}
static p4est_locidx_t at (sc_array_t *a, size_t i, const char *w)
{
  if (!a || i >= a->elem_count) fail ("mesh: %s has no entry %zu", w, i);
  if (a->elem_size == 1) return *(int8_t *) sc_array_index (a, i);
  return *(p4est_locidx_t *) sc_array_index (a, i);
}
static Slot decode (const View &v, p4est_locidx_t x, bool edge, sc_array_t *off, sc_array_t *quad, sc_array_t *code, p4est_locidx_t num, std::vector<char> &used)
{
  Slot s;
  if (x < 0) { s.kind = (int) x; return s; }
  if (x < v.lq + v.ng) { s.kind = 0; s.direct = v.leaf (x); return s; }
  s.kind = 1;
  x -= v.lq + v.ng;
  if (x >= num) fail ("mesh: group %d of %d", (int) x, (int) num);
  if (used[(size_t) x]++) fail ("mesh: group %d is used twice", (int) x);
  for (p4est_locidx_t i = at (off, (size_t) x, "offset"); i < at (off, (size_t) x + 1, "offset"); ++i) {
    int c = at (code, (size_t) i, "code");
    std::vector<int> q {v.leaf (at (quad, (size_t) i, "quad"))};
    if (edge && c < 0) {
      ++i;
      if (i >= at (off, (size_t) x + 1, "offset") || at (code, (size_t) i, "code") != c) fail ("mesh: half size edge neighbors are not consecutive");
      q.push_back (v.leaf (at (quad, (size_t) i, "quad")));
    }
    s.grp.push_back ({q, c});
  }
  s.sort ();
  return s;
}
static void check_tables (const View &v, bool tree, bool lev, int bdim, bool edgehang)
{
  p4est_mesh_t *m = v.m;
  const Cells &L = v.L;
  const Ref &R = v.R;
  if (m->local_num_quadrants != v.lq || m->ghost_num_quadrants != v.ng) fail ("mesh: counts");
  if ((m->quad_to_tree != NULL) != tree || (m->quad_level != NULL) != lev) fail ("mesh: optional lists");
  if (!m->params.compute_tree_index != !tree || !m->params.compute_level_lists != !lev) fail ("mesh: stored parameters");
  if (tree) for (int i = 0; i < v.lq; ++i) if (m->quad_to_tree[i] != L[(size_t) (R.lo + i)].t) fail ("mesh: quad_to_tree[%d] is %d", i, (int) m->quad_to_tree[i]);
  if (lev) for (int l = 0; l <= QMAX; ++l) {
    std::vector<int> a, b;
    for (int i = 0; i < v.lq; ++i) if (L[(size_t) (R.lo + i)].l == l) a.push_back (i);
    for (size_t i = 0; i < m->quad_level[l].elem_count; ++i) b.push_back (at (m->quad_level + l, i, "quad_level"));
    std::sort (b.begin (), b.end ());
    if (a != b) fail ("mesh: leaves of level %d are {%s}, expected {%s}", l, str (b).c_str (), str (a).c_str ());
  }
  for (int i = 0; i < v.ng; ++i) {
    int r = 0;
    while (v.gh[(size_t) i] >= v.p->global_first_quadrant[r + 1]) ++r;
    if (m->ghost_to_proc[i] != r) fail ("mesh: ghost %d is owned by %d, expected %d", i, m->ghost_to_proc[i], r);
  }
  // faces
  std::vector<char> used (m->quad_to_half->elem_count, 0);
  for (int i = 0; i < v.lq; ++i) for (int f = 0; f < NF; ++f) {
    const Nb &nb = R.f[(size_t) (i * NF + f)];
    int code = m->quad_to_face[i * NF + f];
    p4est_locidx_t x = m->quad_to_quad[i * NF + f];
    std::vector<int> q;
    if (code >= 0) q = {v.leaf (x)};
    else {
      if (x < 0 || (size_t) x >= used.size () || used[(size_t) x]++) fail ("mesh: index %d into quad_to_half", (int) x);
      for (int h = 0; h < HALF; ++h) q.push_back (v.leaf (((p4est_locidx_t *) sc_array_index (m->quad_to_half, (size_t) x))[h]));
    }
    if (!nb.kind) fail ("reference: no face neighbor of %s face %d", str (L[(size_t) (R.lo + i)]).c_str (), f);
    if (code != nb.code || q != nb.q) fail ("mesh: face %d of %s has %s, expected %s", f, str (L[(size_t) (R.lo + i)]).c_str (), text (L, q, code).c_str (), text (L, nb.q, nb.code).c_str ());
  }
  for (char c : used) if (!c) fail ("mesh: entry of quad_to_half is not used");
#ifdef P4_TO_P8
  bool edges = bdim <= 1;
  if ((m->quad_to_edge != NULL) != edges) fail ("mesh: edge tables");
  if (edges) {
    std::vector<char> ug ((size_t) m->local_num_edges, 0);
    if (m->edge_offset->elem_count != (size_t) m->local_num_edges + 1 || at (m->edge_offset, 0, "edge_offset") != 0 || (size_t) at (m->edge_offset, (size_t) m->local_num_edges, "edge_offset") != m->edge_quad->elem_count || m->edge_edge->elem_count != m->edge_quad->elem_count) fail ("mesh: size of edge groups");
    for (int i = 0; i < v.lq; ++i) for (int e = 0; e < 12; ++e) {
      Slot s = decode (v, m->quad_to_edge[i * 12 + e], true, m->edge_offset, m->edge_quad, m->edge_edge, m->local_num_edges, ug);
      const Slot &w = R.e[(size_t) (i * 12 + e)];
      if (s.kind != w.kind || (s.kind == 0 && s.direct != w.direct) || (s.kind == 1 && s.grp != w.grp)) fail ("mesh: edge %d of %s has %s, expected %s", e, str (L[(size_t) (R.lo + i)]).c_str (), text (L, s).c_str (), text (L, w).c_str ());
    }
    for (char c : ug) if (!c) fail ("mesh: group of edge neighbors is not used");
  }
  if (!m->params.edgehanging_corners != !edgehang) fail ("mesh: stored parameters");
#endif
  bool corners = bdim <= 0;
  if ((m->quad_to_corner != NULL) != corners) fail ("mesh: corner tables");
  if (corners) {
    std::vector<char> ug ((size_t) m->local_num_corners, 0);
    if (m->corner_offset->elem_count != (size_t) m->local_num_corners + 1 || at (m->corner_offset, 0, "corner_offset") != 0 || (size_t) at (m->corner_offset, (size_t) m->local_num_corners, "corner_offset") != m->corner_quad->elem_count || m->corner_corner->elem_count != m->corner_quad->elem_count) fail ("mesh: size of corner groups");
    for (int i = 0; i < v.lq; ++i) for (int c = 0; c < NC; ++c) {
      Slot s = decode (v, m->quad_to_corner[i * NC + c], false, m->corner_offset, m->corner_quad, m->corner_corner, m->local_num_corners, ug);
      const Slot &w = (edgehang ? R.h : R.c)[(size_t) (i * NC + c)];
      if (s.kind != w.kind || (s.kind == 0 && s.direct != w.direct) || (s.kind == 1 && s.grp != w.grp)) fail ("mesh: corner %d of %s has %s, expected %s", c, str (L[(size_t) (R.lo + i)]).c_str (), text (L, s).c_str (), text (L, w).c_str ());
    }
    for (char c : ug) if (!c) fail ("mesh: group of corner neighbors is not used");
  }
  if (p4est_mesh_memory_used (m) < sizeof (*m) + (size_t) v.lq * NF * 5 + (size_t) v.ng * sizeof (int)) fail ("mesh: memory_used");
}
// lookup functions
static p4est_quadrant_t *quad_ptr (const View &v, int leaf)
{
  if (leaf >= v.R.lo && leaf < v.R.hi) {
    p4est_tree_t *tr = p4est_tree_array_index (v.p->trees, v.L[(size_t) leaf].t);
    return p4est_quadrant_array_index (&tr->quadrants, (size_t) (leaf - v.R.lo - tr->quadrants_offset));
  }
  size_t k = (size_t) (std::lower_bound (v.gh.begin (), v.gh.end (), leaf) - v.gh.begin ());
  return p4est_quadrant_array_index (&v.g->ghosts, k);
}
static void check_lookup (const View &v, int bdim, bool edgehang, int salt)
{
  const Cells &L = v.L;
  const Ref &R = v.R;
  int me = v.p->mpirank;
  bool tree = v.m->quad_to_tree != NULL;
  std::vector<unsigned char> gdata ((size_t) v.ng * v.p->data_size + 1);
  for (int i = 0; i < v.lq; ++i) {
    const Cell &c = L[(size_t) (R.lo + i)];
    p4est_tree_t *tr = p4est_tree_array_index (v.p->trees, c.t);
    p4est_locidx_t in = i - tr->quadrants_offset;
    p4est_quadrant_t *q = quad_ptr (v, R.lo + i);
    if (tree && p4est_mesh_get_quadrant (v.p, v.m, i) != q) fail ("mesh: get_quadrant %d", i);
    for (int guess = -2; guess < v.p->connectivity->num_trees && guess < 4; ++guess) for (int wi = 0; wi < 2; ++wi) {
      p4est_topidx_t t = guess;
      p4est_locidx_t id = -7;
      // guesses must be trees with local leaves (as the search they stand for)
      if (guess >= 0 && (guess < v.p->first_local_tree || guess > v.p->last_local_tree)) continue;
      p4est_quadrant_t *x = p4est_mesh_quadrant_cumulative (v.p, v.m, i, guess == -2 ? NULL : &t, wi ? &id : NULL);
      if (x != q || (guess > -2 && t != c.t) || (wi && id != in)) fail ("mesh: quadrant_cumulative %d with guess %d", i, guess);
    }
    // iterator
    for (int how = 0; how < 2; ++how) {
      p4est_mesh_face_neighbor_t mfn;
      if (how) p4est_mesh_face_neighbor_init2 (&mfn, v.p, v.g, v.m, c.t, in);
      else p4est_mesh_face_neighbor_init (&mfn, v.p, v.g, v.m, c.t, q);
      for (int f = 0; f < NF; ++f) for (int j : R.f[(size_t) (i * NF + f)].q) {
        p4est_topidx_t nt = -9;
        p4est_locidx_t nq = -9;
        int nf = -99, nr = -9;
        bool ask = (how + salt) % 2;
        p4est_quadrant_t *x = p4est_mesh_face_neighbor_next (&mfn, ask ? &nt : NULL, ask ? &nq : NULL, ask ? &nf : NULL, ask ? &nr : NULL);
        if (x != quad_ptr (v, j)) fail ("mesh: face_neighbor_next at face %d of %s is not %s", f, str (c).c_str (), str (L[(size_t) j]).c_str ());
        bool l = j >= R.lo && j < R.hi;
        if (ask) {
          int r = 0, id;
          while (j >= v.p->global_first_quadrant[r + 1]) ++r;
          if (l) id = j - R.lo - p4est_tree_array_index (v.p->trees, L[(size_t) j].t)->quadrants_offset;
          else id = (int) (std::lower_bound (v.gh.begin (), v.gh.end (), j) - v.gh.begin ());
          if (nt != L[(size_t) j].t || nq != id || nr != r || nf != R.f[(size_t) (i * NF + f)].code) fail ("mesh: face_neighbor_next at face %d of %s gives tree %d number %d rank %d code %d, expected %d %d %d %d", f, str (c).c_str (), (int) nt, (int) nq, nr, nf, L[(size_t) j].t, id, r, R.f[(size_t) (i * NF + f)].code);
        }
        void *d = p4est_mesh_face_neighbor_data (&mfn, gdata.data ());
        void *want = l ? x->p.user_data : (void *) (gdata.data () + v.p->data_size * (size_t) (x - (p4est_quadrant_t *) v.g->ghosts.array));
        if (d != want) fail ("mesh: face_neighbor_data");
      }
      for (int k = 0; k < 2; ++k) if (p4est_mesh_face_neighbor_next (&mfn, NULL, NULL, NULL, NULL)) fail ("mesh: face_neighbor_next does not end");
    }
    (void) me;
    // neighbors by direction
    if (!tree) continue;
    int nd = NF + (bdim <= D - 2 ? MESH_EDGES ? 12 : NC : 0) + (MESH_EDGES && bdim <= 0 ? NC : 0);
    for (int d = 0; d < nd; ++d) {
      std::vector<std::pair<int, int>> want;    // leaf, encoding
      auto code = [](int c, int n, int m) { return c >= 0 ? c + 1 : c + n + m + 1; };
      if (d < NF) {
        const Nb &nb = R.f[(size_t) (i * NF + d)];
        if (!(nb.kind == 1 && nb.q[0] == R.lo + i && nb.code == d)) for (int j : nb.q) want.push_back ({j, code (nb.code, FD, FD + HALF * FD)});
      }
      else {
        bool edge = MESH_EDGES && d < NF + 12;
        const Slot &s = edge ? R.e[(size_t) (i * 12 + d - NF)] : (edgehang ? R.h : R.c)[(size_t) (i * NC + d - NF - MESH_EDGES)];
        if (s.kind == 0) want.push_back ({s.direct, edge ? ((d - NF) ^ 3) + 1 : ((d - NF - MESH_EDGES) ^ (NC - 1)) + 1});
        if (s.kind == 1) for (auto &x : s.grp) for (int j : x.first) want.push_back ({j, code (x.second, 24, 72)});
      }
      int mode = (i + d + salt) % 3;
      sc_array_t *qa = sc_array_new (sizeof (p4est_quadrant_t *)), *ea = sc_array_new (sizeof (int)), *ia = sc_array_new (sizeof (int));
      p4est_mesh_get_neighbors (v.p, v.g, v.m, i, d, mode == 1 ? NULL : qa, ea, mode == 2 ? NULL : ia);
      auto bad = [&](const char *w) { fail ("mesh: get_neighbors of %s direction %d: %s", str (c).c_str (), d, w); };
      if (ea->elem_count != want.size () || (mode != 1 && qa->elem_count != want.size ()) || (mode != 2 && ia->elem_count != want.size ())) bad ("number of neighbors");
      std::vector<std::pair<int, int>> got;
      for (size_t k = 0; k < want.size (); ++k) {
        int e = *(int *) sc_array_index (ea, k), x = mode != 2 ? *(int *) sc_array_index (ia, k) : -1, j = -1;
        if (!e) bad ("encoding 0");
        if (mode != 2) j = e > 0 ? v.leaf (x) : v.leaf (x + v.lq);
        if (mode != 1) {
          p4est_quadrant_t *y = *(p4est_quadrant_t **) sc_array_index (qa, k);
          if (j >= 0 && y != quad_ptr (v, j)) bad ("quadrant");
          if (j < 0) for (auto &w : want) if (quad_ptr (v, w.first) == y) j = w.first;
        }
        if (e > 0 && j >= 0 && !(j >= R.lo && j < R.hi)) bad ("ghost with positive encoding");
        got.push_back ({j, e < 0 ? -e : e});
        if (j >= 0 && (e > 0) != (j >= R.lo && j < R.hi)) bad ("sign of encoding");
      }
      if (d >= NF) { std::sort (got.begin (), got.end ()); std::sort (want.begin (), want.end ()); }
      if (got != want) {
        std::string a, b;
        for (auto &x : got) a += strf (" %d:%d", x.first, x.second);
        for (auto &x : want) b += strf (" %d:%d", x.first, x.second);
        fail ("mesh: get_neighbors of %s direction %d:%s, expected%s", str (c).c_str (), d, a.c_str (), b.c_str ());
      }
      sc_array_destroy (qa);
      sc_array_destroy (ea);
      sc_array_destroy (ia);
    }
  }
}
static void body (HostConn &hc, const Cells &L, const Tree &T, const std::vector<int> &g, const GhostSets &S, int gt, int mt, int salt)
{
  rank_begin ();
  int me = vp::me ();
  long live = vp::live_blocks (me);
  auto bts = btypes ();
  p4est_t *p = make_p4est (&hc.c, L, g, 3, NULL);
  p4est_ghost_t *gl = p4est_ghost_new (p, bts[(size_t) gt].first);
  const auto &gh = S[(size_t) me];
  if (gl->ghosts.elem_count != gh.size ()) fail ("number of ghosts");
  Ref R = reference (*hc.m, L, T, g, me, gh);
  int bdim = bts[(size_t) mt].second;
  for (int k = 0; k < 2; ++k) {
    int how = (salt + k * 3) % 5;
    bool tree = how == 1 || how == 3 || (how == 4 && k), lev = how == 2 || how == 3, eh = false;
    p4est_mesh_t *m;
    int b = bdim;
    p4est_connect_type_t bt = bts[(size_t) mt].first;
    if (how == 0) m = p4est_mesh_new (p, gl, bt);
    else if (how < 4) m = p4est_mesh_new_ext (p, gl, tree, lev, bt);
    else {
      p4est_mesh_params_t par;
      p4est_mesh_params_init (&par);
      if (par.compute_tree_index || par.compute_level_lists || par.btype != btypes ()[0].first) fail ("mesh: default parameters");
      par.compute_tree_index = tree;
      par.compute_level_lists = lev;
      par.btype = bt;
#ifdef P4_TO_P8
      if (par.edgehanging_corners) fail ("mesh: default parameters");
      eh = true;
      par.edgehanging_corners = 1;
#endif
      if (salt % 11 == 10) { m = p4est_mesh_new_params (p, gl, NULL); b = bts[0].second; tree = lev = eh = false; }
      else m = p4est_mesh_new_params (p, gl, &par);
    }
    View v {p, gl, m, L, R, gh, (int) p->local_num_quadrants, (int) gh.size ()};
    if (m->params.btype != (b == bdim ? bt : bts[0].first)) fail ("mesh: stored connection type");
    check_tables (v, tree, lev, b, eh);
    check_lookup (v, b, eh, salt + k);
    p4est_mesh_destroy (m);
  }
  check_p4est (p, L, g, 1, "after mesh");
  p4est_ghost_destroy (gl);
  p4est_destroy (p);
  if (vp::live_blocks (me) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (me) - live);
  rank_end ();
}

void enumerate ()
{
  bool th = E.thorough;
  auto bts = btypes ();
  int nt = (int) bts.size ();
  for (int bi = nt - 1; bi >= 0; --bi) {
    bool full = bi == nt - 1;
    SpaceOpt o;
    o.bal = bts[(size_t) bi].second;
    if (!full) o.glue *= 3;
    o.shapes = D == 2 && full;
    o.cap = D == 2 ? (full ? 120 : 50) : (full ? 40 : 12);
    o.twocap = D == 2 ? 20 : full ? 12 : 4;
    o.K1 = D == 2 ? 4 : 3;
    if (D == 3) o.Lmax = 3;
    if (D == 3 && !full) { o.chains = false; o.Kn = 1; }
    if (th) { o.K1++; o.K4++; o.cap *= 8; o.twoK++; o.twocap *= 8; }
    spaces (o, [&](HostConn &hc, const Cells &L) {
      if (L.size () > 700) return;
      Adj A = adjacency ({hc.m, L});
      Tree T = make_tree (hc.m->nt, L);
      T.leaves ();
      int rot = (int) L.size () + 3 * bi;
      parts (L, 1, 3, th ? 100 : L.size () > 60 ? 4 : 12, [&](int P, const std::vector<int> &g) {
        int k = ++rot;
        if (!E.sub ()) return;
        int mt = full && k % 4 ? bi : k % (bi + 1);
        int gt = std::max (mt, k % 3 ? nt - 1 : mt);
        GhostSets S = ghost_sets (A, g, bts[(size_t) gt].second);
        E.describe ([=, &hc, &L] { return strf ("%s mesh type %d ghost type %d options %d cuts %s leaves {%s}", hc.m->name.c_str (), mt, gt, k % 55, str (g).c_str (), str (L).c_str ()); });
        E.transition (2);
        E.validated ();
        vp::Options op;
        op.leak_mpi = true;
        op.guard = k % 10 == 9;
        E.run (P, op, [&](int) { body (hc, L, T, g, S, gt, mt, k % 55); });
      });
    });
  }
}
