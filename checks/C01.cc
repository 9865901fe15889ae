// C01 Quadrant arithmetic agrees with the geometry of the cells at every level
#include "ref/bridge.hh"
using namespace br;
typedef unsigned __int128 Id;

// ---- the reference: boxes and interleaved coordinates
static const int MAXL = 30;
static Id key (const Cell &c)
{
  Id k = 0;
  for (int b = 0; b < 32; ++b) for (int d = 0; d < D; ++d) if ((uint32_t) c.x[d] >> b & 1) k |= (Id) 1 << (D * b + d);
  return k;
}
static Cell unkey (Id k, int l)
{
  Cell c;
  c.l = l;
  for (int d = 0; d < D; ++d) { uint32_t v = 0; for (int b = 0; b < 32; ++b) if (k >> (D * b + d) & 1) v |= 1u << b; c.x[d] = (int32_t) v; }
  return c;
}
static Id vol (int l) { return (Id) 1 << (D * (MAXL - l)); }
static int keycmp (const Cell &a, const Cell &b) { Id x = key (a), y = key (b); return x < y ? -1 : x > y; }
static int ordcmp (const Cell &a, const Cell &b) { int k = keycmp (a, b); return k ? k : a.l < b.l ? -1 : a.l > b.l; }
static bool inside (const Cell &c) { for (int d = 0; d < D; ++d) if (c.x[d] < 0 || c.x[d] >= R) return false; return true; }
static bool same_root (const Cell &a, const Cell &b) { for (int d = 0; d < D; ++d) if ((a.x[d] >> 30) != (b.x[d] >> 30)) return false; return true; }
static int sgn (long v) { return v < 0 ? -1 : v > 0; }

// a quadrant structure with recognizable remaining bits
static p4est_quadrant_t mk (const Cell &c, int fill = 0x5a)
{
  p4est_quadrant_t q, z = to_quad (c);
  memset (&q, fill, sizeof q);
  q.x = z.x; q.y = z.y;
#ifdef P4_TO_P8
  q.z = z.z;
#endif
  q.level = z.level;
  return q;
}
static bool rest_kept (const p4est_quadrant_t &q, int fill = 0x5a)
{
  unsigned char b[sizeof q.p];
  memset (b, fill, sizeof b);
  return !memcmp (b, &q.p, sizeof b);
}
static Cell cur, cur2;
static long ncalls;
#define BAD(fn, ...) fail ("%s for %s / %s: %s", fn, str (cur).c_str (), str (cur2).c_str (), strf (__VA_ARGS__).c_str ())
static void expect_q (const char *fn, const p4est_quadrant_t &q, const Cell &w)
{
  ++ncalls;
  if (!same (q, w)) BAD (fn, "gives %s, expected %s", str (to_cell (q, w.t)).c_str (), str (w).c_str ());
  if (!rest_kept (q)) BAD (fn, "changes other members of the quadrant");
}
static void expect_i (const char *fn, long got, long want) { ++ncalls; if (got != want) BAD (fn, "gives %ld, expected %ld", got, want); }
static void expect_b (const char *fn, int got, bool want) { ++ncalls; if ((got != 0) != want) BAD (fn, "gives %d, expected %d", got, (int) want); }
static void expect_x (const char *fn, const p4est_qcoord_t *x, const int64_t *w) { ++ncalls; for (int d = 0; d < D; ++d) if (x[d] != w[d]) BAD (fn, "coordinate %d is %lld, expected %lld", d, (long long) x[d], (long long) w[d]); }
static Id lid (const p4est_lid_t &l)
{
#ifdef P4_TO_P8
  return (Id) l.high_bits << 64 | l.low_bits;
#else
  return l;
#endif
}
static p4est_lid_t mklid (Id v)
{
  p4est_lid_t l;
#ifdef P4_TO_P8
  l.high_bits = (uint64_t) (v >> 64); l.low_bits = (uint64_t) v;
#else
  l = (uint64_t) v;
#endif
  return l;
}
// kinds of position of a quadrant by its raw numbers
static void classify (const p4est_quadrant_t &q)
{
  int64_t x[3] = {q.x, q.y, 0};
#ifdef P4_TO_P8
  x[2] = q.z;
#endif
  p4est_qcoord_t xc[3];
  bool in = true, in3 = true, closed = true, lev = q.level >= 0 && q.level <= QMAX, levp = q.level >= 0 && q.level <= MAXL, al = true, alp = true;
  bool node[2] = {q.level == MAXL, q.level == MAXL};
  int out = 0;
  for (int d = 0; d < D; ++d) {
    xc[d] = (p4est_qcoord_t) x[d];
    bool o = x[d] < 0 || x[d] >= R;
    out += o;
    in = in && !o;
    in3 = in3 && x[d] >= -R && x[d] < 2 * R;
    closed = closed && x[d] >= 0 && x[d] <= R;
    if (levp) alp = alp && (x[d] & (len (q.level) - 1)) == 0;
    if (lev) al = al && (x[d] & (len (q.level) - 1)) == 0;
    node[0] = node[0] && x[d] >= 0 && x[d] <= R && x[d] % 2 == 0;
    node[1] = node[1] && x[d] >= 0 && x[d] < R && (x[d] % 2 == 0 || x[d] == R - 1);
  }
  expect_b ("is_inside_root", p4est_quadrant_is_inside_root (&q), in);
  expect_b ("is_inside_3x3", p4est_quadrant_is_inside_3x3 (&q), in3);
  expect_b ("is_outside_face", p4est_quadrant_is_outside_face (&q), out == 1);
  expect_b ("is_outside_corner", p4est_quadrant_is_outside_corner (&q), out == D);
  expect_b ("is_valid", p4est_quadrant_is_valid (&q), lev && al && in);
  expect_b ("is_extended", p4est_quadrant_is_extended (&q), lev && al && in3);
  expect_b ("is_node(0)", p4est_quadrant_is_node (&q, 0), node[0]);
  expect_b ("is_node(1)", p4est_quadrant_is_node (&q, 1), node[1]);
  expect_b ("coordinates_is_inside_root", p4est_coordinates_is_inside_root (xc), closed);
  expect_b ("coordinates_is_valid", p4est_coordinates_is_valid (xc, q.level), levp && alp && closed);
#ifdef P4_TO_P8
  expect_b ("is_outside_edge", p8est_quadrant_is_outside_edge (&q), out == 2);
  if (lev && al && in3) {
    int e = -7, w = -7;
    if (out == 2) for (int k = 0; k < 12; ++k) { int s[3]; edge_fix (k, s); bool ok = true; for (int d = 0; d < 3; ++d) ok = ok && (s[d] < 0 ? x[d] >= 0 && x[d] < R : s[d] ? x[d] >= R : x[d] < 0); if (ok) w = k; }
    // the number of the edge is defined for cells that touch it
    bool tch = true;
    for (int d = 0; d < 3; ++d) tch = tch && (x[d] >= 0 ? x[d] <= R : x[d] == -len (q.level));
    if (out != 2 || tch) {
      expect_b ("is_outside_edge_extra", p8est_quadrant_is_outside_edge_extra (&q, &e), out == 2);
      expect_i ("is_outside_edge_extra edge", e, w);
    }
    expect_b ("is_outside_edge_extra(NULL)", p8est_quadrant_is_outside_edge_extra (&q, NULL), out == 2);
  }
#endif
}

// everything about one cell of the 3x3(x3) neighborhood
static void one (const Cell &c)
{
  cur = cur2 = c;
  p4est_quadrant_t q = mk (c), r;
  const int l = c.l;
  const bool in = inside (c);
  const int64_t h = c.h ();
  Id k = key (c);
  classify (q);
  for (int dl = -2; dl <= 2; ++dl) { p4est_quadrant_t v = q; v.level = (int8_t) std::min (31, std::max (-1, l + dl)); classify (v); }
  for (int lv : {-1, 0, 28, 29, 30, 31}) { p4est_quadrant_t v = q; v.level = (int8_t) lv; classify (v); }
  for (int d = 0; d < D; ++d) for (int64_t s : {(int64_t) -1, (int64_t) 1, (int64_t) 2, h / 2, h, -h, R, -R}) {
    Cell o = c;
    o.x[d] += s;
    if (o.x[d] < -2 * R || o.x[d] >= 2 * R) continue;
    p4est_quadrant_t v = mk (o);
    classify (v);
    v.level = MAXL;
    classify (v);
  }
  // copies and hashes ignore everything else
  memset (&r, 0x5a, sizeof r);
  p4est_quadrant_copy (&q, &r);
  expect_q ("copy", r, c);
  r = mk (c, 0x11);
  expect_b ("is_equal", p4est_quadrant_is_equal (&q, &r), true);
  expect_b ("equal_fn", p4est_quadrant_equal_fn (&q, &r, NULL), true);
  if (p4est_quadrant_hash_fn (&q, NULL) != p4est_quadrant_hash_fn (&r, NULL)) BAD ("hash_fn", "depends on more than the cell");
  p4est_quadrant_pad (&r);
  if (!same (r, c)) BAD ("pad", "changes the cell");
  if (l == 0 && c == root (c.t)) { r = mk (child (c, 1)); p4est_quadrant_root (&r); expect_q ("root", r, c); }
  // up
  for (int a = 0; a < l; ++a) {
    Cell w = ancestor (c, a);
    r = mk (c); p4est_quadrant_ancestor (&q, a, &r); expect_q ("ancestor", r, w);
    r = mk (c); p4est_quadrant_ancestor (&r, a, &r); expect_q ("ancestor in place", r, w);
  }
  for (int a = 0; a <= l; ++a) expect_i ("ancestor_id", p4est_quadrant_ancestor_id (&q, a), a == 0 ? 0 : child_id (ancestor (c, a)));
  expect_i ("child_id", p4est_quadrant_child_id (&q), l == 0 ? 0 : child_id (c));
  if (l > 0) {
    Cell p = parent (c);
    r = mk (root (0)); p4est_quadrant_parent (&q, &r); expect_q ("parent", r, p);
    r = q; p4est_quadrant_parent (&r, &r); expect_q ("parent in place", r, p);
    for (int s = 0; s < NC; ++s) { r = mk (root (0)); p4est_quadrant_sibling (&q, &r, s); expect_q ("sibling", r, child (p, s)); r = q; p4est_quadrant_sibling (&r, &r, s); expect_q ("sibling in place", r, child (p, s)); }
  }
  // down
  if (l < QMAX) {
    p4est_quadrant_t v[NC], *pv[NC], w[NC];
    for (int s = 0; s < NC; ++s) { r = mk (root (0)); p4est_quadrant_child (&q, &r, s); expect_q ("child", r, child (c, s)); v[s] = w[s] = mk (root (0)); pv[s] = &w[NC - 1 - s]; }
    p4est_quadrant_childrenv (&q, v);
    for (int s = 0; s < NC; ++s) expect_q ("childrenv", v[s], child (c, s));
    p4est_quadrant_childrenpv (&q, pv);
    for (int s = 0; s < NC; ++s) expect_q ("childrenpv", *pv[s], child (c, s));
    expect_b ("is_familyv", p4est_quadrant_is_familyv (v), true);
    expect_b ("is_familypv", p4est_quadrant_is_familypv (pv), true);
    expect_b ("is_familyv of the reverse", p4est_quadrant_is_familyv (w), false);
    v[0] = q;
    p4est_quadrant_childrenv (&v[0], v);
    for (int s = 0; s < NC; ++s) expect_q ("childrenv in place", v[s], child (c, s));
#ifdef P4_TO_P8
#define FAM(f) p8est_quadrant_is_family (&f[0], &f[1], &f[2], &f[3], &f[4], &f[5], &f[6], &f[7])
    { p4est_quadrant_t u[8]; for (auto &x : u) x = q; p8est_quadrant_children (&u[0], &u[0], &u[1], &u[2], &u[3], &u[4], &u[5], &u[6], &u[7]); for (int s = 0; s < 8; ++s) expect_q ("children in place", u[s], child (c, s)); }
#else
#define FAM(f) p4est_quadrant_is_family (&f[0], &f[1], &f[2], &f[3])
    { p4est_quadrant_t u[4]; for (auto &x : u) x = q; p4est_quadrant_children (&u[0], &u[0], &u[1], &u[2], &u[3]); for (int s = 0; s < 4; ++s) expect_q ("children in place", u[s], child (c, s)); }
#endif
    expect_b ("is_family", FAM (v), true);
    // spoil one member in every way
    for (int s = 0; s < NC; ++s) {
      p4est_quadrant_t keep = v[s];
      for (int t = 0; t < NC; ++t) if (t != s) { v[s] = v[t]; expect_b ("is_family with a repeated member", FAM (v), false); v[s] = keep; }
      for (int d = 0; d < D; ++d) for (int sg = -1; sg <= 1; sg += 2) {
        Cell o = child (c, s);
        o.x[d] += sg * 2 * o.h ();
        if (o.x[d] < -R || o.x[d] >= 2 * R) continue;
        v[s] = mk (o); expect_b ("is_family with a shifted member", FAM (v), false); v[s] = keep;
      }
      v[s].level--; if (p4est_quadrant_is_extended (&v[s])) expect_b ("is_family with a larger member", FAM (v), false); v[s] = keep;
      if (l + 1 < QMAX) { v[s].level++; expect_b ("is_family with a smaller member", FAM (v), false); v[s] = keep; }
    }
    // same shape, not around a parent's center
    for (int d = 0; d < D; ++d) {
      p4est_quadrant_t u[NC];
      if (c.x[d] + h + h / 2 > 2 * R) continue;
      for (int s = 0; s < NC; ++s) { Cell e = child (c, s); e.x[d] += e.h (); u[s] = mk (e); }
      expect_b ("is_familyv of a shifted family", p4est_quadrant_is_familyv (u), false);
    }
  }
  for (int a = l; a <= QMAX; ++a) {
    r = mk (root (0)); p4est_quadrant_first_descendant (&q, &r, a); expect_q ("first_descendant", r, first_desc (c, a));
    r = mk (root (0)); p4est_quadrant_last_descendant (&q, &r, a); expect_q ("last_descendant", r, last_desc (c, a));
    for (int s = 0; s < NC; ++s) {
      Cell w = c;
      w.l = a;
      for (int d = 0; d < D; ++d) if (s >> d & 1) w.x[d] += h - len (a);
      r = mk (root (0)); p4est_quadrant_corner_descendant (&q, &r, s, a); expect_q ("corner_descendant", r, w);
      r = q; p4est_quadrant_corner_descendant (&r, &r, s, a); if (r.level != a) BAD ("corner_descendant in place", "level");
    }
  }
  // linear positions
  const int OL = P4EST_OLD_MAXLEVEL;
  for (int g = 0; g <= MAXL; ++g) {
    Id w = k >> (D * (MAXL - g));
    p4est_lid_t id;
    p4est_quadrant_linear_id_ext128 (&q, g, &id);
    ++ncalls;
    if (lid (id) != w) BAD ("linear_id_ext128", "level %d: %llx %016llx", g, (unsigned long long) (lid (id) >> 64), (unsigned long long) lid (id));
    if (g <= OL) { ++ncalls; uint64_t v = p4est_quadrant_linear_id (&q, g); if (v != (uint64_t) w) BAD ("linear_id", "level %d: %llx expected %llx", g, (unsigned long long) v, (unsigned long long) w); }
    if (g <= QMAX) {
      Cell e = unkey (w << (D * (MAXL - g)), g);
      r = mk (root (0)); p4est_quadrant_set_morton_ext128 (&r, g, &id); expect_q ("set_morton_ext128", r, e);
      if (g <= P4EST_OLD_QMAXLEVEL) { r = mk (root (0)); p4est_quadrant_set_morton (&r, g, (uint64_t) w); expect_q ("set_morton", r, e); }
    }
  }
  // next and previous cell of the same size
  if (l > 0) {
    Id lo = k - k % vol (0), hi = lo + vol (0);       // the copy of the root that holds c
    if (k + vol (l) < hi) { Cell w = unkey (k + vol (l), l); r = mk (root (0)); p4est_quadrant_successor (&q, &r); expect_q ("successor", r, w); r = q; p4est_quadrant_successor (&r, &r); expect_q ("successor in place", r, w); }
    if (k > lo) { Cell w = unkey (k - vol (l), l); r = mk (root (0)); p4est_quadrant_predecessor (&q, &r); expect_q ("predecessor", r, w); r = q; p4est_quadrant_predecessor (&r, &r); expect_q ("predecessor in place", r, w); }
  }
  // outside contact of the extended cell
  for (int s = 0; s < NC; ++s) {
    bool to = true, ti = true;
    for (int d = 0; d < D; ++d) { int u = s >> d & 1; to = to && (u ? c.x[d] == R : c.x[d] == -h); ti = ti && (u ? c.x[d] + h == R : c.x[d] == 0); }
    expect_b ("touches_corner outside", p4est_quadrant_touches_corner (&q, s, 0), to);
    if (in) expect_b ("touches_corner inside", p4est_quadrant_touches_corner (&q, s, 1), ti);
    for (int io = 0; io < 2; ++io) {
      Cell w = c;
      for (int d = 0; d < D; ++d) { int u = s >> d & 1; w.x[d] = io ? (u ? R - h : 0) : (u ? R : -h); }
      r = q; p4est_quadrant_transform_corner (&r, s, io); expect_q ("transform_corner", r, w);
    }
    p4est_qcoord_t x[3] = {7, 7, 7};
    int64_t w[3] = {s & 1 ? R : 0, s & 2 ? R : 0, s & 4 ? R : 0};
    p4est_coordinates_transform_corner (x, s);
    expect_x ("coordinates_transform_corner", x, w);
  }
#ifdef P4_TO_P8
  for (int e = 0; e < 12; ++e) {
    int s[3];
    edge_fix (e, s);
    int ax = edge_axis (e);
    if (c.x[ax] < 0 || c.x[ax] >= R) continue;
    bool to = true, ti = true;
    for (int d = 0; d < 3; ++d) if (s[d] >= 0) { to = to && (s[d] ? c.x[d] == R : c.x[d] == -h); ti = ti && (s[d] ? c.x[d] + h == R : c.x[d] == 0); }
    expect_b ("touches_edge outside", p8est_quadrant_touches_edge (&q, e, 0), to);
    if (in) expect_b ("touches_edge inside", p8est_quadrant_touches_edge (&q, e, 1), ti);
  }
#endif
  if (!in) return;
  // ---- valid cells: points and neighbors
  p4est_qcoord_t x[3];
  int64_t w[3];
  for (int d = 0; d < D; ++d) w[d] = c.x[d] + h / 2;
  p4est_quadrant_volume_coordinates (&q, x); expect_x ("volume_coordinates", x, w);
  for (int f = 0; f < NF; ++f) {
    for (int d = 0; d < D; ++d) w[d] = c.x[d] + (d == f / 2 ? (f & 1) * h : h / 2);
    p4est_quadrant_face_coordinates (&q, f, x); expect_x ("face_coordinates", x, w);
    Cell n = c;
    n.x[f / 2] += f & 1 ? h : -h;
    r = mk (root (0)); p4est_quadrant_face_neighbor (&q, f, &r); expect_q ("face_neighbor", r, n);
    r = q; p4est_quadrant_face_neighbor (&r, f, &r); expect_q ("face_neighbor in place", r, n);
    p4est_quadrant_t a[P4EST_HALF + 2], u[P4EST_HALF];
    Cells half;
    if (l < QMAX) {
      for (int s = 0; s < NC; ++s) if ((s >> (f / 2) & 1) != (f & 1)) half.push_back (child (n, s));
      for (int m = 0; m < P4EST_HALF; ++m) a[m] = u[m] = mk (root (0));
      p4est_quadrant_half_face_neighbors (&q, f, a, u);
      for (int m = 0; m < P4EST_HALF; ++m) { expect_q ("half_face_neighbors", a[m], half[m]); expect_q ("half_face_neighbors upper right", u[m], last_desc (half[m], QMAX)); }
      for (int m = 0; m < P4EST_HALF; ++m) a[m] = mk (root (0));
      p4est_quadrant_half_face_neighbors (&q, f, a, NULL);
      for (int m = 0; m < P4EST_HALF; ++m) expect_q ("half_face_neighbors", a[m], half[m]);
    }
    for (auto &m : a) m = mk (root (0));
    p4est_quadrant_all_face_neighbors (&q, f, a);
    for (int m = 0; m < P4EST_HALF; ++m) if (l == QMAX) { if (a[m].level != -1) BAD ("all_face_neighbors", "smaller neighbor beyond the deepest level"); } else expect_q ("all_face_neighbors", a[m], half[m]);
    expect_q ("all_face_neighbors same", a[P4EST_HALF], n);
    // the double size neighbor exists if the face is on the boundary of the parent
    bool dbl = l > 0 && (child_id (c) >> (f / 2) & 1) == (f & 1);
    if (dbl) { Cell p = parent (c); p.x[f / 2] += f & 1 ? p.h () : -p.h (); expect_q ("all_face_neighbors double", a[P4EST_HALF + 1], p); }
    else if (a[P4EST_HALF + 1].level != -1) BAD ("all_face_neighbors", "larger neighbor does not exist");
  }
#ifdef P4_TO_P8
  for (int e = 0; e < 12; ++e) {
    int s[3];
    edge_fix (e, s);
    Cell n = c;
    for (int d = 0; d < 3; ++d) { w[d] = c.x[d] + (s[d] < 0 ? h / 2 : s[d] * h); if (s[d] >= 0) n.x[d] += s[d] ? h : -h; }
    p8est_quadrant_edge_coordinates (&q, e, x); expect_x ("edge_coordinates", x, w);
    r = mk (root (0)); p8est_quadrant_edge_neighbor (&q, e, &r); expect_q ("edge_neighbor", r, n);
    r = q; p8est_quadrant_edge_neighbor (&r, e, &r); expect_q ("edge_neighbor in place", r, n);
  }
#endif
  for (int s = 0; s < NC; ++s) {
    Cell n = c, nh = c, pt = c;
    nh.l = l + 1; pt.l = MAXL;
    for (int d = 0; d < D; ++d) { int u = s >> d & 1; n.x[d] += u ? h : -h; nh.x[d] += u ? h : -h / 2; pt.x[d] += u * h; w[d] = pt.x[d]; }
    r = mk (root (0)); p4est_quadrant_corner_neighbor (&q, s, &r); expect_q ("corner_neighbor", r, n);
    r = q; p4est_quadrant_corner_neighbor (&r, s, &r); expect_q ("corner_neighbor in place", r, n);
    if (l < QMAX) { r = mk (root (0)); p4est_quadrant_half_corner_neighbor (&q, s, &r); expect_q ("half_corner_neighbor", r, nh); }
    p4est_quadrant_corner_coordinates (&q, s, x); expect_x ("corner_coordinates", x, w);
    r = mk (root (0)); p4est_quadrant_corner_node (&q, s, &r); expect_q ("corner_node", r, pt);
    p4est_quadrant_t nd = r, cl = mk (root (0)), bk;
    r = q; p4est_quadrant_corner_node (&r, s, &r); expect_q ("corner_node in place", r, pt);
    // nodes: clamping and the cells that hold them
    Cell cp = pt;
    for (int d = 0; d < D; ++d) if (cp.x[d] == R) cp.x[d] = R - 1;
    p4est_node_clamp_inside (&nd, &cl); expect_q ("node_clamp_inside", cl, cp);
    r = nd; p4est_node_clamp_inside (&r, &r); expect_q ("node_clamp_inside in place", r, cp);
    bk = cl; p4est_node_unclamp (&bk); expect_q ("node_unclamp", bk, pt);
    for (int g = 0; g <= QMAX; ++g) { r = mk (root (0)); p4est_node_to_quadrant (&cl, g, &r); expect_q ("node_to_quadrant", r, ancestor (cp, g)); }
    r = cl; p4est_node_to_quadrant (&r, l, &r); expect_q ("node_to_quadrant in place", r, ancestor (cp, l));
    bool t0 = true, t1 = true;
    for (int v = 0; v < NC; ++v) {
      t0 = t1 = true;
      for (int d = 0; d < D; ++d) { int64_t rc = (v >> d & 1) ? R : 0; t0 = t0 && pt.x[d] == rc; t1 = t1 && cp.x[d] == (rc ? R - 1 : 0); }
      expect_b ("touches_corner of a node", p4est_quadrant_touches_corner (&nd, v, 0), t0);
      expect_b ("touches_corner of a clamped node", p4est_quadrant_touches_corner (&cl, v, 1), t1);
      Cell z = pt;
      for (int d = 0; d < D; ++d) z.x[d] = (v >> d & 1) ? R : 0;
      r = nd; p4est_quadrant_transform_corner (&r, v, 0); expect_q ("transform_corner of a node", r, z);
    }
    for (int a = 0; a <= l; ++a) {
      Cell A = ancestor (c, a);
      p4est_quadrant_t qa = mk (A);
      bool cn = true;
      for (int d = 0; d < D; ++d) cn = cn && cp.x[d] >= A.x[d] && cp.x[d] < A.x[d] + A.h ();
      expect_b ("contains_node", p4est_quadrant_contains_node (&qa, &cl), cn);
    }
    int c0 = 0, c1 = 1;
    p4est_quadrant_t n2 = nd, k2 = cl;
    nd.p.which_tree = n2.p.which_tree = 3; cl.p.which_tree = k2.p.which_tree = 3;
    expect_b ("node_equal_piggy_fn", p4est_node_equal_piggy_fn (&nd, &n2, &c0), true);
    expect_b ("node_equal_piggy_fn", p4est_node_equal_piggy_fn (&cl, &k2, &c1), true);
    if (p4est_node_hash_piggy_fn (&nd, &c0) != p4est_node_hash_piggy_fn (&n2, &c0)) BAD ("node_hash_piggy_fn", "differs for equal nodes");
    n2.p.which_tree = 4;
    expect_b ("node_equal_piggy_fn other tree", p4est_node_equal_piggy_fn (&nd, &n2, &c0), false);
    for (int d = 0; d < D; ++d) {
      Cell o = pt;
      o.x[d] += o.x[d] ? -2 : 2;
      n2 = mk (o); n2.p.which_tree = 3;
      expect_b ("node_equal_piggy_fn other place", p4est_node_equal_piggy_fn (&nd, &n2, &c0), false);
    }
  }
  sc_rand_state_t r1 = 1, r2 = 2;
  p4est_quadrant_t qq = mk (c, 0x77);
  p4est_quadrant_srand (&q, &r1);
  p4est_quadrant_srand (&qq, &r2);
  if (r1 != r2) BAD ("srand", "depends on more than the cell");
}

// a pair of cells of the neighborhood
static void two (const Cell &a, const Cell &b)
{
  cur = a; cur2 = b;
  p4est_quadrant_t p = mk (a), q = mk (b, 0x33), r;
  int o = ordcmp (a, b);
  bool eq = o == 0;
  Cell bb = b;
  bb.t = a.t;
  bool ab = contains (a, bb), ba = contains (bb, a), ov = ab || ba;
  expect_b ("is_equal", p4est_quadrant_is_equal (&p, &q), eq);
  expect_b ("equal_fn", p4est_quadrant_equal_fn (&p, &q, NULL), eq);
  expect_b ("overlaps", p4est_quadrant_overlaps (&p, &q), ov);
  expect_i ("compare", sgn (p4est_quadrant_compare (&p, &q)), o);
  expect_i ("disjoint", sgn (p4est_quadrant_disjoint (&p, &q)), ov ? 0 : o);
  p4est_qcoord_t x[3] = {p.x, p.y, 0}, y[3] = {q.x, q.y, 0};
#ifdef P4_TO_P8
  x[2] = p.z; y[2] = q.z;
#endif
  expect_i ("coordinates_compare", sgn (p4est_coordinates_compare (x, y)), keycmp (a, b));
  expect_b ("is_ancestor", p4est_quadrant_is_ancestor (&p, &q), ab && !eq);
  bool par = b.l > 0 && parent (bb) == a, sib = a.l == b.l && a.l > 0 && !eq && parent (a) == parent (bb);
  expect_b ("is_parent", p4est_quadrant_is_parent (&p, &q), par);
  expect_b ("is_parent_D", p4est_quadrant_is_parent_D (&p, &q), par);
  expect_b ("is_sibling", p4est_quadrant_is_sibling (&p, &q), sib);
  expect_b ("is_sibling_D", p4est_quadrant_is_sibling_D (&p, &q), sib);
  bool nx = key (a) + vol (a.l) == key (b);
  expect_b ("is_next", p4est_quadrant_is_next (&p, &q), nx);
  expect_b ("is_next_D", p4est_quadrant_is_next_D (&p, &q), nx);
  for (int ta = 0; ta < 2; ++ta) {
    p.p.which_tree = ta; q.p.which_tree = 1 - ta;
    expect_i ("compare_piggy", sgn (p4est_quadrant_compare_piggy (&p, &q)), ta ? 1 : -1);
    expect_b ("is_equal_piggy", p4est_quadrant_is_equal_piggy (&p, &q), false);
    q.p.which_tree = ta;
    expect_i ("compare_piggy", sgn (p4est_quadrant_compare_piggy (&p, &q)), o);
    expect_b ("is_equal_piggy", p4est_quadrant_is_equal_piggy (&p, &q), eq);
  }
  p = mk (a);
  if (same_root (a, b)) {
    int l = std::min (a.l, b.l);
    while (ancestor (a, l) != ancestor (bb, l)) --l;
    Cell w = ancestor (a, l);
    r = mk (root (0)); p4est_nearest_common_ancestor (&p, &q, &r); expect_q ("nearest_common_ancestor", r, w);
    r = mk (root (0)); p4est_nearest_common_ancestor_D (&p, &q, &r); expect_q ("nearest_common_ancestor_D", r, w);
    r = p; p4est_nearest_common_ancestor (&r, &q, &r); expect_q ("nearest_common_ancestor in place", r, w);
    r = p; p4est_nearest_common_ancestor (&q, &r, &r); expect_q ("nearest_common_ancestor in place", r, w);
    expect_b ("is_ancestor_D", p4est_quadrant_is_ancestor_D (&p, &q), ab && !eq);
  }
  if (ab) {
    // b within a
    Cell w = bb;
    while (w.l > a.l && keycmp (ancestor (bb, w.l - 1), bb) == 0) w = ancestor (bb, w.l - 1);
    r = mk (b); p4est_quadrant_enlarge_first (&p, &r); expect_q ("enlarge_first", r, w);
    w = bb;
    while (w.l > a.l && last_desc (ancestor (bb, w.l - 1), QMAX) == last_desc (bb, QMAX)) w = ancestor (bb, w.l - 1);
    r = mk (b); p4est_quadrant_enlarge_last (&p, &r); expect_q ("enlarge_last", r, w);
    if (!eq && inside (a)) {
      for (int f = 0; f < NF; ++f) { int d = f / 2; bool t = f & 1 ? b.x[d] + b.h () == a.x[d] + a.h () : b.x[d] == a.x[d]; expect_b ("is_ancestor_face", p4est_quadrant_is_ancestor_face (&q, &p, f), t); }
      for (int c = 0; c < NC; ++c) { bool t = true; for (int d = 0; d < D; ++d) t = t && ((c >> d & 1) ? b.x[d] + b.h () == a.x[d] + a.h () : b.x[d] == a.x[d]); expect_b ("is_ancestor_corner", p4est_quadrant_is_ancestor_corner (&q, &p, c), t); }
    }
  }
  if (ordcmp (a, b) <= 0 && same_root (a, b)) {
    int l = std::min (a.l, b.l);
    while (ancestor (a, l) != ancestor (bb, l)) --l;
    for (; l >= 0; --l) {
      Cell A = ancestor (a, l);
      p4est_quadrant_t qa = mk (A);
      bool t = keycmp (A, a) == 0 && last_desc (A, QMAX) == last_desc (bb, QMAX);
      expect_b ("is_first_last", p4est_quadrant_is_first_last (&p, &q, &qa), t);
    }
  }
  // the range of leaves from a to b as part of a tree
  if (inside (a) && inside (b) && ordcmp (a, b) <= 0) {
    p4est_tree_t tr;
    memset (&tr, 0, sizeof tr);
    sc_array_init_size (&tr.quadrants, sizeof (p4est_quadrant_t), 1);
    tr.first_desc = to_quad (first_desc (a, QMAX));
    tr.last_desc = to_quad (last_desc (bb, QMAX));
    Id lo = key (a), hi = key (b) + vol (b.l);
    if (lo < hi && key (a) <= key (last_desc (bb, QMAX))) {
      Cells cand = {a, bb, root (a.t)};
      for (const Cell &c : {a, bb}) { if (c.l > 0) { cand.push_back (parent (c)); for (int s = 0; s < NC; ++s) cand.push_back (child (parent (c), s)); } if (c.l < QMAX) { cand.push_back (child (c, 0)); cand.push_back (child (c, NC - 1)); } if (c.l > 2) cand.push_back (ancestor (c, c.l / 2)); }
      for (auto &c : cand) {
        Id cl = key (c), ch = cl + vol (c.l);
        p4est_quadrant_t qc = mk (c);
        cur2 = b;
        ++ncalls;
        if ((p4est_quadrant_overlaps_tree (&tr, &qc) != 0) != (cl < hi && lo < ch)) BAD ("overlaps_tree", "wrong for %s", str (c).c_str ());
        if ((p4est_quadrant_is_inside_tree (&tr, &qc) != 0) != (lo <= cl && ch <= hi)) BAD ("is_inside_tree", "wrong for %s", str (c).c_str ());
      }
    }
    sc_array_reset (&tr.quadrants);
    sc_array_init (&tr.quadrants, sizeof (p4est_quadrant_t));
    expect_b ("overlaps_tree of an empty tree", p4est_quadrant_overlaps_tree (&tr, &p), false);
    expect_b ("is_inside_tree of an empty tree", p4est_quadrant_is_inside_tree (&tr, &p), false);
  }
}

// ---- orders of local numbers
static void numbers ()
{
  std::vector<p4est_locidx_t> v {INT32_MIN, INT32_MIN + 1, -2, -1, 0, 1, 2, 1 << 30, INT32_MAX - 1, INT32_MAX};
  for (auto a : v) for (auto b : v) {
    p4est_quadrant_t p = mk (root (0)), q = mk (first_desc (root (0), 5), 0x33);
    p.p.piggy3.local_num = a;
    q.p.piggy3.local_num = b;
    cur = root (0); cur2 = root (0);
    expect_i ("compare_local_num", sgn (p4est_quadrant_compare_local_num (&p, &q)), a < b ? -1 : a > b);
  }
}

// ---- integers of the width of the linear index
static void integers (const std::vector<Id> &v, size_t i)
{
  const int W = D == 3 ? 128 : 64;
  const Id M = W == 128 ? ~(Id) 0 : ((Id) 1 << 64) - 1;
  auto chk = [&](const char *fn, const p4est_lid_t &l, Id w, Id a, Id b) {
    ++ncalls;
    if (lid (l) != (w & M)) fail ("%s of %016llx%016llx and %016llx%016llx gives %016llx%016llx", fn, (unsigned long long) (a >> 64), (unsigned long long) a, (unsigned long long) (b >> 64), (unsigned long long) b, (unsigned long long) (lid (l) >> 64), (unsigned long long) lid (l));
  };
  Id a = v[i];
  p4est_lid_t A = mklid (a), r;
  p4est_lid_init (&r, (uint64_t) (a >> 64), (uint64_t) a); chk ("lid_init", r, a, a, 0);
  p4est_lid_set_zero (&r); chk ("lid_set_zero", r, 0, 0, 0);
  p4est_lid_set_one (&r); chk ("lid_set_one", r, 1, 0, 0);
  r = A; p4est_lid_set_uint64 (&r, (uint64_t) a); chk ("lid_set_uint64", r, (uint64_t) a, a, 0);
  r = mklid (5); p4est_lid_copy (&A, &r); chk ("lid_copy", r, a, a, 0);
  p4est_lid_bitwise_neg (&A, &r); chk ("lid_bitwise_neg", r, ~a, a, 0);
  for (int b = 0; b < W; ++b) {
    if ((p4est_lid_chk_bit (&A, b) != 0) != (bool) (a >> b & 1)) fail ("lid_chk_bit %d of %016llx%016llx", b, (unsigned long long) (a >> 64), (unsigned long long) a);
    r = A; p4est_lid_set_bit (&r, b); chk ("lid_set_bit", r, a | (Id) 1 << b, a, b);
    p4est_lid_shift_right (&A, (unsigned) b, &r); chk ("lid_shift_right", r, a >> b, a, b);
    p4est_lid_shift_left (&A, (unsigned) b, &r); chk ("lid_shift_left", r, a << b, a, b);
    r = A; p4est_lid_shift_right (&r, (unsigned) b, &r); chk ("lid_shift_right in place", r, a >> b, a, b);
    r = A; p4est_lid_shift_left (&r, (unsigned) b, &r); chk ("lid_shift_left in place", r, a << b, a, b);
  }
  for (Id b : v) {
    p4est_lid_t B = mklid (b);
    int cm = p4est_lid_compare (&A, &B);
    if (sgn (cm) != (a < b ? -1 : a > b)) fail ("lid_compare of %016llx%016llx and %016llx%016llx gives %d", (unsigned long long) (a >> 64), (unsigned long long) a, (unsigned long long) (b >> 64), (unsigned long long) b, cm);
    if ((p4est_lid_is_equal (&A, &B) != 0) != (a == b)) fail ("lid_is_equal");
    p4est_lid_add (&A, &B, &r); chk ("lid_add", r, a + b, a, b);
    p4est_lid_sub (&A, &B, &r); chk ("lid_sub", r, a - b, a, b);
    p4est_lid_bitwise_or (&A, &B, &r); chk ("lid_bitwise_or", r, a | b, a, b);
    p4est_lid_bitwise_and (&A, &B, &r); chk ("lid_bitwise_and", r, a & b, a, b);
    r = A; p4est_lid_add_inplace (&r, &B); chk ("lid_add_inplace", r, a + b, a, b);
    r = A; p4est_lid_sub_inplace (&r, &B); chk ("lid_sub_inplace", r, a - b, a, b);
    r = A; p4est_lid_bitwise_or_inplace (&r, &B); chk ("lid_bitwise_or_inplace", r, a | b, a, b);
    r = A; p4est_lid_bitwise_and_inplace (&r, &B); chk ("lid_bitwise_and_inplace", r, a & b, a, b);
  }
}

// the cell that a cell forces at a corner of the tree under corner balance
static void shifts (const Conn &unit, const Cells &all, size_t i)
{
  const Cell &c = all[i];
  cur = cur2 = c;
  Tree T (1);
  T.ensure (c);
  balance_tree (unit, T, 0);
  p4est_quadrant_t q = mk (c), r;
  for (int s = 0; s < NC; ++s) {
    Cell w;
    Box b;
    b.t = 0;
    for (int d = 0; d < 3; ++d) b.lo[d] = b.hi[d] = d < D && (s >> d & 1) ? R : 0;
    T.query (b, [&](int k) { w = T.n[k].c; });
    r = mk (root (0)); p4est_quadrant_shift_corner (&q, &r, s);
    ++ncalls;
    if (!same (r, w)) BAD ("shift_corner", "corner %d gives %s, expected %s", s, str (to_cell (r, 0)).c_str (), str (w).c_str ());
  }
#ifdef P4_TO_P8
  for (int e = 0; e < 12; ++e) {
    p4est_quadrant_t v[3] = {mk (root (0)), mk (root (0)), mk (root (0))};
    int st[3];
    edge_fix (e, st);
    p8est_quadrant_shift_edge (&q, &v[0], &v[1], &v[2], e);
    for (int k = 0; k < 3; ++k) {
      bool t = v[k].level <= c.l && p4est_quadrant_is_valid (&v[k]);
      int64_t x[3] = {v[k].x, v[k].y, v[k].z}, hh = len (v[k].level);
      for (int d = 0; d < 3; ++d) if (st[d] >= 0) t = t && x[d] == (st[d] ? R - hh : 0);
      ++ncalls;
      if (!t) BAD ("shift_edge", "edge %d, output %d does not touch", e, k);
    }
    r = mk (root (0));
    p8est_quadrant_shift_edge (&q, &r, NULL, NULL, e);
    expect_q ("shift_edge without the others", r, to_cell (v[0], 0));
  }
#endif
}

static void points (std::vector<int64_t> &v, int l, int rich)
{
  // positions in units of the cell size of level l
  int64_t n = (int64_t) 1 << l;
  std::set<int64_t> s {0, n - 1};
  if (n > 2) { s.insert (1); s.insert (n / 2); s.insert (n / 2 - 1); }
  if (rich > 0 && n > 4) { s.insert (n - 2); s.insert (n / 4); }
  if (rich > 1 && n > 8) { s.insert (2); s.insert (n / 2 + 1); s.insert (n / 4 - 1); s.insert ((int64_t) (0x2aaaaaaa & (n - 1))); s.insert ((int64_t) (0x15555555 & (n - 1))); }
  for (int64_t x : s) v.push_back (x * len (l));
  for (int64_t x : {(int64_t) -1, -n, n, 2 * n - 1}) v.push_back (x * len (l));
  if (rich > 1 && n > 2) { v.push_back (-n / 2 * len (l)); v.push_back (3 * n / 2 * len (l)); }
  std::sort (v.begin (), v.end ());
  v.erase (std::unique (v.begin (), v.end ()), v.end ());
}
static void grid (Cells &out, int l, const std::vector<int64_t> &v)
{
  std::vector<size_t> ix (3, 0);
  for (;;) {
    Cell c;
    c.l = l;
    for (int d = 0; d < D; ++d) c.x[d] = v[ix[d]];
    out.push_back (c);
    int d = 0;
    while (d < D && ++ix[d] == v.size ()) ix[d++] = 0;
    if (d == D) break;
  }
}

static void world (const std::function<void()> &f)
{
  vp::Options op;
  ncalls = 0;
  E.run (1, op, [&](int) { rank_begin (); f (); });
  E.count ("calls", ncalls);
  E.validated ();
}
void enumerate ()
{
  bool th = E.thorough;
  // all cells of small depth in the whole neighborhood, all pairs
  Cells small;
  for (int l = 0; l <= (D == 2 ? (th ? 4 : 3) : (th ? 2 : 1)); ++l) {
    std::vector<int64_t> v;
    for (int64_t x = -(1 << l); x < 2 << l; ++x) v.push_back (x * len (l));
    grid (small, l, v);
  }
  E.stage ("all %zu cells up to level %d in the neighborhood of the root, alone and in all pairs", small.size (), small.back ().l);
  for (size_t i = 0; i < small.size (); ++i) if (E.take ()) {
    E.state ();
    if (!E.sub ()) continue;
    E.describe ([&, i] { return strf ("cell %s with all others", str (small[i]).c_str ()); });
    E.transition ((long) small.size ());
    world ([&] { one (small[i]); for (auto &c : small) two (small[i], c); });
  }
  // positions that matter at all levels
  Cells deep;
  for (int l = 0; l <= QMAX; ++l) {
    int rich = D == 2 ? 2 : th ? 1 : (l % 9 == 2 || l == QMAX) ? 1 : 0;
    if (D == 3 && !th && l > 3 && l % 3 && l < 27 && l != 17 && l != 19) continue;
    std::vector<int64_t> v;
    points (v, l, rich);
    grid (deep, l, v);
  }
  E.stage ("%zu cells of all levels near boundaries, centers and outside", deep.size ());
  size_t step = D == 2 ? 8 : 16;
  for (size_t i = 0; i < deep.size (); i += step) if (E.take ()) {
    E.state ((long) step);
    if (!E.sub ()) continue;
    E.describe ([&, i] { return strf ("cells from %s", str (deep[i]).c_str ()); });
    E.transition ((long) step);
    world ([&] { for (size_t k = i; k < std::min (deep.size (), i + step); ++k) one (deep[k]); });
  }
  // pairs of related cells: everything on the way between two deep cells
  Cells base;
  for (int l : D == 2 ? std::vector<int> {1, 2, 5, 14, 16, 28, 29} : std::vector<int> {1, 2, 16, 19, 29}) {
    std::vector<int64_t> v;
    points (v, l, D == 2 ? 1 : 0);
    if (D == 3 && !th) { std::vector<int64_t> w; for (int64_t x : v) if (x == -R || x == 0 || x == R / 2 || x == R - len (l) || x == R) w.push_back (x); v = w; }
    grid (base, l, v);
  }
  E.stage ("%zu cells of selected levels in all pairs", base.size ());
  for (size_t i = 0; i < base.size (); ++i) if (E.take ()) {
    E.state ();
    if (!E.sub ()) continue;
    E.describe ([&, i] { return strf ("cell %s with all others", str (base[i]).c_str ()); });
    E.transition ((long) base.size ());
    world ([&] { for (auto &c : base) two (base[i], c); });
  }
  E.stage ("each of %zu cells with its ancestors, siblings, neighbors, descendants and those of the cells next to it", deep.size ());
  for (size_t i = 0; i < deep.size (); i += step) if (E.take ()) {
    E.state ((long) step);
    if (!E.sub ()) continue;
    E.describe ([&, i] { return strf ("cells from %s", str (deep[i]).c_str ()); });
    world ([&] {
      for (size_t k = i; k < std::min (deep.size (), i + step); ++k) {
        const Cell c = deep[k];
        std::set<Cell> rel;
        auto add = [&](const Cell &x) { for (int d = 0; d < D; ++d) if (x.x[d] < -R || x.x[d] + x.h () > 2 * R) return; rel.insert (x); };
        Cells seeds {c};
        for (int s : {-1, 1}) { Id n = key (c) + (s > 0 ? vol (c.l) : -vol (c.l)); Cell x = unkey (n, c.l); bool ok = true; for (int d = 0; d < D; ++d) ok = ok && x.x[d] >= -R && x.x[d] < 2 * R; if (ok) seeds.push_back (x); }
        for (int d = 0; d < D; ++d) for (int s : {-1, 1}) { Cell x = c; x.x[d] += s * c.h (); seeds.push_back (x); }
        for (auto &x : seeds) {
          add (x);
          for (int a : {0, c.l / 2, c.l - 2, c.l - 1}) if (a >= 0 && a < c.l) add (ancestor (x, a));
          if (x.l > 0) for (int s = 0; s < NC; ++s) add (child (parent (x), s));
          for (int a : {c.l + 1, c.l + 2, QMAX}) if (a <= QMAX) { add (first_desc (x, a)); add (last_desc (x, a)); }
          if (x.l < QMAX) for (int s = 1; s < NC - 1; ++s) add (child (x, s));
        }
        for (auto &x : rel) { two (c, x); two (x, c); }
        E.transition ((long) rel.size ());
      }
    });
  }
  // wide integers
  std::vector<Id> v;
  std::vector<uint64_t> words {0, 1, 2, 3, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull, 0xffffffffffffffffull, 0x0123456789abcdefull};
  for (auto h : words) { if (D == 2 && h) break; for (auto l : words) v.push_back ((Id) h << 64 | l); }
  for (int b = 0; b < (D == 2 ? 64 : 128); b += 3) { v.push_back ((Id) 1 << b); v.push_back (((Id) 1 << b) - 1); }
  E.stage ("arithmetic on all pairs of %zu integers", v.size ());
  for (size_t i = 0; i < v.size (); ++i) if (E.take ()) {
    E.state ();
    if (!E.sub ()) continue;
    E.describe ([&, i] { return strf ("integer %016llx%016llx with all others", (unsigned long long) (v[i] >> 64), (unsigned long long) v[i]); });
    E.transition ((long) v.size ());
    world ([&] { integers (v, i); if (i == 0) numbers (); });
  }
  // shifts towards corners
  auto unit = named ("unit");
  Cells sh;
  int ls = D == 2 ? (th ? 6 : 5) : 3;
  for (int l = 1; l <= ls; ++l) { std::vector<int64_t> p; for (int64_t x = 0; x < 1 << l; ++x) p.push_back (x * len (l)); grid (sh, l, p); }
  E.stage ("shift of all %zu cells to the corners of the tree", sh.size ());
  for (size_t i = 0; i < sh.size (); ++i) if (E.take ()) {
    E.state ();
    if (!E.sub ()) continue;
    E.describe ([&, i] { return strf ("cell %s", str (sh[i]).c_str ()); });
    E.transition (NC);
    world ([&] { shifts (*unit, sh, i); });
  }
}
