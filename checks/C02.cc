// C02 Built-in coarse meshes are consistent and tree-to-tree transforms are exact
#include "ref/groups.hh"
#ifdef P4_TO_P8
#include <p8est_geometry.h>
#else
#include <p4est_geometry.h>
#endif
#include <cmath>
using namespace br;

struct V3 { double v[3]; };
typedef std::function<V3 (int, const double *)> Embed;
static bool coin (const V3 &a, const V3 &b, const double *period)
{
  for (int d = 0; d < 3; ++d) {
    double e = a.v[d] - b.v[d];
    if (period && period[d] > 0) e -= period[d] * std::round (e / period[d]);
    if (std::fabs (e) > 1e-6) return false;
  }
  return true;
}
// trilinear map from the vertices, written out from the definition
static Embed linear (const p4est_connectivity_t *c)
{
  return [c](int t, const double *x) {
    V3 r {{0, 0, 0}};
    for (int k = 0; k < NC; ++k) {
      double w = 1;
      for (int d = 0; d < D; ++d) w *= (k >> d & 1) ? x[d] : 1 - x[d];
      for (int d = 0; d < 3; ++d) r.v[d] += w * c->vertices[3 * c->tree_to_vertex[NC * t + k] + d];
    }
    return r;
  };
}
// the classes that follow from the faces alone
static void check_closure (const Conn &C)
{
  auto cls = [&](int dim, int t, int e) {
    std::set<Side> s {Side {t, e, 0}};
    std::vector<Side> todo (s.begin (), s.end ());
    while (!todo.empty ()) {
      Side x = todo.back ();
      todo.pop_back ();
      std::set<Side> n;
#ifdef P4_TO_P8
      if (dim == 1) n = edge_by_face (C, x.t, x.e);
      else
#endif
        n = corner_by_face (C, x.t, x.e);
      for (auto y : n) { y.flip ^= x.flip; if (s.insert (y).second) todo.push_back (y); }
    }
    (void) dim;
    return s;
  };
  check_groups (C, [&](int t, int e) { return cls (1, t, e); }, [&](int t, int c) { return cls (0, t, c); });
}
// everything that coincides in space is glued and nothing else
static void check_embedded (const Conn &C, const Embed &X, const double *period)
{
  auto at = [&](const Box &b, const double *u) { double x[3] = {0, 0, 0}; for (int d = 0; d < D; ++d) x[d] = ((double) b.lo[d] + u[d] * (double) (b.hi[d] - b.lo[d])) / (double) R; return X (b.t, x); };
  const double grid[4] = {0, 0.25, 0.75, 1};
  for (int t = 0; t < C.nt; ++t) for (int f = 0; f < NF; ++f) {
    int found = 0, wt = -1, wc = -1;
    for (int t2 = 0; t2 < C.nt; ++t2) for (int nf = 0; nf < NF; ++nf) for (int o = 0; o < NC / 2; ++o) {
      if (t2 == t && nf == f && o == 0) continue;
      Map m = face_map (f, t2, nf, o);
      bool ok = true;
      int a[2] = {0, 0};
      tang (f, a);
      for (int i = 0; i < (D == 2 ? 4 : 16) && ok; ++i) {
        double x[3] = {0, 0, 0}, y[3] = {0, 0, 0};
        x[f / 2] = f & 1;
        x[a[0]] = grid[i % 4];
        if (D == 3) x[a[1]] = grid[i / 4];
        y[nf / 2] = nf & 1;
        for (int k = 0; k < D - 1; ++k) y[m.axis[a[k]]] = m.flip[a[k]] ? 1 - x[a[k]] : x[a[k]];
        ok = coin (X (t, x), X (t2, y), period);
      }
      if (ok) { ++found; wt = t2; wc = o * NF + nf; }
    }
    ++nchecks;
    if (found > 1) fail ("the embedding does not determine the neighbor of face %d of tree %d", f, t);
    if (!found) { wt = t; wc = f; }
    if (C.ttt[t * NF + f] != wt || C.ttf[t * NF + f] != wc) fail ("face %d of tree %d leads to tree %d code %d, but coincides with tree %d code %d", f, t, C.ttt[t * NF + f], C.ttf[t * NF + f], wt, wc);
  }
  auto eclass = [&](int t, int e) {
    std::set<Side> s;
#ifdef P4_TO_P8
    int a = edge_axis (e);
    for (int t2 = 0; t2 < C.nt; ++t2) for (int e2 = 0; e2 < 12; ++e2) for (int fl = 0; fl < 2; ++fl) {
      bool ok = true;
      for (double g : grid) {
        double u[3] = {0, 0, 0}, w[3] = {0, 0, 0};
        u[a] = g;
        w[edge_axis (e2)] = fl ? 1 - g : g;
        ok = ok && coin (at (edge_box (t, e), u), at (edge_box (t2, e2), w), period);
      }
      if (ok) s.insert (Side {t2, e2, fl});
    }
#else
    (void) t; (void) e; (void) at;
#endif
    return s;
  };
  auto cclass = [&](int t, int c) {
    std::set<Side> s;
    double z[3] = {0, 0, 0};
    for (int t2 = 0; t2 < C.nt; ++t2) for (int c2 = 0; c2 < NC; ++c2) if (coin (at (corner_box (t, c), z), at (corner_box (t2, c2), z), period)) s.insert (Side {t2, c2, 0});
    return s;
  };
  check_groups (C, eclass, cclass);
}

// ---- the catalogue
struct Mesh
{
  std::string name;
  int trees;
  std::function<p4est_connectivity_t *()> make;
  std::vector<double> period;                   // of the vertex coordinates
  std::function<p4est_geometry_t *(p4est_connectivity_t *)> geo;
  std::function<void (const Conn &)> extra;
  bool embedded = true;
};
static void boundary_faces (const Conn &C, int want)
{
  int n = 0;
  for (int t = 0; t < C.nt; ++t) for (int f = 0; f < NF; ++f) n += C.boundary (t, f);
  if (n != want) fail ("%d faces on the boundary, expected %d", n, want);
}
static void grid_vertices (const Conn &C, const int *m)
{
  // the trees are the unit cells of the grid, each once
  std::set<std::array<int, 3>> seen;
  for (int t = 0; t < C.nt; ++t) {
    std::array<int, 3> o;
    for (int d = 0; d < 3; ++d) o[d] = (int) C.verts[3 * C.ttv[NC * t] + d];
    for (int k = 0; k < NC; ++k) for (int d = 0; d < 3; ++d) if (C.verts[3 * C.ttv[NC * t + k] + d] != o[d] + (d < D ? k >> d & 1 : 0)) fail ("tree %d is not a unit cell of the grid", t);
    for (int d = 0; d < D; ++d) if (o[d] < 0 || o[d] >= m[d]) fail ("tree %d is outside of the grid", t);
    if (!seen.insert (o).second) fail ("tree %d is there twice", t);
  }
}
static std::vector<Mesh> catalogue (bool th)
{
  std::vector<Mesh> v;
  auto add = [&](const std::string &n, int trees, std::function<p4est_connectivity_t *()> mk) -> Mesh & { v.push_back (Mesh {n, trees, mk, {}, nullptr, nullptr, true}); return v.back (); };
  int N = D == 2 ? (th ? 6 : 4) : (th ? 4 : 3);
#ifdef P4_TO_P8
  auto by = [](const char *n) { return [n] { return p8est_connectivity_new_byname (n); }; };
  for (int i = 0; i < 2; ++i) {
    bool b = i;
    add (b ? "by unit" : "unit", 1, b ? std::function<p4est_connectivity_t *()> (by ("unit")) : [] { return p8est_connectivity_new_unitcube (); }).extra = [](const Conn &C) { boundary_faces (C, 6); int m[3] = {1, 1, 1}; grid_vertices (C, m); };
    add (b ? "by periodic" : "periodic", 1, b ? std::function<p4est_connectivity_t *()> (by ("periodic")) : [] { return p8est_connectivity_new_periodic (); }).period = {1, 1, 1};
    Mesh &r = add (b ? "by rotwrap" : "rotwrap", 1, b ? std::function<p4est_connectivity_t *()> (by ("rotwrap")) : [] { return p8est_connectivity_new_rotwrap (); });
    r.embedded = false;
    r.extra = [](const Conn &C) {
      boundary_faces (C, 2);
      if (C.ttf[0] != 1 || C.ttf[1] != 0 || C.ttf[2] != 2 || C.ttf[3] != 3 || C.ttf[4] % 6 != 5 || C.ttf[5] % 6 != 4 || C.ttf[4] / 6 != C.ttf[5] / 6) fail ("not the documented identifications");
      // bottom and top are rotated, not reflected, so the orientation is 1 or 2
      if (C.ttf[4] / 6 != 1 && C.ttf[4] / 6 != 2) fail ("bottom and top are not rotated");
    };
    add (b ? "by twocubes" : "twocubes", 2, b ? std::function<p4est_connectivity_t *()> (by ("twocubes")) : [] { return p8est_connectivity_new_twocubes (); }).extra = [](const Conn &C) { boundary_faces (C, 10); };
    Mesh &w = add (b ? "by twowrap" : "twowrap", 2, b ? std::function<p4est_connectivity_t *()> (by ("twowrap")) : [] { return p8est_connectivity_new_twowrap (); });
    w.embedded = false;
    w.extra = [](const Conn &C) { boundary_faces (C, 8); for (int t = 0; t < 2; ++t) { int f[2], n = 0; for (int k = 0; k < 6; ++k) if (!C.boundary (t, k)) { if (n < 2) f[n] = k; ++n; if (C.ttt[6 * t + k] != 1 - t) fail ("not the other cube"); } if (n != 2 || f[0] / 2 != f[1] / 2) fail ("tree %d is not connected at two ends", t); } };
    add (b ? "by rotcubes" : "rotcubes", 6, b ? std::function<p4est_connectivity_t *()> (by ("rotcubes")) : [] { return p8est_connectivity_new_rotcubes (); });
    add (b ? "by shell" : "shell", 24, b ? std::function<p4est_connectivity_t *()> (by ("shell")) : [] { return p8est_connectivity_new_shell (); }).geo = [](p4est_connectivity_t *c) { return p8est_geometry_new_shell (c, 1., .55); };
    v.back ().extra = [](const Conn &C) { boundary_faces (C, 48); };
    add (b ? "by sphere" : "sphere", 13, b ? std::function<p4est_connectivity_t *()> (by ("sphere")) : [] { return p8est_connectivity_new_sphere (); }).geo = [](p4est_connectivity_t *c) { return p8est_geometry_new_sphere (c, 1., .6, .3); };
    v.back ().extra = [](const Conn &C) { boundary_faces (C, 6); };
  }
  add ("drop", 5, [] { return p8est_connectivity_new_drop (); });
  add ("pillow", 2, [] { return p8est_connectivity_new_pillow (); }).geo = [](p4est_connectivity_t *c) { return p8est_geometry_new_pillow (c, 1., .55); };
  v.back ().extra = [](const Conn &C) { boundary_faces (C, 4); };
  add ("by brick235", 30, by ("brick235")).extra = [](const Conn &C) { int m[3] = {2, 3, 5}; grid_vertices (C, m); boundary_faces (C, 2 * (6 + 10 + 15)); };
  for (int n = 1; n <= (th ? 9 : 6); ++n) { Mesh &m = add (strf ("torus %d", n), 5 * n, [n] { return p8est_connectivity_new_torus (n); }); m.geo = [](p4est_connectivity_t *c) { return p8est_geometry_new_torus (c, .1, .3, 1.); }; m.extra = [n](const Conn &C) { boundary_faces (C, 4 * n); }; }
  for (int a = 1; a <= N; ++a) for (int b = 1; b <= N; ++b) for (int c = 1; c <= N; ++c) for (int p = 0; p < 8; ++p) {
    Mesh &m = add (strf ("brick %dx%dx%d periodic %d%d%d", a, b, c, p & 1, p >> 1 & 1, p >> 2), a * b * c, [=] { return p8est_connectivity_new_brick (a, b, c, p & 1, p >> 1 & 1, p >> 2); });
    m.period = {p & 1 ? (double) a : 0, p & 2 ? (double) b : 0, p & 4 ? (double) c : 0};
    m.extra = [=](const Conn &C) { int e[3] = {a, b, c}; grid_vertices (C, e); boundary_faces (C, 2 * ((p & 1 ? 0 : b * c) + (p & 2 ? 0 : a * c) + (p & 4 ? 0 : a * b))); };
  }
#else
  auto by = [](const char *n) { return [n] { return p4est_connectivity_new_byname (n); }; };
  for (int i = 0; i < 2; ++i) {
    bool b = i;
    auto sel = [&](const char *n, std::function<p4est_connectivity_t *()> f) -> std::function<p4est_connectivity_t *()> { if (b) return by (n); return f; };
    std::string pre = b ? "by " : "";
    add (pre + "unit", 1, sel ("unit", [] { return p4est_connectivity_new_unitsquare (); })).extra = [](const Conn &C) { boundary_faces (C, 4); int m[3] = {1, 1, 1}; grid_vertices (C, m); };
    add (pre + "periodic", 1, sel ("periodic", [] { return p4est_connectivity_new_periodic (); })).period = {1, 1, 0};
    Mesh &r = add (pre + "rotwrap", 1, sel ("rotwrap", [] { return p4est_connectivity_new_rotwrap (); }));
    r.embedded = false;
    r.extra = [](const Conn &C) { if (C.ttf != std::vector<int> {1, 0, 7, 6}) fail ("not the documented identifications"); };
    add (pre + "corner", 3, sel ("corner", [] { return p4est_connectivity_new_corner (); }));
    add (pre + "pillow", 2, sel ("pillow", [] { return p4est_connectivity_new_pillow (); })).extra = [](const Conn &C) { boundary_faces (C, 0); };
    add (pre + "moebius", 5, sel ("moebius", [] { return p4est_connectivity_new_moebius (); })).extra = [](const Conn &C) { boundary_faces (C, 10); };
    add (pre + "star", 6, sel ("star", [] { return p4est_connectivity_new_star (); })).extra = [](const Conn &C) { boundary_faces (C, 12); };
    add (pre + "cubed", 6, sel ("cubed", [] { return p4est_connectivity_new_cubed (); })).extra = [](const Conn &C) { boundary_faces (C, 0); };
  }
  add ("disk", 5, [] { return p4est_connectivity_new_disk_nonperiodic (); }).extra = [](const Conn &C) { boundary_faces (C, 4); };
  for (int p = 0; p < 4; ++p) { Mesh &m = add (strf ("disk %d%d", p & 1, p >> 1), 5, [p] { return p4est_connectivity_new_disk (p & 1, p >> 1); }); m.period = {p & 1 ? 6. : 0, p & 2 ? 6. : 0, 0}; m.extra = [p](const Conn &C) { boundary_faces (C, (p & 1 ? 0 : 2) + (p & 2 ? 0 : 2)); }; }
  add ("by disk", 5, by ("disk"));
  add ("cubed as sphere", 6, [] { return p4est_connectivity_new_cubed (); }).geo = [](p4est_connectivity_t *c) { return p4est_geometry_new_sphere2d (c, 1.); };
  add ("pillow as sphere", 2, [] { return p4est_connectivity_new_pillow (); }).geo = [](p4est_connectivity_t *c) { return p4est_geometry_new_pillow (c, 1.); };
  add ("icosahedron", 10, [] { return p4est_connectivity_new_icosahedron (); }).geo = [](p4est_connectivity_t *c) { return p4est_geometry_new_icosahedron (c, 1.); };
  v.back ().extra = [](const Conn &C) { boundary_faces (C, 0); };
  add ("shell2d", 8, [] { return p4est_connectivity_new_shell2d (); }).geo = [](p4est_connectivity_t *c) { return p4est_geometry_new_shell2d (c, 1., .55); };
  add ("disk2d", 5, [] { return p4est_connectivity_new_disk2d (); }).geo = [](p4est_connectivity_t *c) { return p4est_geometry_new_disk2d (c, .4, 1.); };
  add ("bowtie", 2, [] { return p4est_connectivity_new_bowtie (); }).extra = [](const Conn &C) { boundary_faces (C, 8); };
  add ("circle", 6, [] { return p4est_connectivity_new_circle (); }).extra = [](const Conn &C) { boundary_faces (C, 12); };
  add ("drop", 5, [] { return p4est_connectivity_new_drop (); });
  add ("by brick23", 6, by ("brick23")).extra = [](const Conn &C) { int m[3] = {2, 3, 1}; grid_vertices (C, m); boundary_faces (C, 10); };
  for (int a = 1; a <= N; ++a) for (int b = 1; b <= N; ++b) for (int p = 0; p < 4; ++p) {
    Mesh &m = add (strf ("brick %dx%d periodic %d%d", a, b, p & 1, p >> 1), a * b, [=] { return p4est_connectivity_new_brick (a, b, p & 1, p >> 1); });
    m.period = {p & 1 ? (double) a : 0, p & 2 ? (double) b : 0, 0};
    m.extra = [=](const Conn &C) { int e[3] = {a, b, 1}; grid_vertices (C, e); boundary_faces (C, 2 * ((p & 1 ? 0 : b) + (p & 2 ? 0 : a))); };
  }
#endif
  for (int l = 0; l < NF; ++l) for (int r = 0; r < NF; ++r) for (int o = 0; o < NC / 2; ++o) {
    Mesh &m = add (strf ("twotrees %d %d %d", l, r, o), 2, [=] { return p4est_connectivity_new_twotrees (l, r, o); });
    m.embedded = false;
    m.extra = [=](const Conn &C) {
      for (int t = 0; t < 2; ++t) for (int f = 0; f < NF; ++f) {
        bool on = f == (t ? r : l);
        if (C.ttt[t * NF + f] != (on ? 1 - t : t) || C.ttf[t * NF + f] != (on ? (t ? l : r) + NF * o : f)) fail ("face %d of tree %d is not as requested", f, t);
      }
    };
  }
  return v;
}
static void check_mesh (const Mesh &m)
{
  p4est_connectivity_t *c = m.make ();
  if (!c) fail ("no mesh");
  if (!p4est_connectivity_is_valid (c)) fail ("not valid");
  auto C = model_of (c, m.name);
  if (C->nt != m.trees) fail ("%d trees, expected %d", C->nt, m.trees);
  if (m.extra) m.extra (*C);
  if (m.geo) {
    p4est_geometry_t *g = m.geo (c);
    check_embedded (*C, [g](int t, const double *x) { V3 r; double y[3] = {x[0], x[1], x[2]}; g->X (g, t, y, r.v); return r; }, NULL);
    p4est_geometry_destroy (g);
  }
  else if (m.embedded) check_embedded (*C, linear (c), m.period.empty () ? NULL : m.period.data ());
  else check_closure (*C);
  p4est_connectivity_destroy (c);
  nchecks += C->nt;
}

// ---- transforms
static std::string pt (const int64_t *x) { std::string s = "("; for (int d = 0; d < D; ++d) s += strf ("%s%lld", d ? "," : "", (long long) x[d]); return s + ")"; }
// the affine extension of the map across face f of tree t, on a box
static Box face_affine (int f, int code, int t2, const Box &b)
{
  int nf = code % NF;
  Map m = face_map (f, t2, nf, code / NF);
  Box o = m.apply (b);
  int64_t a = f & 1 ? b.lo[f / 2] - R : -b.hi[f / 2], z = f & 1 ? b.hi[f / 2] - R : -b.lo[f / 2];      // distance outward
  o.lo[nf / 2] = nf & 1 ? R - z : a;
  o.hi[nf / 2] = nf & 1 ? R - a : z;
  return o;
}
static void nodes_and_cells (int t, int f, std::vector<Box> &cells, std::vector<Box> &points)
{
  std::vector<int64_t> tp {0, 1, R / 2, R / 4, R - 1, R, R / 2 + 6}, np;
  int d0 = f / 2;
  for (int64_t s : {(int64_t) 0, (int64_t) 1, (int64_t) 2, R / 2, R, -(int64_t) 1, -R / 2, -R}) np.push_back (f & 1 ? R + s : -s);
  for (int64_t n : np) for (int64_t u : tp) for (int64_t v : tp) {
    Box b;
    b.t = t;
    int a[2] = {0, 0};
    tang (f, a);
    for (int d = 0; d < 3; ++d) b.lo[d] = 0;
    b.lo[d0] = n; b.lo[a[0]] = u;
    if (D == 3) b.lo[a[1]] = v;
    for (int d = 0; d < 3; ++d) b.hi[d] = b.lo[d];
    points.push_back (b);
    if (D == 2) break;
  }
  for (int l : {0, 1, 2, 7, 18, 19, QMAX}) {
    int64_t h = len (l), k = (int64_t) 1 << l;
    std::set<int64_t> u {0, k - 1, k / 2, k / 3, -1, k, -k, 2 * k - 1};
    for (int64_t n : {(int64_t) -1, (int64_t) 0, (int64_t) 1, k - 1, k, 2 * k - 1, -k}) for (int64_t x : u) for (int64_t y : u) {
      Box b;
      b.t = t;
      int a[2] = {0, 0};
      tang (f, a);
      int64_t c[3] = {0, 0, 0};
      c[d0] = n; c[a[0]] = x;
      if (D == 3) c[a[1]] = y;
      for (int d = 0; d < 3; ++d) { b.lo[d] = d < D ? c[d] * h : 0; b.hi[d] = d < D ? c[d] * h + h : 0; }
      // the image must be a cell of the neighborhood as well
      bool ok = true;
      if (f & 1 ? n < 0 : n >= k) ok = false;
      if (ok) cells.push_back (b);
      if (D == 2) break;
    }
  }
}
static p4est_quadrant_t quad_of (const Box &b)
{
  p4est_quadrant_t q;
  memset (&q, 0x5a, sizeof q);
  q.x = (p4est_qcoord_t) b.lo[0]; q.y = (p4est_qcoord_t) b.lo[1];
#ifdef P4_TO_P8
  q.z = (p4est_qcoord_t) b.lo[2];
#endif
  int64_t h = b.hi[0] - b.lo[0];
  int l = P4EST_MAXLEVEL;
  if (h > 0) { l = 0; while (len (l) != h) ++l; }
  q.level = (int8_t) l;
  return q;
}
static bool quad_is (const p4est_quadrant_t &q, const Box &b)
{
  p4est_quadrant_t w = quad_of (b);
  return q.x == w.x && q.y == w.y && q.level == w.level
#ifdef P4_TO_P8
    && q.z == w.z
#endif
    ;
}
static void one_face (const Conn &C, p4est_connectivity_t *c, int t, int f)
{
  int ft[9], fe[9];
  p4est_topidx_t nt = p4est_find_face_transform (c, t, f, ft);
  bool bd = C.boundary (t, f);
  ++nchecks;
  if (nt != (bd ? -1 : C.ttt[t * NF + f])) fail ("find_face_transform of face %d of tree %d returns %d", f, t, (int) nt);
  if (bd) return;
  int code = C.ttf[t * NF + f], nf = code % NF;
  p4est_expand_face_transform (f, code, fe);
  if (memcmp (ft, fe, sizeof ft)) fail ("expand_face_transform and find_face_transform differ for face %d code %d", f, code);
  // the documented meaning of the array
  Map m = face_map (f, (int) nt, nf, code / NF);
  int last = 2, used = 0;
  for (int k = 0; k < 3; ++k) {
    if (D == 2 && k == 1) { if (ft[1] || ft[4] || ft[7]) fail ("unused entries of the face transform are not zero"); continue; }
    used |= 1 << ft[k];
    if (k == last) { if (ft[k] != f / 2 || ft[3 + k] != nf / 2) fail ("normal axes of face %d code %d are %d, %d", f, code, ft[k], ft[3 + k]); }
    else {
      if (ft[k] == f / 2 || m.axis[ft[k]] != ft[3 + k] || m.flip[ft[k]] != ft[6 + k]) fail ("axis %d of face %d code %d leads to %d reversed %d", ft[k], f, code, ft[3 + k], ft[6 + k]);
    }
  }
  if (used != (1 << D) - 1) fail ("axes of the face transform are no permutation");
  const int nrm[2][2] = {{0, 1}, {2, 3}};
  if (ft[8] != nrm[f & 1][nf & 1]) fail ("face code of face %d to %d is %d", f, nf, ft[8]);
  std::vector<Box> cells, points;
  nodes_and_cells (t, f, cells, points);
  int rcode = C.ttf[nt * NF + nf];
  int rt[9];
  if (p4est_find_face_transform (c, nt, nf, rt) != t || rcode % NF != f) fail ("the gluing of face %d of tree %d is not symmetric", f, t);
  for (auto *v : {&cells, &points}) for (auto &b : *v) {
    Box w = face_affine (f, code, (int) nt, b);
    p4est_quadrant_t q = quad_of (b), r, s;
    bool in = true;
    for (int d = 0; d < D; ++d) in = in && w.lo[d] >= -R && w.hi[d] <= 2 * R && b.lo[d] >= -R && b.hi[d] <= 2 * R;
    if (v == &points) for (int d = 0; d < D; ++d) in = in && b.lo[d] >= 0 && b.lo[d] <= R && w.lo[d] >= 0 && w.lo[d] <= R && b.lo[d] % len (QMAX) == 0;      // nodes
    else {
      // the cells that one of the two trees contains
      bool bi = true, wi = true;
      for (int d = 0; d < D; ++d) { bi = bi && b.lo[d] >= 0 && b.lo[d] < R; wi = wi && w.lo[d] >= 0 && w.lo[d] < R; }
      in = in && bi != wi;
    }
    if (in) {
      ++nchecks;
      memset (&r, 0x11, sizeof r);
      p4est_quadrant_transform_face (&q, &r, ft);
      if (!quad_is (r, w)) fail ("transform_face takes the cell at %s of size %lld across face %d code %d to %s, expected %s", pt (b.lo).c_str (), (long long) (b.hi[0] - b.lo[0]), f, code, ref::str (to_cell (r, (int) nt)).c_str (), pt (w.lo).c_str ());
      memset (&s, 0x22, sizeof s);
      p4est_quadrant_transform_face (&r, &s, rt);
      if (!quad_is (s, b)) fail ("transform_face back is not the inverse at %s across face %d code %d", pt (b.lo).c_str (), f, code);
    }
    bool rep = true;
    for (int d = 0; d < D; ++d) rep = rep && w.lo[d] < 2 * R && b.lo[d] < 2 * R;
    if (v == &points && rep) {
      p4est_qcoord_t x[3] = {(p4est_qcoord_t) b.lo[0], (p4est_qcoord_t) b.lo[1], (p4est_qcoord_t) b.lo[2]}, y[3], z[3];
      ++nchecks;
      p4est_coordinates_transform_face (x, y, ft);
      p4est_coordinates_transform_face (y, z, rt);
      for (int d = 0; d < D; ++d) if (y[d] != w.lo[d]) fail ("coordinates_transform_face takes %s across face %d code %d to coordinate %d = %d, expected %s", pt (b.lo).c_str (), f, code, d, y[d], pt (w.lo).c_str ());
      for (int d = 0; d < D; ++d) if (z[d] != x[d]) fail ("coordinates_transform_face back is not the inverse at %s", pt (b.lo).c_str ());
    }
  }
}
static std::set<Side> minus (const std::set<Side> &a, const std::set<Side> &b) { std::set<Side> r; for (auto &x : a) if (!b.count (x)) r.insert (x); return r; }
static std::set<Side> group (const Conn &C, int dim, int t, int e)
{
  std::set<Side> r;
  std::vector<Map> v;
  if (dim == 0) { C.corner_maps (t, e, v); for (auto &m : v) r.insert (Side {m.t2, corner_at (m.apply (corner_box (t, e))), 0}); }
#ifdef P4_TO_P8
  else { C.edge_maps (t, e, v); for (auto &m : v) r.insert (Side {m.t2, edge_at (m.apply (edge_box (t, e))), m.flip[edge_axis (e)]}); }
#endif
  return r;
}
static int level_of (int64_t h) { int l = 0; while (len (l) != h) ++l; return l; }
static void one_corner (const Conn &C, p4est_connectivity_t *c, int t, int k)
{
  p4est_corner_info_t ci;
  sc_array_init (&ci.corner_transforms, sizeof (p4est_corner_transform_t));
  p4est_find_corner_transform (c, t, k, &ci);
  std::set<Side> near = corner_by_face (C, t, k), want = group (C, 0, t, k);
  for (auto &s : corner_by_edge (C, t, k)) near.insert (s);
  want = minus (want, near);
  std::multiset<Side> got, w (want.begin (), want.end ());
  for (size_t i = 0; i < ci.corner_transforms.elem_count; ++i) { auto *x = p4est_corner_array_index (&ci.corner_transforms, i); got.insert (Side {x->ntree, x->ncorner, 0}); }
  ++nchecks;
  if (got != w) fail ("find_corner_transform of corner %d of tree %d gives%s, expected%s", k, t, str (got).c_str (), str (w).c_str ());
  if (ci.corner_transforms.elem_count > 0 && ci.icorner != k && ci.icorner != C.ttc[t * NC + k]) fail ("icorner");
  sc_array_reset (&ci.corner_transforms);
}
#ifdef P4_TO_P8
static void one_edge (const Conn &C, p4est_connectivity_t *c, int t, int e)
{
  p8est_edge_info_t ei;
  sc_array_init (&ei.edge_transforms, sizeof (p8est_edge_transform_t));
  p8est_find_edge_transform (c, t, e, &ei);
  std::set<Side> want = minus (group (C, 1, t, e), edge_by_face (C, t, e));
  std::multiset<Side> got, w (want.begin (), want.end ());
  int ax = edge_axis (e), fx[3];
  edge_fix (e, fx);
  for (size_t i = 0; i < ei.edge_transforms.elem_count; ++i) {
    auto *x = p8est_edge_array_index (&ei.edge_transforms, i);
    got.insert (Side {x->ntree, x->nedge, x->nflip});
    ++nchecks;
    if (ei.iedge != e) fail ("iedge");
    if (x->naxis[0] != x->nedge / 4 || x->naxis[1] == x->naxis[0] || x->naxis[2] == x->naxis[0] || x->naxis[1] >= x->naxis[2]) fail ("axes of edge %d", x->nedge);
    int n2 = x->nedge / 4, gx[3];
    edge_fix (x->nedge, gx);
    for (int64_t u : {(int64_t) 0, (int64_t) 1, R / 2, R / 4 + 6, R - 1, R}) {
      p4est_qcoord_t a[3], b[3];
      int64_t ww[3];
      for (int d = 0; d < 3; ++d) { a[d] = (p4est_qcoord_t) (d == ax ? u : fx[d] * R); ww[d] = d == n2 ? (x->nflip ? R - u : u) : gx[d] * R; }
      p8est_coordinates_transform_edge (a, b, &ei, x);
      ++nchecks;
      for (int d = 0; d < 3; ++d) if (b[d] != ww[d]) fail ("coordinates_transform_edge of edge %d to edge %d flip %d", e, x->nedge, x->nflip);
      if (u % len (QMAX)) continue;
      p4est_quadrant_t q, r;
      memset (&q, 0x5a, sizeof q);
      q.x = a[0]; q.y = a[1]; q.z = a[2]; q.level = P4EST_MAXLEVEL;
      // nodes on the edge count as outside
      memset (&r, 0x11, sizeof r);
      p8est_quadrant_transform_edge (&q, &r, &ei, x, 0);
      if (r.x != ww[0] || r.y != ww[1] || r.z != ww[2] || r.level != P4EST_MAXLEVEL) fail ("transform_edge of a node of edge %d to edge %d flip %d", e, x->nedge, x->nflip);
    }
    for (int l : {0, 1, 2, 7, 18, 19, QMAX}) {
      int64_t h = len (l), k = (int64_t) 1 << l;
      for (int64_t u : std::set<int64_t> {0, k - 1, k / 2, k / 3}) for (int in = 0; in < 2; ++in) {
        // from outside of the edge to inside, and from inside to outside
        const int out = in;
        p4est_quadrant_t q, r;
        int64_t a[3], ww[3];
        for (int d = 0; d < 3; ++d) {
          a[d] = d == ax ? u * h : out ? (fx[d] ? R : -h) : fx[d] ? R - h : 0;
          ww[d] = d == n2 ? (x->nflip ? R - h - u * h : u * h) : in ? (gx[d] ? R - h : 0) : gx[d] ? R : -h;
        }
        memset (&q, 0x5a, sizeof q);
        q.x = (p4est_qcoord_t) a[0]; q.y = (p4est_qcoord_t) a[1]; q.z = (p4est_qcoord_t) a[2]; q.level = (int8_t) l;
        memset (&r, 0x11, sizeof r);
        p8est_quadrant_transform_edge (&q, &r, &ei, x, in);
        ++nchecks;
        if (r.x != ww[0] || r.y != ww[1] || r.z != ww[2] || r.level != l) fail ("transform_edge from edge %d at %lld to edge %d flip %d inside %d gives %s", e, (long long) u, x->nedge, x->nflip, in, ref::str (to_cell (r, x->ntree)).c_str ());
      }
    }
  }
  ++nchecks;
  if (got != w) fail ("find_edge_transform of edge %d of tree %d gives%s, expected%s", e, t, str (got).c_str (), str (w).c_str ());
  sc_array_reset (&ei.edge_transforms);
}
#endif
// ---- neighbor transforms of a boundary object: dim 2/1 face, 1 edge, 0 corner
static void one_nts (const Conn &C, p4est_connectivity_t *c, int t, int dim, int idx)
{
  sc_array_t *a = sc_array_new (sizeof (p4est_neighbor_transform_t));
  p4est_connect_type_t bt = dim == D ? P4EST_CONNECT_SELF : dim == D - 1 ? P4EST_CONNECT_FACE : dim == 0 ? P4EST_CONNECT_CORNER :
#ifdef P4_TO_P8
    P8EST_CONNECT_EDGE;
#else
    P4EST_CONNECT_SELF;
#endif
  p4est_connectivity_get_neighbor_transforms (c, t, bt, idx, a);
  Box self = dim == D - 1 ? face_box (t, idx) : corner_box (t, idx);
  if (dim == D) for (int d = 0; d < 3; ++d) { self.lo[d] = 0; self.hi[d] = d < D ? R : 0; }
#ifdef P4_TO_P8
  if (dim == 1) self = edge_box (t, idx);
#endif
  // (kind, tree, own index, other index) of everything expected
  std::multiset<std::array<int, 5>> want, got;
  want.insert ({D, t, 0, 0, 0});
  if (dim < D) for (int f = 0; f < NF; ++f) if (box_in (self, face_box (t, f)) && !C.boundary (t, f)) want.insert ({D - 1, C.ttt[t * NF + f], f, C.ttf[t * NF + f] % NF, 0});
#ifdef P4_TO_P8
  if (dim < 2) for (int e = 0; e < 12; ++e) if (box_in (self, edge_box (t, e))) for (auto &s : minus (group (C, 1, t, e), edge_by_face (C, t, e))) want.insert ({1, s.t, e, s.e, s.flip});
#endif
  if (dim == 0) { std::set<Side> near = corner_by_face (C, t, idx); for (auto &s : corner_by_edge (C, t, idx)) near.insert (s); for (auto &s : minus (group (C, 0, t, idx), near)) want.insert ({0, s.t, idx, s.e, 0}); }
  for (size_t i = 0; i < a->elem_count; ++i) {
    auto *n = (p4est_neighbor_transform_t *) sc_array_index (a, i);
    int k = n->neighbor_type == P4EST_CONNECT_SELF ? D : n->neighbor_type == P4EST_CONNECT_FACE ? D - 1 : n->neighbor_type == P4EST_CONNECT_CORNER ? 0 : 1;
    int is = n->index_self, in = n->index_neighbor, flip = 0, perm = 0;
    for (int d = 0; d < D; ++d) { perm |= 1 << n->perm[d]; if (n->sign[d] != 1 && n->sign[d] != -1) fail ("sign"); }
    if (perm != (1 << D) - 1) fail ("not a permutation");
    auto T = [&](const int64_t *x, int64_t *y) {
      p4est_qcoord_t u[3] = {(p4est_qcoord_t) x[0], (p4est_qcoord_t) x[1], (p4est_qcoord_t) x[2]}, v[3], w[3];
      p4est_neighbor_transform_coordinates (n, u, v);
      p4est_neighbor_transform_coordinates_reverse (n, v, w);
      for (int d = 0; d < D; ++d) { y[d] = v[d]; if (w[d] != u[d]) fail ("neighbor_transform_coordinates_reverse is not the inverse"); }
    };
    int64_t hs[] = {0, 1, R / 4, R / 2, R};
    if (k == D) { if (memcmp (n->origin_self, n->origin_neighbor, sizeof n->origin_self)) fail ("self transform"); for (int64_t u : hs) { int64_t x[3] = {u, R / 4, R}, y[3] = {0, 0, R}; T (x, y); for (int d = 0; d < D; ++d) if (x[d] != y[d]) fail ("self transform moves"); } }
    else if (k == D - 1) {
      int code = C.ttf[t * NF + is];
      // the affine map across the face, also beyond it
      for (int64_t u : hs) for (int64_t v : hs) for (int64_t s : {(int64_t) 0, (int64_t) 1, R / 2, R - 2, -R / 2}) {
        Box b; b.t = t;
        int ta[2] = {0, 0};
        tang (is, ta);
        for (int d = 0; d < 3; ++d) b.lo[d] = 0;
        b.lo[ta[0]] = u; if (D == 3) b.lo[ta[1]] = v; b.lo[is / 2] = is & 1 ? R + s : -s;
        for (int d = 0; d < 3; ++d) b.hi[d] = b.lo[d];
        Box w = face_affine (is, code, n->neighbor, b);
        int64_t y[3];
        T (b.lo, y);
        ++nchecks;
        for (int d = 0; d < D; ++d) if (y[d] != w.lo[d]) fail ("neighbor transform across face %d code %d takes %s to coordinate %d = %lld", is, code, pt (b.lo).c_str (), d, (long long) y[d]);
      }
    }
#ifdef P4_TO_P8
    else if (k == 1) {
      int fx[3], gx[3], ax = is / 4, n2 = in / 4;
      edge_fix (is, fx);
      edge_fix (in, gx);
      flip = n->sign[n2] < 0;
      for (int64_t u : hs) for (int64_t s : {(int64_t) 0, (int64_t) 1, R / 4, -R / 4}) {
        int64_t x[3], y[3];
        for (int d = 0; d < 3; ++d) x[d] = d == ax ? u : fx[d] ? R + s : -s;       // outward by s
        T (x, y);
        ++nchecks;
        for (int d = 0; d < 3; ++d) if (y[d] != (d == n2 ? (flip ? R - u : u) : gx[d] ? R - s : s)) fail ("neighbor transform across edge %d to %d takes %s to coordinate %d = %lld", is, in, pt (x).c_str (), d, (long long) y[d]);
      }
    }
#endif
    else {
      for (int64_t s : {(int64_t) 0, (int64_t) 1, R / 4, -R / 4}) {
        int64_t x[3] = {0, 0, 0}, y[3];
        for (int d = 0; d < D; ++d) x[d] = (is >> d & 1) ? R + s : -s;
        T (x, y);
        ++nchecks;
        for (int d = 0; d < D; ++d) if (y[d] != ((in >> d & 1) ? R - s : s)) fail ("neighbor transform across corner %d to %d takes %s to coordinate %d = %lld", is, in, pt (x).c_str (), d, (long long) y[d]);
      }
    }
    got.insert ({k, (int) n->neighbor, is, in, flip});
  }
  ++nchecks;
  if (got != want) fail ("neighbor transforms of object %d of dimension %d of tree %d: %zu, expected %zu", idx, dim, t, got.size (), want.size ());
  sc_array_destroy (a);
}
// ---- canonical points
static bool pt_less (const Pt &a, const Pt &b)
{
  if (a.t != b.t) return a.t < b.t;
  return zcmp_pt (a.x, b.x) < 0;
}
static void canon_points (const Conn &C, p4est_connectivity_t *c, int t)
{
  std::vector<int64_t> v {0, 1, R / 4, R / 2, R - 2, R};
  std::vector<size_t> ix (3, 0);
  for (;;) {
    Pt p;
    p.t = t;
    for (int d = 0; d < 3; ++d) p.x[d] = d < D ? v[ix[d]] : 0;
    std::vector<Pt> reps;
    C.pt_reps (p, reps);
    Pt best = reps[0];
    for (auto &r : reps) if (pt_less (r, best)) best = r;
    p4est_qcoord_t x[3] = {(p4est_qcoord_t) p.x[0], (p4est_qcoord_t) p.x[1], (p4est_qcoord_t) p.x[2]}, y[3];
    p4est_topidx_t to = -5;
    p4est_connectivity_coordinates_canonicalize (c, t, x, &to, y);
    ++nchecks;
    bool ok = to == best.t;
    for (int d = 0; d < D; ++d) ok = ok && y[d] == best.x[d];
    if (!ok) fail ("the canonical representative of %d:%s is %d:(%d,%d,%d), expected %d:%s", t, pt (p.x).c_str (), (int) to, y[0], y[1], D == 3 ? y[2] : 0, best.t, pt (best.x).c_str ());
    int d = 0;
    while (d < D && ++ix[d] == v.size ()) ix[d++] = 0;
    if (d == D) break;
  }
}
// ---- same-size neighbors through all boundaries
static Box side_box (const Cell &c, int dim, int i)
{
  Box b = box_of (c);
  int s[3] = {-1, -1, -1};
  if (dim == 0) for (int d = 0; d < D; ++d) s[d] = i >> d & 1;
  else if (dim == D - 1) s[i / 2] = i & 1;
  else edge_fix (i, s);
  for (int d = 0; d < D; ++d) if (s[d] >= 0) b.lo[d] = b.hi[d] = s[d] ? b.hi[d] : b.lo[d];
  return b;
}
static int nsides (int dim) { return dim == 0 ? NC : dim == D - 1 ? NF : 12; }
struct Nb { Cell c; int code; bool operator< (const Nb &o) const { return std::tie (c.t, c.x[0], c.x[1], c.x[2], code) < std::tie (o.c.t, o.c.x[0], o.c.x[1], o.c.x[2], o.code); } };
static std::vector<Box> full_reps (const Conn &C, const Box &b) { std::vector<Box> v, w; C.reps (b, v); for (auto &x : v) if (box_dim (x) == box_dim (b)) { bool have = false; for (auto &y : w) have = have || y == x; if (!have) w.push_back (x); } return w; }
// all (cell, side) of the size of c at a box
static std::set<Nb> holders (const Conn &C, const Cell &c, int dim, const Box &b)
{
  std::set<Nb> r;
  int64_t h = c.h ();
  Box half = b;
  if (dim == 1 && D == 3) for (int d = 0; d < 3; ++d) if (b.hi[d] > b.lo[d]) half.hi[d] = b.lo[d] + h / 2;
  auto halves = full_reps (C, half);
  for (auto &x : full_reps (C, b)) for (int m = 0; m < NC; ++m) {
    Cell k;
    k.t = x.t; k.l = c.l;
    bool ok = true;
    int64_t lo[3] = {0, 0, 0};
    for (int d = 0; d < D; ++d) { bool fixed = x.lo[d] == x.hi[d]; if (!fixed && (m >> d & 1)) ok = false; lo[d] = x.lo[d] - (fixed && (m >> d & 1) ? h : 0); if (lo[d] < 0 || lo[d] + h > R) ok = false; k.x[d] = (int32_t) lo[d]; }
    if (!ok) continue;
    for (int i = 0; i < nsides (dim); ++i) if (side_box (k, dim, i) == x) {
      if (dim == 1 && D == 3) {
        int a = edge_axis (i), fl = -1;
        for (auto &y : halves) if (box_in (y, x)) fl = y.lo[a] == x.lo[a] ? 0 : 1;
        r.insert (Nb {k, i + 12 * fl});
      }
      else r.insert (Nb {k, i});
    }
  }
  return r;
}
static std::string str (const std::multiset<Nb> &s) { std::string r; for (auto &x : s) r += strf (" %s/%d", ref::str (x.c).c_str (), x.code); return r; }
static void neighbors (const Conn &C, p4est_connectivity_t *c, const Cell &k)
{
  p4est_quadrant_t q = quad_of (box_of (k));
  for (int f = 0; f < NF; ++f) {
    // across a face there is at most one
    Cell n = k;
    n.x[f / 2] += (f & 1 ? 1 : -1) * (int32_t) k.h ();
    int wt = k.t, code = f ^ 1;
    Box w = box_of (n);
    bool in = f & 1 ? n.x[f / 2] < R : n.x[f / 2] >= 0;
    if (!in) {
      if (C.boundary (k.t, f)) { wt = -1; w = box_of (k); code = -1; }
      else { wt = C.ttt[k.t * NF + f]; code = C.ttf[k.t * NF + f]; w = face_affine (f, code, wt, w); }
    }
    p4est_quadrant_t r;
    memset (&r, 0x11, sizeof r);
    int nf = -77;
    p4est_locidx_t g = p4est_quadrant_face_neighbor_extra (&q, k.t, f, &r, &nf, c);
    ++nchecks;
    if (g != wt || !quad_is (r, w) || (wt >= 0 && nf != code)) fail ("face_neighbor_extra of %s across %d is tree %d %s face %d, expected tree %d %s face %d", ref::str (k).c_str (), f, (int) g, ref::str (to_cell (r, (int) g)).c_str (), nf, wt, pt (w.lo).c_str (), code);
    memset (&r, 0x11, sizeof r);
    if (p4est_quadrant_face_neighbor_extra (&q, k.t, f, &r, NULL, c) != wt || !quad_is (r, w)) fail ("face_neighbor_extra without face");
  }
  for (int dim = D - 2; dim >= 0; --dim) for (int i = 0; i < nsides (dim); ++i) {
    Box b = side_box (k, dim, i);
    std::set<Nb> all = holders (C, k, dim, b);
    // remove those that share something larger there
    std::set<Nb> gone;
    gone.insert (Nb {k, i});
    for (int e = dim + 1; e < D; ++e) for (int j = 0; j < nsides (e); ++j) {
      Box B = side_box (k, e, j);
      if (!box_in (b, B)) continue;
      // the part of it next to b, so that images can be told apart
      for (int d = 0; d < D; ++d) if (B.hi[d] > B.lo[d] && b.lo[d] == b.hi[d]) { int64_t hh = (B.hi[d] - B.lo[d]) / 2; if (b.lo[d] == B.lo[d]) B.hi[d] -= hh; else B.lo[d] += hh; }
      for (auto &x : full_reps (C, B)) {
        // where b sits within this image
        for (auto &n : all) {
          if (n.c.t != x.t) continue;
          Box nb = side_box (n.c, dim, n.code % 12);
          bool side = false;
          for (int s = 0; s < nsides (e); ++s) side = side || box_in (x, side_box (n.c, e, s));
          if (side && box_in (nb, x)) gone.insert (n);
        }
      }
    }
    std::multiset<Nb> want, got;
    for (auto &n : all) if (!gone.count (n)) want.insert (n);
    sc_array_t *qs = sc_array_new (sizeof (p4est_quadrant_t)), *ts = sc_array_new (sizeof (p4est_topidx_t)), *ns = sc_array_new (sizeof (int));
    for (int pass = 0; pass < 2; ++pass) {
      got.clear ();
      sc_array_resize (qs, 0); sc_array_resize (ts, 0); sc_array_resize (ns, 0);
#ifdef P4_TO_P8
      if (dim == 1) p8est_quadrant_edge_neighbor_extra (&q, k.t, i, qs, ts, pass ? NULL : ns, c);
      else
#endif
        p4est_quadrant_corner_neighbor_extra (&q, k.t, i, qs, ts, pass ? NULL : ns, c);
      ++nchecks;
      if (qs->elem_count != ts->elem_count || (!pass && qs->elem_count != ns->elem_count)) fail ("array lengths differ for %s, dimension %d side %d", ref::str (k).c_str (), dim, i);
      for (size_t z = 0; z < qs->elem_count; ++z) {
        Nb n {to_cell (*p4est_quadrant_array_index (qs, z), *(p4est_topidx_t *) sc_array_index (ts, z)), pass ? 0 : *(int *) sc_array_index (ns, z)};
        got.insert (n);
      }
      std::multiset<Nb> w;
      for (auto n : want) { if (pass) n.code = 0; w.insert (n); }
      bool eq = got.size () == w.size ();
      for (auto a = got.begin (), z = w.begin (); eq && a != got.end (); ++a, ++z) eq = a->c == z->c && a->code == z->code;
      if (!eq) fail ("%s_neighbor_extra of %s across %d gives%s, expected%s", dim ? "edge" : "corner", ref::str (k).c_str (), i, str (got).c_str (), str (w).c_str ());
    }
    sc_array_destroy (qs); sc_array_destroy (ts); sc_array_destroy (ns);
  }
}
static Cells probe_cells (int t, bool th)
{
  Cells v;
  std::vector<int> ls = D == 2 ? std::vector<int> {0, 1, 2, 3, 9, QMAX} : th ? std::vector<int> {0, 1, 2, 3, QMAX} : std::vector<int> {0, 1, 2, QMAX};
  for (int l : ls) {
    int64_t k = (int64_t) 1 << l;
    std::set<int64_t> s {0, k - 1};
    if (l >= 2) { s.insert (1); if (l > 2 || th || D == 2) { s.insert (k / 2); s.insert (k / 3); } }
    std::vector<int64_t> u (s.begin (), s.end ());
    std::vector<size_t> ix (3, 0);
    for (;;) {
      Cell c;
      c.t = t; c.l = l;
      for (int d = 0; d < D; ++d) c.x[d] = (int32_t) (u[ix[d]] * len (l));
      v.push_back (c);
      int d = 0;
      while (d < D && ++ix[d] == u.size ()) ix[d++] = 0;
      if (d == D) break;
    }
  }
  return v;
}

static void world (const std::function<void()> &f)
{
  vp::Options op;
  nchecks = 0;
  E.run (1, op, [&](int) { rank_begin (); f (); });
  E.count ("comparisons", nchecks);
  E.validated ();
}
void enumerate ()
{
  auto cat = catalogue (E.thorough);
  E.stage ("the tables of %zu built-in coarse meshes against their geometry or requested gluing", cat.size ());
  for (auto &m : cat) if (E.take ()) {
    E.state ();
    if (!E.sub ()) continue;
    E.describe ([&] { return m.name; });
    E.transition (m.trees * (NF + NC + (D == 3 ? 12 : 0)));
    world ([&] { check_mesh (m); });
  }
  E.stage ("unknown names");
  if (E.take ()) { E.state (); if (E.sub ()) { E.describe ([] { return std::string ("unknown name"); }); world ([] { for (const char *n : {"", "uni", "unitx", "brick", "UNIT", "cub", "shell "}) if (p4est_connectivity_new_byname (n)) fail ("a mesh of the name '%s'", n); }); } }
  // transforms
  std::vector<std::shared_ptr<Conn>> cs;
  for (auto &n : conn_names ()) cs.push_back (named (n));
  for (int k = 0; k < (D == 3 ? 4 : 2); ++k) cs.push_back (touching (k));
  for (int l = 0; l < NF; ++l) for (int r = 0; r < NF; ++r) for (int o = 0; o < NC / 2; ++o) cs.push_back (twotrees (l, r, o));
#ifdef P4_TO_P8
  for (int p = 0; p < 8; ++p) { cs.push_back (brick (1, 2, 1, p & 1, p >> 1 & 1, p >> 2)); cs.push_back (brick (2, 1, 2, p & 1, p >> 1 & 1, p >> 2)); cs.push_back (brick (1, 1, 1, p & 1, p >> 1 & 1, p >> 2)); }
#else
  for (int p = 0; p < 4; ++p) for (int a = 1; a < 4; ++a) for (int b = 1; b < 4; ++b) cs.push_back (brick (a, b, p & 1, p >> 1));
#endif
  E.stage ("transforms between the trees of %zu coarse meshes", cs.size ());
  for (auto &C : cs) for (int t = 0; t < C->nt; ++t) if (E.take ()) {
    if (!E.sub ()) { E.state (); continue; }
    E.state ();
    E.describe ([&] { return strf ("%s tree %d", C->name.c_str (), t); });
    E.transition (NF + NC + (D == 3 ? 12 : 0));
    HostConn H (C);
    world ([&] {
      for (int f = 0; f < NF; ++f) one_face (*C, &H.c, t, f);
      for (int k = 0; k < NC; ++k) one_corner (*C, &H.c, t, k);
#ifdef P4_TO_P8
      for (int e = 0; e < 12; ++e) one_edge (*C, &H.c, t, e);
      for (int e = 0; e < 12; ++e) one_nts (*C, &H.c, t, 1, e);
#endif
      one_nts (*C, &H.c, t, D, 0);
      for (int f = 0; f < NF; ++f) one_nts (*C, &H.c, t, D - 1, f);
      for (int k = 0; k < NC; ++k) one_nts (*C, &H.c, t, 0, k);
      canon_points (*C, &H.c, t);
    });
    if (!H.intact ()) E.bad ("the coarse mesh was modified");
  }
  E.stage ("neighbors of cells through all boundaries of the trees");
  for (auto &C : cs) for (int t = 0; t < C->nt; ++t) if (E.take ()) {
    Cells v = probe_cells (t, E.thorough);
    HostConn H (C);
    E.state ((long) v.size ());
    if (!E.sub ()) continue;
    E.describe ([&] { return strf ("%s tree %d, neighbors", C->name.c_str (), t); });
    E.transition ((long) v.size () * (NF + NC + (D == 3 ? 12 : 0)));
    world ([&] { for (auto &k : v) neighbors (*C, &H.c, k); });
  }
}
