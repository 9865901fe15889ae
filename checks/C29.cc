// C29 Physical coordinates and visualization files describe the actual mesh
#if VP_DIM == 2
#include "ref/p6.hh"
#include <p4est_geometry.h>
#include <p4est_vtk.h>
#include <p6est_vtk.h>
#else
#include "ref/spaces.hh"
#include "ref/nodes.hh"
#include <p8est_geometry.h>
#include <p8est_vtk.h>
#endif
#include "ref/spaces.hh"
#include "ref/vtk.hh"
using namespace br;

static int me () { return vp::me (); }
typedef std::array<double, 3> V3;
static V3 V (const double *x) { return {x[0], x[1], x[2]}; }
static std::string str (const V3 &v) { return strf ("(%.17g,%.17g,%.17g)", v[0], v[1], v[2]); }
static double dist (const V3 &a, const V3 &b) { double s = 0; for (int d = 0; d < 3; ++d) s += (a[d] - b[d]) * (a[d] - b[d]); return std::sqrt (s); }
static bool finite3 (const V3 &a) { return std::isfinite (a[0]) && std::isfinite (a[1]) && std::isfinite (a[2]); }
static bool close_to (const V3 &a, const V3 &b, double tol) { return finite3 (a) && dist (a, b) <= tol * (1 + std::sqrt (b[0] * b[0] + b[1] * b[1] + b[2] * b[2])); }
static void eta_of (const Pt &p, double *e) { for (int d = 0; d < 3; ++d) e[d] = d < D ? (double) p.x[d] / (double) R : 0; }
// the multilinear map of a tree
static V3 multilinear (const Conn &m, int t, const double *e)
{
  V3 r {0, 0, 0};
  for (int c = 0; c < NC; ++c) {
    double w = 1;
    for (int d = 0; d < D; ++d) w *= c >> d & 1 ? e[d] : 1 - e[d];
    for (int j = 0; j < 3; ++j) r[(size_t) j] += w * m.verts[(size_t) (3 * m.ttv[(size_t) (t * NC + c)] + j)];
  }
  return r;
}
// a mesh with the same topology where every corner of every tree has a vertex of its own
static std::shared_ptr<Conn> generic_vertices (const Conn &k)
{
  auto m = std::make_shared<Conn> (k);
  m->name += " with generic vertices";
  int n = k.nt * NC;
  m->ttv.resize ((size_t) n);
  m->verts.resize ((size_t) n * 3);
  for (int i = 0; i < n; ++i) {
    int v = m->ttv[(size_t) i] = n - 1 - i;
    uint64_t h = 88172645463325252ULL + (uint64_t) i * 0x9E3779B97F4A7C15ULL;
    for (int j = 0; j < 3; ++j) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; m->verts[(size_t) (3 * v + j)] = (double) (h >> 40) / (1 << 20) - 4; }
  }
  return m;
}
static void custom_X (p4est_geometry_t *, p4est_topidx_t t, const double *a, double *x)
{
  double z = D == 3 ? a[2] : 0;
  x[0] = a[0] + 3 * t;
  x[1] = 1.25 * a[1] + .5 * a[0] * a[1] - .25 * t;
  x[2] = 2 * z - .5 * a[0] + .125 * t * a[1];
}
static V3 custom (int t, const double *a) { V3 r; custom_X (nullptr, t, a, r.data ()); return r; }
static void grid (int nt, int n, bool near, const std::function<void (const Pt &)> &f)
{
  std::vector<int64_t> c;
  for (int i = 0; i <= n; ++i) c.push_back (R / n * i);
  if (near) for (int64_t k : {(int64_t) 1, R - 1, R / 2 + 1}) c.push_back (k);
  for (int t = 0; t < nt; ++t) for (int64_t x : c) for (int64_t y : c) for (size_t k = 0; k < (D == 3 ? c.size () : 1); ++k) { Pt p; p.t = t; p.x[0] = x; p.x[1] = y; p.x[2] = D == 3 ? c[k] : 0; f (p); }
}
static void to_coords (const Pt &p, p4est_qcoord_t *c) { for (int d = 0; d < D; ++d) c[d] = (p4est_qcoord_t) p.x[d]; }

// ------------------------------------------------------- (A) multilinear map
static void linear_case (std::shared_ptr<const Conn> m)
{
  HostConn hc (m);
  if (!E.sub ()) return;
  E.describe ([=] { return strf ("%s: multilinear map", m->name.c_str ()); });
  E.transition ();
  E.validated ();
  E.run (1, vp::Options (), [&](int) {
    rank_begin ();
    long live = vp::live_blocks (me ());
    p4est_geometry_t *g = p4est_geometry_new_connectivity (&hc.c);
    grid (m->nt, 8, true, [&](const Pt &p) {
      double e[3], x[3] = {9, 9, 9}, y[3] = {9, 9, 9}, z[3] = {9, 9, 9};
      eta_of (p, e);
      V3 w = multilinear (*m, p.t, e);
      p4est_qcoord_t c[D];
      to_coords (p, c);
      g->X (g, p.t, e, x);
      p4est_geometry_transform_coordinates (g, p.t, c, y);
#ifdef P4_TO_P8
      p8est_qcoord_to_vertex (&hc.c, p.t, c[0], c[1], c[2], z);
#else
      p4est_qcoord_to_vertex (&hc.c, p.t, c[0], c[1], z);
#endif
      for (auto k : {std::make_pair ("map of the geometry", x), std::make_pair ("transform_coordinates", y), std::make_pair ("qcoord_to_vertex", z)})
        if (!close_to (V (k.second), w, 1e-13)) fail ("%s of (%lld,%lld,%lld) in tree %d is %s, expected %s", k.first, (long long) p.x[0], (long long) p.x[1], (long long) p.x[2], p.t, str (V (k.second)).c_str (), str (w).c_str ());
    });
    p4est_geometry_destroy (g);
    if (vp::live_blocks (me ()) != live) fail ("memory is not freed");
    rank_end ();
  });
  if (!hc.intact ()) E.bad ("coarse mesh modified");
}

// ------------------------------------------------------ (B) analytic maps
struct Geo
{
  std::string name, conn;
  std::function<p4est_geometry_t *(p4est_connectivity_t *, double)> make;
  double outer;                 // all points are within this radius
  double inner;                 // and, for shells and annuli, outside of this one; 0: solid
  bool sphere;                  // all points are at the outer radius
  double lip;                   // bound on the speed of the map times 1/R
  // expected radius of a point or -1, about the center line if ring > 0
  std::function<double (const Conn &, const Pt &)> radius;
  double ring = 0;
};
static bool on_boundary (const Conn &m, const Pt &p)
{
  for (int d = 0; d < D; ++d) for (int s = 0; s < 2; ++s) if (p.x[d] == s * R && m.ttt[(size_t) (p.t * NF + 2 * d + s)] == p.t && m.ttf[(size_t) (p.t * NF + 2 * d + s)] == 2 * d + s) return true;
  return false;
}
static std::vector<Geo> builtin ()
{
  std::vector<Geo> v;
  auto none = [](const Conn &, const Pt &) { return -1.; };
  (void) none;
#ifndef P4_TO_P8
  v.push_back ({"icosahedron", "icosahedron", [](p4est_connectivity_t *c, double s) { return p4est_geometry_new_icosahedron (c, 1.5 * s); }, 1.5, 0, true, 20, none});
  v.push_back ({"sphere2d", "cubed", [](p4est_connectivity_t *c, double s) { return p4est_geometry_new_sphere2d (c, 1.5 * s); }, 1.5, 0, true, 20, none});
  v.push_back ({"pillow", "pillow", [](p4est_connectivity_t *c, double s) { return p4est_geometry_new_pillow (c, 1.5 * s); }, 1.5, 0, true, 20, none});
  v.push_back ({"pillow of radius 1", "pillow", [](p4est_connectivity_t *c, double s) { return p4est_geometry_new_pillow (c, s); }, 1, 0, true, 20, none});
  // annulus: second coordinate runs from the inner to the outer circle
  v.push_back ({"shell2d", "shell2d", [](p4est_connectivity_t *c, double s) { return p4est_geometry_new_shell2d (c, 2.5 * s, 1.25 * s); }, 2.5, 1.25, false, 20,
    [](const Conn &m, const Pt &p) { double e[3]; eta_of (p, e); double b = multilinear (m, p.t, e)[1]; return b == 1 ? 1.25 : b == 2 ? 2.5 : -1; }});
  v.push_back ({"disk2d", "disk2d", [](p4est_connectivity_t *c, double s) { return p4est_geometry_new_disk2d (c, .75 * s, 2 * s); }, 2, 0, false, 20, [](const Conn &m, const Pt &p) { return on_boundary (m, p) ? 2. : -1; }});
  for (int k = 0; k < 4; ++k) for (double r : {1., 1.75, .375})
    v.push_back ({strf ("pillow_disk %c radius %g", 'A' + k, r), "unit", [=](p4est_connectivity_t *c, double s) { return p4est_geometry_new_pillow_disk (c, r * s, k == 0 ? FIG32A : k == 1 ? FIG32B : k == 2 ? FIG32C : FIG32D); }, r, 0, false, 20,
      [=](const Conn &m, const Pt &p) { return on_boundary (m, p) ? r : -1.; }});
#else
  for (double r : {1., 1.75, .375}) for (int k = 0; k < 2; ++k)
    v.push_back ({strf ("pillow_sphere %c radius %g", 'B' + k, r), "unit", [=](p4est_connectivity_t *c, double s) { return p8est_geometry_new_pillow_sphere (c, r * s, k ? FIG52C : FIG52B); }, r, 0, false, 20,
      [=](const Conn &m, const Pt &p) { return on_boundary (m, p) ? r : -1.; }});
  v.push_back ({"pillow", "pillow", [](p4est_connectivity_t *c, double s) { return p8est_geometry_new_pillow (c, 2.5 * s, 1.25 * s); }, 2.5, 1.25, false, 20,
    [](const Conn &m, const Pt &p) { return p.x[2] == 0 ? (p.t ? 2.5 : 1.25) : p.x[2] == R ? (p.t ? 1.25 : 2.5) : -1; }});
  v.push_back ({"shell", "shell", [](p4est_connectivity_t *c, double s) { return p8est_geometry_new_shell (c, 2.5 * s, 1.25 * s); }, 2.5, 1.25, false, 20,
    [](const Conn &m, const Pt &p) { double e[3]; eta_of (p, e); double b = multilinear (m, p.t, e)[2]; return b == 1 ? 1.25 : b == 2 ? 2.5 : -1; }});
  v.push_back ({"sphere", "sphere", [](p4est_connectivity_t *c, double s) { return p8est_geometry_new_sphere (c, 2.5 * s, 1.5 * s, .75 * s); }, 2.5, 0, false, 20, [](const Conn &m, const Pt &p) { return on_boundary (m, p) ? 2.5 : -1; }});
  Geo g {"torus", "torus", [](p4est_connectivity_t *c, double s) { return p8est_geometry_new_torus (c, .5 * s, 1 * s, 3 * s); }, 1, 0, false, 60, [](const Conn &m, const Pt &p) { return on_boundary (m, p) ? 1. : -1; }};
  g.ring = 3;
  v.push_back (g);
#endif
  return v;
}
static void builtin_case (const Geo &G)
{
  auto m = named (G.conn);
  if (!m) { E.bad ("cannot create mesh %s", G.conn.c_str ()); return; }
  HostConn hc (m);
  for (double sc : {1., 4.}) {
    if (!E.sub ()) continue;
    E.describe ([=] { return strf ("geometry %s scaled by %g", G.name.c_str (), sc); });
    E.transition ();
    E.validated ();
    E.run (1, vp::Options (), [&](int) {
      rank_begin ();
      long live = vp::live_blocks (me ());
      p4est_geometry_t *g = G.make (&hc.c, sc), *u = G.make (&hc.c, 1);
      auto at = [&](p4est_geometry_t *k, const Pt &p) {
        p4est_qcoord_t c[D];
        to_coords (p, c);
        double x[3] = {NAN, NAN, NAN};
        p4est_geometry_transform_coordinates (k, p.t, c, x);
        V3 w = V (x);
        if (!finite3 (w)) fail ("position of (%lld,%lld,%lld) in tree %d is %s", (long long) p.x[0], (long long) p.x[1], (long long) p.x[2], p.t, str (w).c_str ());
        return w;
      };
      auto nm = [&](const Pt &p) { return strf ("(%lld,%lld,%lld) in tree %d", (long long) p.x[0], (long long) p.x[1], (long long) p.x[2], p.t); };
      double Ro = G.outer * sc, size = (G.ring > 0 ? G.ring + G.outer : G.outer) * sc;
      double tol = 1e-7 * size;         // square roots near zero lose half of the digits
      std::map<Pt, V3> pos;
      grid (m->nt, 8, true, [&](const Pt &p) {
        V3 x = at (g, p), y = at (u, p);
        for (auto &k : y) k *= sc;
        if (dist (x, y) > tol) fail ("scaling all radii moves %s from %s to %s", nm (p).c_str (), str (y).c_str (), str (x).c_str ());
        double rho = dist (x, {0, 0, 0});
        if (G.ring > 0) rho = dist ({std::hypot (x[0], x[2]) - G.ring * sc, x[1], 0}, {0, 0, 0});
        double want = G.sphere ? Ro : G.radius (*m, p);
        if (want >= 0 && !G.sphere) want *= sc;
        // the segments of a torus have equal angles
        if (G.ring > 0) {
          double e[3], phi = 0;
          eta_of (p, e);
          phi = 2 * M_PI / (m->nt / 5) * (p.t / 5 + e[2]);
          double rr = std::hypot (x[0], x[2]);
          if (std::fabs (x[0] - rr * cos (phi)) > tol || std::fabs (x[2] - rr * sin (phi)) > tol) fail ("%s is at %s, expected the angle %g", nm (p).c_str (), str (x).c_str (), phi);
        }
        if (want >= 0 && std::fabs (rho - want) > tol) fail ("%s is at radius %.12g, expected %.12g", nm (p).c_str (), rho, want);
        if (rho > Ro + tol || (G.inner > 0 && rho < G.inner * sc - tol)) fail ("%s is at radius %.12g, outside of the domain", nm (p).c_str (), rho);
        if (D == 2 && m->verts[2] == 0 && !G.sphere && x[2] != 0) fail ("%s is not in the plane", nm (p).c_str ());
        auto it = pos.insert ({m->canon (p), x});
        if (!it.second && dist (it.first->second, x) > tol) fail ("%s is at %s, but the same point is at %s seen from another tree", nm (p).c_str (), str (x).c_str (), str (it.first->second).c_str ());
      });
      // different points have different positions (points of the regular grid only)
      std::vector<std::pair<V3, Pt>> all;
      for (auto &k : pos) { bool reg = true; for (int d = 0; d < D; ++d) reg = reg && k.first.x[d] % (R / 8) == 0; if (reg) all.push_back ({k.second, k.first}); }
      std::sort (all.begin (), all.end (), [](const auto &a, const auto &b) { return a.first < b.first; });
      for (size_t i = 0; i < all.size (); ++i) for (size_t j = i + 1; j < all.size () && all[j].first[0] - all[i].first[0] < 1e-4 * size; ++j)
        if (dist (all[i].first, all[j].first) < 1e-4 * size) fail ("different points %s and %s have one position %s", nm (all[i].second).c_str (), nm (all[j].second).c_str (), str (all[i].first).c_str ());
      // small steps move the position little
      int64_t st = R >> 20;
      grid (m->nt, D == 2 ? 8 : 4, false, [&](const Pt &p) {
        V3 x = at (g, p);
        for (int d = 0; d < D; ++d) for (int s = -1; s <= 1; s += 2) {
          Pt q = p;
          q.x[d] += s * st;
          if (q.x[d] < 0 || q.x[d] > R) continue;
          double l = dist (at (g, q), x);
          if (l > G.lip * size / (1 << 20)) fail ("a step of 2^-20 from %s in axis %d moves the position by %g", nm (p).c_str (), d, l);
        }
      });
      // many other sizes
      for (int k = 1; sc == 1 && k <= 96; ++k) {
        double z = .0625 + .123 * k;
        p4est_geometry_t *w = G.make (&hc.c, z);
        grid (m->nt, 4, true, [&](const Pt &p) {
          V3 x = at (w, p), y = at (u, p);
          for (auto &i : y) i *= z;
          if (dist (x, y) > tol * z) fail ("scaling all radii by %g moves %s from %s to %s", z, nm (p).c_str (), str (y).c_str (), str (x).c_str ());
        });
        p4est_geometry_destroy (w);
      }
      p4est_geometry_destroy (g);
      p4est_geometry_destroy (u);
      if (vp::live_blocks (me ()) != live) fail ("memory is not freed");
      rank_end ();
    });
  }
  if (!hc.intact ()) E.bad ("coarse mesh modified");
}

// ---------------------------------------------------- (C) coordinates of nodes
static std::vector<std::vector<Pt>> element_points (const Cells &L, const Hang &H, int degree)
{
  int bits;
  auto ps = positions (degree, bits);
  std::vector<std::vector<Pt>> v;
  for (size_t i = 0; i < L.size (); ++i) {
    v.push_back ({});
    for (auto &p : ps) {
      bool h = false;
      for (int f = 0; f < NF; ++f) if (H.face[i][f] && p.r[f / 2] == (f & 1)) h = true;
      for (int e = 0; e < NE; ++e) if (H.edge[i][e]) { int s[3]; edge_fix (e, s); bool on = true; for (int d = 0; d < 3; ++d) if (s[d] >= 0 && p.r[d] != s[d]) on = false; if (on) h = true; }
      Cell c = h ? parent (L[i]) : L[i];
      Pt q;
      q.t = c.t;
      for (int d = 0; d < 3; ++d) q.x[d] = d < D ? c.x[d] + p.p[d] * (c.h () >> bits) : 0;
      v.back ().push_back (q);
    }
  }
  return v;
}
static void lnode_case (HostConn &hc, const Cells &L, const std::vector<int> &g, int degree, int kind)
{
  if (!E.sub ()) return;
  auto m = hc.m;
  int P = (int) g.size () - 1;
  if (kind == 2 && m->verts.empty ()) kind = 1;
  E.describe ([=, &hc] { return strf ("%s cuts %s leaves {%s}: coordinates of nodes of degree %d, %s", m->name.c_str (), str (g).c_str (), str (L).c_str (), degree, kind == 0 ? "no geometry" : kind == 1 ? "custom geometry" : "vertices"); });
  E.transition ();
  E.validated ();
  auto pts = element_points (L, hanging (*m, L), degree);
  auto X = [&](const Pt &p) { double e[3]; eta_of (p, e); return kind == 0 ? V (e) : kind == 1 ? custom (p.t, e) : multilinear (*m, p.t, e); };
  E.run (P, vp::Options (), [&](int) {
    rank_begin ();
    int r = me ();
    p4est_t *p = make_p4est (&hc.c, L, g, 0, NULL);
    long live = vp::live_blocks (r);
    p4est_ghost_t *gh = p4est_ghost_new (p, full_type ());
    p4est_lnodes_t *ln = p4est_lnodes_new (p, gh, degree);
    p4est_ghost_destroy (gh);
    p4est_geometry_t cg, *geom = NULL;
    memset (&cg, 0, sizeof cg);
    cg.name = "custom";
    cg.X = custom_X;
    if (kind == 1) geom = &cg;
    if (kind == 2) geom = p4est_geometry_new_connectivity (&hc.c);
    for (int mode = 0; mode < 2; ++mode) {
      sc_array_t *co = sc_array_new_count (3 * sizeof (double), (size_t) mode), *ec = sc_array_new_count (sizeof (p4est_locidx_t), (size_t) (3 * mode));
      p4est_geometry_coordinates_lnodes (p, ln, NULL, geom, co, mode ? ec : NULL);
      int nv = ln->vnodes, K = g[(size_t) r + 1] - g[(size_t) r];
      auto coord = [&](int k) { return V ((double *) sc_array_index_int (co, k)); };
      if (!mode) {
        if ((int) co->elem_count != ln->num_local_nodes) fail ("%zu coordinates for %d nodes", (size_t) co->elem_count, (int) ln->num_local_nodes);
        std::vector<char> ok ((size_t) ln->num_local_nodes, 0);
        for (int i = 0; i < K; ++i) for (int v = 0; v < nv; ++v) {
          int n = ln->element_nodes[i * nv + v];
          if (close_to (coord (n), X (pts[(size_t) (g[(size_t) r] + i)][(size_t) v]), 1e-13)) ok[(size_t) n] = 1;
        }
        for (int n = 0; n < ln->num_local_nodes; ++n) if (!ok[(size_t) n]) fail ("coordinates %s of node %d are at none of its positions", str (coord (n)).c_str (), n);
      }
      else {
        if ((int) ec->elem_count != K * nv) fail ("%zu element coordinates for %d nodes", (size_t) ec->elem_count, K * nv);
        std::map<Pt, int> id;
        std::vector<char> used (co->elem_count, 0);
        for (int i = 0; i < K; ++i) for (int v = 0; v < nv; ++v) {
          int k = *(p4est_locidx_t *) sc_array_index_int (ec, i * nv + v);
          const Pt &q = pts[(size_t) (g[(size_t) r] + i)][(size_t) v];
          if (k < 0 || k >= (int) co->elem_count) fail ("element coordinate %d of %zu", k, (size_t) co->elem_count);
          if (!close_to (coord (k), X (q), 1e-13)) fail ("node %d of leaf %s is at %s, expected %s", v, str (L[(size_t) (g[(size_t) r] + i)]).c_str (), str (coord (k)).c_str (), str (X (q)).c_str ());
          used[(size_t) k] = 1;
          auto it = id.insert ({q, k});
          if (!it.second && it.first->second != k) fail ("node %d of leaf %s has coordinate %d, but the same location has coordinate %d", v, str (L[(size_t) (g[(size_t) r] + i)]).c_str (), k, it.first->second);
        }
        for (size_t k = 0; k < used.size (); ++k) if (!used[k]) fail ("coordinate %zu is not used", k);
      }
      sc_array_destroy (co);
      sc_array_destroy (ec);
    }
    if (kind == 2) p4est_geometry_destroy (geom);
    p4est_lnodes_destroy (ln);
    if (vp::live_blocks (r) != live) fail ("memory is not freed");
    free_p4est (p);
    rank_end ();
  });
}

// --------------------------------------------------------------- (D) files
struct Opt
{
  int kind = 0;                 // 0 vertices 1 custom 2 geometry of vertices
  double scale = .95;
  bool conti = false, file = false;
  bool tree = true, level = true, rank = true;
  int wrap = 0, cs = 0, cv = 0, ps = 0, pv = 0, ho = 0;
  int call = 0;                 // 0 data 1 dataf 2 datav
  bool pointfirst = false;
  std::string name;             // relative to the scratch directory
  bool relative = false;
};
static std::string str (const Opt &o)
{
  if (o.file) return strf ("write_file, geometry %d, name %s%s", o.kind, o.name.c_str (), o.relative ? " (relative)" : "");
  return strf ("geometry %d scale %g continuous %d tree %d level %d rank %d wrap %d cell data %d+%d point data %d+%d nodes %d call %d%s name %s%s", o.kind, o.scale, o.conti, o.tree, o.level, o.rank, o.wrap, o.cs, o.cv, o.ps, o.pv, o.ho, o.call, o.pointfirst ? " points first" : "", o.name.c_str (), o.relative ? " (relative)" : "");
}
static double cell_value (int i, int k, int j) { return i * 4 + k * .25 + j * 1024 - 7; }
static double ho_pos (int i, int n, int j) { return i * 64 + n * .5 + j * 8192 - 3; }
// values at corners: given by the location for continuous data
static double point_value (const Cells &L, int i, int c, int k, int j, bool conti)
{
  if (!conti) return i * 16 + c + k * .25 + j * 32768 + 1;
  Pt p;
  p.t = L[(size_t) i].t;
  uint64_t h = (uint64_t) p.t + 17;
  for (int d = 0; d < D; ++d) { h ^= (uint64_t) (L[(size_t) i].x[d] + (c >> d & 1) * L[(size_t) i].h ()); h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 31; }
  return (double) (h >> 48) + k * .25 + j * 65536;
}
// index of VTK ordering for node (i,j,k) of n + 1 nodes per axis
static std::vector<std::array<int, 3>> ho_order (int n)
{
  std::vector<std::array<int, 3>> v;
  int zs = D == 3 ? 2 : 1;
  static const int qc[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
  for (int z = 0; z < zs; ++z) for (auto &q : qc) v.push_back ({q[0] * n, q[1] * n, z * n});
  for (int z = 0; z < zs; ++z) {
    for (int i = 1; i < n; ++i) v.push_back ({i, 0, z * n});
    for (int i = 1; i < n; ++i) v.push_back ({n, i, z * n});
    for (int i = 1; i < n; ++i) v.push_back ({i, n, z * n});
    for (int i = 1; i < n; ++i) v.push_back ({0, i, z * n});
  }
  if (D == 2) { for (int j = 1; j < n; ++j) for (int i = 1; i < n; ++i) v.push_back ({i, j, 0}); return v; }
  for (int y = 0; y < 2; ++y) for (int x = 0; x < 2; ++x) for (int k = 1; k < n; ++k) v.push_back ({x * n, y * n, k});
  for (int s = 0; s < 2; ++s) for (int k = 1; k < n; ++k) for (int j = 1; j < n; ++j) v.push_back ({s * n, j, k});
  for (int s = 0; s < 2; ++s) for (int k = 1; k < n; ++k) for (int i = 1; i < n; ++i) v.push_back ({i, s * n, k});
  for (int s = 0; s < 2; ++s) for (int j = 1; j < n; ++j) for (int i = 1; i < n; ++i) v.push_back ({i, j, s * n});
  for (int k = 1; k < n; ++k) for (int j = 1; j < n; ++j) for (int i = 1; i < n; ++i) v.push_back ({i, j, k});
  return v;
}
static p4est_vtk_context_t *cell_datav (p4est_vtk_context_t *c, int t, int l, int r, int w, int ns, int nv, ...)
{
  va_list ap;
  va_start (ap, nv);
  c = p4est_vtk_write_cell_datav (c, t, l, r, w, ns, nv, ap);
  va_end (ap);
  return c;
}
static const char *cell_names[] = {"pressure", "b", "velocity"}, *point_names[] = {"u", "temperature", "flux"};
typedef std::vector<std::pair<std::string, vtk::Array>> Arrays;
static void same_arrays (const Arrays &meta, const Arrays &piece, const char *what)
{
  std::map<std::string, std::pair<std::string, int>> a, b;
  for (auto &k : meta) if (!a.insert ({k.first, {k.second.type, k.second.comps}}).second) vtk::err (strf ("two arrays %s of %s", k.first.c_str (), what));
  for (auto &k : piece) if (!b.insert ({k.first, {k.second.type, k.second.comps}}).second) vtk::err (strf ("two arrays %s of %s", k.first.c_str (), what));
  if (a != b) {
    std::string s, t;
    for (auto &k : a) s += strf (" %s:%s:%d", k.first.c_str (), k.second.first.c_str (), k.second.second);
    for (auto &k : b) t += strf (" %s:%s:%d", k.first.c_str (), k.second.first.c_str (), k.second.second);
    vtk::err (strf ("%s: meta file has%s, piece has%s", what, s.c_str (), t.c_str ()));
  }
}
static const vtk::Array &arr (const Arrays &a, const std::string &n, int comps) { for (auto &k : a) if (k.first == n) { if (k.second.comps != comps) vtk::err ("wrong components of " + n); return k.second; } vtk::err ("no array " + n); }
static bool real (const vtk::Array &a) { return a.type == "Float32" || a.type == "Float64"; }
// meta file, visit file and names of pieces
static std::vector<std::string> piece_files (const std::string &base, int P, vtk::Meta &M)
{
  std::string dir = base.substr (0, base.rfind ('/') + 1), nm = base.substr (base.rfind ('/') + 1);
  M = vtk::read_meta (base + ".pvtu");
  if ((int) M.pieces.size () != P) vtk::err (strf ("%zu pieces for %d processes", M.pieces.size (), P));
  std::vector<std::string> v;
  std::set<std::string> want {nm + ".pvtu", nm + ".visit"}, have;
  for (int p = 0; p < P; ++p) {
    std::string s = strf ("%s_%04d.vtu", nm.c_str (), p);
    want.insert (s);
    std::string q = M.pieces[(size_t) p];
    if (q.empty ()) vtk::err ("piece without a name");
    if (q[0] != '/') q = dir + q;
    // resolve and compare
    char a[4096], b[4096];
    if (!realpath (q.c_str (), a)) vtk::err (strf ("piece %s named in the meta file does not exist", M.pieces[(size_t) p].c_str ()));
    if (!realpath ((dir + s).c_str (), b)) vtk::err (strf ("no file %s", s.c_str ()));
    if (strcmp (a, b)) vtk::err (strf ("piece %d is %s, expected %s", p, M.pieces[(size_t) p].c_str (), s.c_str ()));
    v.push_back (b);
  }
  std::string vs = vtk::slurp (base + ".visit"), exp = strf ("!NBLOCKS %d\n", P);
  size_t pos = exp.size ();
  if (vs.compare (0, pos, exp)) vtk::err ("visit file begins with " + vs.substr (0, pos));
  for (int p = 0; p < P; ++p) {
    size_t e = vs.find ('\n', pos);
    if (e == std::string::npos) vtk::err ("visit file too short");
    std::string q = vs.substr (pos, e - pos);
    if (!q.empty () && q[0] != '/') q = dir + q;
    char a[4096];
    if (!realpath (q.c_str (), a) || v[(size_t) p] != a) vtk::err (strf ("block %d in the visit file is %s", p, vs.substr (pos, e - pos).c_str ()));
    pos = e + 1;
  }
  if (pos != vs.size ()) vtk::err ("visit file too long");
  DIR *d = opendir (dir.c_str ());
  while (struct dirent *e = readdir (d)) if (e->d_name[0] != '.') have.insert (e->d_name);
  closedir (d);
  if (have != want) { std::string s; for (auto &k : have) s += " " + k; vtk::err ("files are" + s); }
  return v;
}
static void check_floats (const vtk::Array &a, size_t n, const std::function<double (size_t)> &f, const char *what)
{
  if (!real (a)) vtk::err (strf ("type of %s is %s", what, a.type.c_str ()));
  double tol = a.type == "Float32" ? 2e-7 : 1e-14;
  if (a.v.size () != n) vtk::err (strf ("%zu values of %s, expected %zu", a.v.size (), what, n));
  for (size_t i = 0; i < n; ++i) { double w = f (i); if (!(std::fabs (a.v[i] - w) <= tol * (std::fabs (w) + 1))) vtk::err (strf ("value %zu of %s is %.9g, expected %.9g", i, what, a.v[i], w)); }
}
static void check_ints (const vtk::Array &a, size_t n, const std::function<int (size_t)> &f, const char *what)
{
  if (real (a) || a.comps != 1) vtk::err (strf ("type of %s is %s", what, a.type.c_str ()));
  for (size_t i = 0; i < n; ++i) if (a.v[i] != f (i)) vtk::err (strf ("%s of cell %zu is %g, expected %d", what, i, a.v[i], f (i)));
}
static void check_files (const std::string &base, const Conn &m, const Cells &L, const std::vector<int> &g, const Opt &o)
{
  int P = (int) g.size () - 1;
  vtk::Meta M;
  auto fs = piece_files (base, P, M);
  if (M.points.size () != 1 || M.points[0].second.comps != 3) vtk::err ("points of the meta file");
  auto X = [&](int t, const double *e) { return o.kind == 1 ? custom (t, e) : multilinear (m, t, e); };
  auto order = o.ho ? ho_order (o.ho - 1) : std::vector<std::array<int, 3>> ();
  for (int p = 0; p < P; ++p) {
    vtk::Piece q = vtk::read_piece (fs[(size_t) p]);
    int lo = g[(size_t) p], K = g[(size_t) p + 1] - lo, cpc = o.ho ? (int) order.size () : NC;
    std::string who = strf ("piece %d: ", p);
    if ((int) q.nc != K) vtk::err (who + strf ("%zu cells for %d leaves", q.nc, K));
    if (M.points[0].second.type != q.points.type || !real (q.points)) vtk::err (who + "type of points");
    if (o.ho || o.scale < 1 || !o.conti ? (int) q.np != K * cpc : (int) q.np > K * cpc) vtk::err (who + strf ("%zu points for %d leaves", q.np, K));
    if ((int) q.conn.v.size () != K * cpc) vtk::err (who + "size of connectivity");
    for (int i = 0; i < K; ++i) {
      if (q.offs.v[(size_t) i] != (i + 1) * cpc) vtk::err (who + "offsets of cells");
      if (q.types.v[(size_t) i] != (o.ho ? (D == 2 ? 70 : 72) : (D == 2 ? 8 : 11))) vtk::err (who + strf ("type of cell %d is %g", i, q.types.v[(size_t) i]));
    }
    std::vector<char> used (q.np, 0);
    for (int i = 0; i < K; ++i) for (int c = 0; c < cpc; ++c) {
      double id = q.conn.v[(size_t) (i * cpc + c)];
      if (id < 0 || id >= (double) q.np) vtk::err (who + "connectivity out of range");
      size_t n = (size_t) id;
      used[n] = 1;
      const Cell &l = L[(size_t) (lo + i)];
      V3 have = V (&q.points.v[3 * n]), want;
      int src = c;                      // position of the node in the arrays given
      if (o.ho) {
        src = (order[(size_t) c][2] * o.ho + order[(size_t) c][1]) * o.ho + order[(size_t) c][0];
        for (int j = 0; j < 3; ++j) want[(size_t) j] = j < D ? ho_pos (lo + i, src, j) : 0;
      }
      else {
        double e[3] = {0, 0, 0};
        for (int d = 0; d < D; ++d) e[d] = ((double) l.x[d] + .5 * (double) l.h () * (1 + (c >> d & 1 ? 1 : -1) * o.scale)) / (double) R;
        want = X (l.t, e);
      }
      double tol = q.points.type == "Float32" ? 1e-6 : 1e-13;
      if (!close_to (have, want, tol)) vtk::err (who + strf ("point %d of leaf %s is at %s, expected %s", c, str (l).c_str (), str (have).c_str (), str (want).c_str ()));
      for (int k = 0; k < o.ps + o.pv; ++k) {
        int comps = k < o.ps ? 1 : 3;
        auto &a = arr (q.point, point_names[k < o.ps ? k : 2], comps);
        for (int j = 0; j < comps; ++j) {
          double w = o.ho ? ho_pos (lo + i, src, j) + k + .5 : point_value (L, lo + i, c, k, j, o.conti);
          double x = a.v[n * (size_t) comps + (size_t) j];
          if (!real (a) || std::fabs (x - w) > 2e-7 * std::fabs (w)) vtk::err (who + strf ("point data %d component %d at point %d of leaf %s is %.9g, expected %.9g", k, j, c, str (l).c_str (), x, w));
        }
      }
    }
    for (size_t n = 0; n < q.np; ++n) if (!used[n]) vtk::err (who + strf ("point %zu is not used", n));
    same_arrays (M.cell, q.cell, "cell data");
    same_arrays (M.point, q.point, "point data");
    if ((int) q.cell.size () != o.tree + o.level + o.rank + o.cs + o.cv || (int) q.point.size () != o.ps + o.pv) vtk::err (who + strf ("%zu cell arrays and %zu point arrays", q.cell.size (), q.point.size ()));
    if (o.tree) check_ints (arr (q.cell, "treeid", 1), (size_t) K, [&](size_t i) { return L[(size_t) lo + i].t; }, "treeid");
    if (o.level) check_ints (arr (q.cell, "level", 1), (size_t) K, [&](size_t i) { return L[(size_t) lo + i].l; }, "level");
    if (o.rank) check_ints (arr (q.cell, "mpirank", 1), (size_t) K, [&](size_t) { return o.wrap ? p % o.wrap : p; }, "mpirank");
    for (int k = 0; k < o.cs + o.cv; ++k) {
      size_t comps = k < o.cs ? 1 : 3;
      const char *nm = cell_names[k < o.cs ? k : 2];
      check_floats (arr (q.cell, nm, (int) comps), (size_t) K * comps, [&](size_t i) { return cell_value (lo + (int) (i / comps), k, (int) (i % comps)); }, nm);
    }
  }
}
static void clean (const std::string &dir)
{
  if (DIR *d = opendir (dir.c_str ())) {
    std::vector<std::string> v;
    while (struct dirent *e = readdir (d)) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..")) v.push_back (dir + "/" + e->d_name);
    closedir (d);
    for (auto &s : v) if (unlink (s.c_str ())) { clean (s); rmdir (s.c_str ()); }
  }
}
static std::string scratch () { std::string s = E.scratch + "/vtk"; mkdir (s.c_str (), 0700); return s; }
static void vtk_case (HostConn &hc, const Cells &L, const std::vector<int> &g, Opt o)
{
  if (!E.sub ()) return;
  auto m = hc.m;
  int P = (int) g.size () - 1;
  if (m->verts.empty ()) o.kind = 1;
  if (o.file) { o.scale = .95; o.conti = true; o.tree = o.level = o.rank = true; o.wrap = o.cs = o.cv = o.ps = o.pv = o.ho = 0; }
  E.describe ([=] { return strf ("%s cuts %s leaves {%s}: %s", m->name.c_str (), str (g).c_str (), L.size () > 100 ? strf ("%zu", L.size ()).c_str () : str (L).c_str (), str (o).c_str ()); });
  E.transition ();
  E.validated ();
  std::string dir = scratch ();
  static std::string base, arg;
  base = dir + "/" + o.name;
  arg = o.relative ? o.name : base;
  char cwd[4096] = "";
  E.run (P, vp::Options (), [&](int) {
    rank_begin ();
    int r = me (), lo = g[(size_t) r], K = g[(size_t) r + 1] - lo;
    p4est_t *p = make_p4est (&hc.c, L, g, 0, NULL);
    long live = vp::live_blocks (r);
    p4est_geometry_t cg, *geom = NULL;
    memset (&cg, 0, sizeof cg);
    cg.name = "custom";
    cg.X = custom_X;
    if (o.kind == 1) geom = &cg;
    if (o.kind == 2) geom = p4est_geometry_new_connectivity (&hc.c);
    if (o.file) p4est_vtk_write_file (p, geom, arg.c_str ());
    else {
      std::string copy = arg;
      p4est_vtk_context_t *c = p4est_vtk_context_new (p, copy.c_str ());
      copy.assign (copy.size (), '#');
      if (o.kind) p4est_vtk_context_set_geom (c, geom);
      if (o.scale != .95) p4est_vtk_context_set_scale (c, o.scale);
      if (o.conti) p4est_vtk_context_set_continuous (c, 1);
      int npe = NC;
      if (o.ho) {
        npe = 1;
        for (int d = 0; d < D; ++d) npe *= o.ho;
        sc_array_t *ps = sc_array_new_count (sizeof (double), (size_t) (K * npe * D));
        for (int i = 0; i < K * npe * D; ++i) *(double *) sc_array_index_int (ps, i) = ho_pos (lo + i / D / npe, i / D % npe, i % D);
        if (p4est_vtk_write_header_ho (c, ps, o.ho) != c) fail ("write_header_ho fails");
        sc_array_destroy (ps);
      }
      else if (p4est_vtk_write_header (c) != c) fail ("write_header fails");
      auto points = [&] {
        sc_array_t *a[3];
        const char *nm[3];
        int n = o.ps + o.pv;
        for (int k = 0; k < n; ++k) {
          int comps = k < o.ps ? 1 : 3;
          nm[k] = point_names[k < o.ps ? k : 2];
          a[k] = sc_array_new_count (sizeof (double), (size_t) (K * npe * comps));
          for (int i = 0; i < K * npe; ++i) for (int j = 0; j < comps; ++j)
            *(double *) sc_array_index_int (a[k], i * comps + j) = o.ho ? ho_pos (lo + i / npe, i % npe, j) + k + .5 : point_value (L, lo + i / NC, i % NC, k, j, o.conti);
        }
        p4est_vtk_context_t *b = n == 0 ? p4est_vtk_write_point_dataf (c, o.ps, o.pv, c) : n == 1 ? p4est_vtk_write_point_dataf (c, o.ps, o.pv, nm[0], a[0], c)
          : n == 2 ? p4est_vtk_write_point_dataf (c, o.ps, o.pv, nm[0], a[0], nm[1], a[1], c) : p4est_vtk_write_point_dataf (c, o.ps, o.pv, nm[0], a[0], nm[1], a[1], nm[2], a[2], c);
        if (b != c) fail ("write_point_dataf fails");
        for (int k = 0; k < n; ++k) sc_array_destroy (a[k]);
      };
      auto cells = [&] {
        sc_array_t *a[3];
        const char *nm[3];
        int n = o.cs + o.cv;
        for (int k = 0; k < n; ++k) {
          int comps = k < o.cs ? 1 : 3;
          nm[k] = cell_names[k < o.cs ? k : 2];
          a[k] = sc_array_new_count (sizeof (double), (size_t) (K * comps));
          for (int i = 0; i < K * comps; ++i) *(double *) sc_array_index_int (a[k], i) = cell_value (lo + i / comps, k, i % comps);
        }
        p4est_vtk_context_t *b;
        int t = o.tree, l = o.level, q = o.rank, w = o.wrap;
        if (o.call == 0) b = p4est_vtk_write_cell_data (c, t, l, q, w, o.cs, o.cv, nm, a);
        else {
          auto f = o.call == 1 ? p4est_vtk_write_cell_dataf : cell_datav;
          b = n == 0 ? f (c, t, l, q, w, o.cs, o.cv, c) : n == 1 ? f (c, t, l, q, w, o.cs, o.cv, nm[0], a[0], c)
            : n == 2 ? f (c, t, l, q, w, o.cs, o.cv, nm[0], a[0], nm[1], a[1], c) : f (c, t, l, q, w, o.cs, o.cv, nm[0], a[0], nm[1], a[1], nm[2], a[2], c);
        }
        if (b != c) fail ("write_cell_data fails");
        for (int k = 0; k < n; ++k) sc_array_destroy (a[k]);
      };
      if (o.pointfirst) points ();
      cells ();
      if (!o.pointfirst) points ();
      if (p4est_vtk_write_footer (c)) fail ("write_footer fails");
    }
    if (o.kind == 2) p4est_geometry_destroy (geom);
    if (vp::live_blocks (r) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (r) - live);
    check_p4est (p, L, g, 0, "after writing");
    free_p4est (p);
    rank_end ();
  }, [&] {
    clean (dir);
    for (size_t i = 0; (i = o.name.find ('/', i)) != std::string::npos; ++i) mkdir ((dir + "/" + o.name.substr (0, i)).c_str (), 0700);
    if (o.relative) { if (!getcwd (cwd, sizeof cwd) || chdir (dir.c_str ())) E.bad ("chdir"); }
  }, [&] {
    if (o.relative && chdir (cwd)) E.bad ("chdir");
    try { check_files (base, *m, L, g, o); }
    catch (vtk::Err &e) { E.bad ("%s", e.s.c_str ()); }
  });
  clean (dir);
}
static Opt pick (int k, int P)
{
  Opt o;
  static const double sc[] = {1, .95, .5};
  o.kind = k % 3;
  o.scale = sc[k / 3 % 3];
  o.conti = k / 2 % 2;
  o.file = k % 11 == 10;
  o.tree = (k / 5) % 4 != 3;
  o.level = (k / 7) % 3 != 2;
  o.rank = (k / 3) % 4 != 1;
  o.wrap = k / 4 % 4 == 3 ? P : k / 4 % 4;
  if (!o.rank && !o.tree && !o.level) o.wrap = 0;
  o.cs = k / 2 % 3;
  o.cv = k / 6 % 2;
  o.ps = k / 3 % 3;
  o.pv = k / 5 % 2;
  o.ho = k % 5 == 4 ? 2 + k / 5 % 3 : 0;
  o.call = k % 3;
  o.pointfirst = k / 8 % 2;
  static const char *nm[] = {"out", "a.b/c/forest", "x_0001", "deep/er.pvtu"};
  o.name = nm[k % 4];
  o.relative = k / 4 % 2;
  return o;
}
// files that cannot be opened
static void broken_case (HostConn &hc, const Cells &L, int P, int kind, int use)
{
  if (!E.sub ()) return;
  auto m = hc.m;
  static const char *what[] = {"directory missing", "a piece cannot be created", "the meta file cannot be created", "the visit file cannot be created"};
  E.describe ([=] { return strf ("%s on %d processes: %s, %s", m->name.c_str (), P, what[kind], use == 2 ? "higher order" : use ? "continuous" : "discontinuous"); });
  E.transition ();
  E.validated ();
  std::string dir = scratch ();
  static std::string base;
  base = dir + (kind == 0 ? "/none/f" : "/f");
  std::vector<int> g;
  for (int p = 0; p <= P; ++p) g.push_back ((int) L.size () * p / P);
  E.run (P, vp::Options (), [&](int) {
    rank_begin ();
    int r = me ();
    p4est_t *p = make_p4est (&hc.c, L, g, 0, NULL);
    long live = vp::live_blocks (r);
    p4est_geometry_t cg;
    memset (&cg, 0, sizeof cg);
    cg.X = custom_X;
    p4est_vtk_context_t *c = p4est_vtk_context_new (p, base.c_str ());
    p4est_vtk_context_set_geom (c, &cg);
    p4est_vtk_context_set_scale (c, 1.);
    p4est_vtk_context_set_continuous (c, use);
    bool dead = kind == 0 || (kind == 1 && r == P - 1) || (kind > 1 && r == 0);
    p4est_vtk_context_t *b;
    if (use == 2) {
      sc_array_t *ps = sc_array_new_count (sizeof (double), (size_t) (p->local_num_quadrants * NC * D));
      for (size_t i = 0; i < ps->elem_count; ++i) *(double *) sc_array_index (ps, i) = 1;
      b = p4est_vtk_write_header_ho (c, ps, 2);
      sc_array_destroy (ps);
    }
    else b = p4est_vtk_write_header (c);
    if (dead ? b != NULL : b != c) fail ("write_header returns %s", b ? "a context" : "NULL");
    if (b) p4est_vtk_context_destroy (b);
    if (vp::live_blocks (r) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (r) - live);
    free_p4est (p);
    rank_end ();
  }, [&] {
    clean (dir);
    if (kind == 1) mkdir (strf ("%s_%04d.vtu", base.c_str (), P - 1).c_str (), 0700);
    if (kind == 2) mkdir ((base + ".pvtu").c_str (), 0700);
    if (kind == 3) mkdir ((base + ".visit").c_str (), 0700);
  });
  clean (dir);
}

#ifndef P4_TO_P8
// ------------------------------------------------------ (E) extruded forests
static V3 extrude (const Conn &m, const std::vector<double> &top, const double *h, int t, const double *e, double z)
{
  V3 a = multilinear (m, t, e), b;
  if (top.empty ()) b = {a[0] + h[0], a[1] + h[1], a[2] + h[2]};
  else { Conn k = m; k.verts = top; b = multilinear (k, t, e); }
  V3 r;
  for (size_t j = 0; j < 3; ++j) r[j] = (1 - z) * a[j] + z * b[j];
  return r;
}
static double value6 (int n, int c, int k) { return n * 16 + c + k * .25 - 5; }
static void vtk6_case (HostConn &hc, const Cols &C, const std::vector<int> &g, int64_t H, int k)
{
  if (!E.sub ()) return;
  auto m = hc.m;
  int P = (int) g.size () - 1;
  bool file = k % 7 == 6, tree = k % 3 != 1, rank = k % 4 != 2;
  static const double scs[] = {1, .95, .5, 0};
  static const char *nms[] = {"out", "a.b/c/forest", "x_0001"};
  double sc = file ? 1 : scs[k / 2 % 4];
  int wrap = file ? 0 : k / 3 % 3, ns = file ? 0 : k % 3;
  if (file) tree = rank = true;
  std::string name = nms[k % 3];
  bool relative = k / 2 % 2;
  double h[3] = {.25, -.5, 1.5};
  std::vector<double> top;
  if (k / 4 % 2) for (size_t i = 0; i < m->verts.size (); ++i) top.push_back (m->verts[i] * 1.5 + (double) (i % 3) + .125 * (double) (i % 7));
  E.describe ([=] { return strf ("%s cuts %s columns {%s}: extruded %s, %s scale %g tree %d rank %d wrap %d scalars %d name %s%s", m->name.c_str (), str (g).c_str (), C.size () > 50 ? "many" : str (C).c_str (), top.empty () ? "by a vector" : "to top vertices", file ? "write_file" : "write_all", sc, tree, rank, wrap, ns, name.c_str (), relative ? " (relative)" : ""); });
  E.transition ();
  E.validated ();
  std::string dir = scratch ();
  static std::string base, arg;
  base = dir + "/" + name;
  arg = relative ? name : base;
  char cwd[4096] = "";
  E.run (P, vp::Options (), [&](int) {
    rank_begin ();
    int r = me ();
    p6est_t *p = make_p6est (&hc.c, C, g, H, 0, NULL);
    for (int j = 0; j < 3; ++j) p->connectivity->height[j] = h[j];
    if (!top.empty ()) { p->connectivity->top_vertices = P4EST_ALLOC (double, top.size ()); std::copy (top.begin (), top.end (), p->connectivity->top_vertices); }
    long live = vp::live_blocks (r);
    int first = layers_in (C, 0, g[(size_t) r]), n = layers_in (C, g[(size_t) r], g[(size_t) r + 1]);
    std::vector<double> v[2];
    for (int s = 0; s < 2; ++s) for (int i = 0; i < 8 * n + 1; ++i) v[s].push_back (value6 (first + i / 8, i % 8, s));
    if (file) p6est_vtk_write_file (p, arg.c_str ());
    else if (ns == 0) p6est_vtk_write_all (p, sc, tree, rank, wrap, 0, 0, arg.c_str ());
    else if (ns == 1) p6est_vtk_write_all (p, sc, tree, rank, wrap, 1, 0, arg.c_str (), "u", v[0].data ());
    else p6est_vtk_write_all (p, sc, tree, rank, wrap, 2, 0, arg.c_str (), "u", v[0].data (), "temperature", v[1].data ());
    if (vp::live_blocks (r) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (r) - live);
    // the map itself
    for (int i = g[(size_t) r]; i < g[(size_t) r + 1]; ++i) {
      int64_t z = 0;
      for (int l : C[(size_t) i].lv) {
        for (int c = 0; c < 8; ++c) {
          const Cell &q = C[(size_t) i].c;
          int64_t x[3] = {q.x[0] + (c & 1) * q.h (), q.x[1] + (c >> 1 & 1) * q.h (), z + (c >> 2) * len (l)};
          double e[3] = {(double) x[0] / (double) R, (double) x[1] / (double) R, 0}, y[3];
          p6est_qcoord_to_vertex (p->connectivity, q.t, (p4est_qcoord_t) x[0], (p4est_qcoord_t) x[1], (p4est_qcoord_t) x[2], y);
          V3 w = extrude (*m, top, h, q.t, e, (double) x[2] / (double) R);
          if (!close_to (V (y), w, 1e-13)) fail ("corner %d of a layer of %s is at %s, expected %s", c, str (q).c_str (), str (V (y)).c_str (), str (w).c_str ());
        }
        z += len (l);
      }
    }
    for (int t = 0; t < m->nt; ++t) {
      double y[24];
      p6est_tree_get_vertices (p->connectivity, t, y);
      for (int c = 0; c < 8; ++c) {
        double e[3] = {(double) (c & 1), (double) (c >> 1 & 1), 0};
        V3 w = extrude (*m, top, h, t, e, c >> 2);
        if (!close_to (V (y + 3 * c), w, 1e-13)) fail ("vertex %d of tree %d is at %s, expected %s", c, t, str (V (y + 3 * c)).c_str (), str (w).c_str ());
      }
    }
    free_p6est (p);
    rank_end ();
  }, [&] {
    clean (dir);
    for (size_t i = 0; (i = name.find ('/', i)) != std::string::npos; ++i) mkdir ((dir + "/" + name.substr (0, i)).c_str (), 0700);
    if (relative) { if (!getcwd (cwd, sizeof cwd) || chdir (dir.c_str ())) E.bad ("chdir"); }
  }, [&] {
    if (relative && chdir (cwd)) E.bad ("chdir");
    try {
      vtk::Meta M;
      auto fs = piece_files (base, P, M);
      for (int p = 0; p < P; ++p) {
        vtk::Piece q = vtk::read_piece (fs[(size_t) p]);
        int lo = layers_in (C, 0, g[(size_t) p]), K = layers_in (C, g[(size_t) p], g[(size_t) p + 1]), n = 0;
        std::string who = strf ("piece %d: ", p);
        if ((int) q.nc != K || (int) q.np != 8 * K) vtk::err (who + strf ("%zu cells %zu points for %d layers", q.nc, q.np, K));
        if (M.points.size () != 1 || M.points[0].second.type != q.points.type || !real (q.points)) vtk::err (who + "type of points");
        same_arrays (M.cell, q.cell, "cell data");
        same_arrays (M.point, q.point, "point data");
        if ((int) q.cell.size () != tree + rank || (int) q.point.size () != ns) vtk::err (who + strf ("%zu cell arrays and %zu point arrays", q.cell.size (), q.point.size ()));
        std::vector<int> trees;
        for (int i = g[(size_t) p]; i < g[(size_t) p + 1]; ++i) {
          int64_t z = 0;
          const Cell &l = C[(size_t) i].c;
          for (int zl : C[(size_t) i].lv) {
            trees.push_back (l.t);
            if (q.offs.v[(size_t) n] != 8 * (n + 1) || q.types.v[(size_t) n] != 11) vtk::err (who + "offset or type of a cell");
            for (int c = 0; c < 8; ++c) {
              size_t id = (size_t) q.conn.v[(size_t) (8 * n + c)];
              if (id >= q.np) vtk::err (who + "connectivity out of range");
              double e[3] = {0, 0, 0};
              for (int d = 0; d < 2; ++d) e[d] = ((double) l.x[d] + .5 * (double) l.h () * (1 + (c >> d & 1 ? 1 : -1) * sc)) / (double) R;
              double ez = ((double) z + .5 * (double) len (zl) * (1 + (c >> 2 ? 1 : -1) * sc)) / (double) R;
              V3 w = extrude (*m, top, h, l.t, e, ez), have = V (&q.points.v[3 * id]);
              if (!close_to (have, w, q.points.type == "Float32" ? 1e-6 : 1e-13)) vtk::err (who + strf ("point %d of layer %d is at %s, expected %s", c, n, str (have).c_str (), str (w).c_str ()));
              for (int s = 0; s < ns; ++s) {
                auto &a = arr (q.point, s ? "temperature" : "u", 1);
                double x = value6 (lo + n, c, s);
                if (!real (a) || std::fabs (a.v[id] - x) > 2e-7 * std::fabs (x)) vtk::err (who + strf ("point data %d at point %d of layer %d is %g, expected %g", s, c, n, a.v[id], x));
              }
            }
            ++n;
            z += len (zl);
          }
        }
        if ((int) q.conn.v.size () != 8 * K) vtk::err (who + "size of connectivity");
        if (tree) check_ints (arr (q.cell, "treeid", 1), (size_t) K, [&](size_t i) { return trees[i]; }, "treeid");
        if (rank) check_ints (arr (q.cell, "mpirank", 1), (size_t) K, [&](size_t) { return wrap ? p % wrap : p; }, "mpirank");
      }
    }
    catch (vtk::Err &e) { E.bad ("%s", e.s.c_str ()); }
  });
  clean (dir);
}
#endif

void enumerate ()
{
  bool th = E.thorough;
  static int rot = 0;
  // (A)
  E.stage ("multilinear map of every mesh, with its own and with generic vertices");
  for (auto nm : conn_names ()) {
    if (!E.take ()) continue;
    auto m = named (nm);
    if (!m) { E.bad ("cannot create mesh %s", nm.c_str ()); continue; }
    E.state ();
    if (!m->verts.empty ()) linear_case (m);
    linear_case (generic_vertices (*m));
  }
  // (B)
  E.stage ("analytic maps on a grid of points of every tree");
  for (auto &G : builtin ()) { if (!E.take ()) continue; E.state (); builtin_case (G); }
  // (C)
  {
    SpaceOpt o;
    o.bal = 0;
    o.cap = th ? 200 : 40;
    o.K1 = D == 2 ? 4 : 2;
    o.K4 = o.Kn = D == 2 ? 2 : 1;
    o.twoK = D == 2 ? 2 : 1;
    o.twocap = th ? 40 : D == 2 ? 6 : 2;
    o.chains = false;
    spaces (o, [&](HostConn &hc, const Cells &L) {
      std::shared_ptr<Conn> gm;
      parts (L, 1, 3, th ? 20 : D == 2 ? 4 : 2, [&](int, const std::vector<int> &g) {
        int k = rot++;
        lnode_case (hc, L, g, 1 + k % 2, k / 2 % 3);
      });
    });
  }
  // (D)
  {
    SpaceOpt o;
    o.cap = th ? 200 : D == 2 ? 30 : 8;
    o.K1 = D == 2 ? 3 : 2;
    o.K4 = o.Kn = D == 2 ? 2 : 1;
    o.twoK = 1;
    o.twocap = th ? 40 : 1;
    o.chains = false;
    o.touch = false;
    rot = 0;
    spaces (o, [&](HostConn &hc, const Cells &L) {
      auto gm = generic_vertices (*hc.m);
      HostConn hg (gm);
      parts (L, 1, 4, th ? 20 : 3, [&](int P, const std::vector<int> &g) {
        int k = rot++;
        vtk_case (k % 2 ? hg : hc, L, g, pick (k, P));
      });
    });
    E.stage ("all combinations of options");
    auto m = named (D == 2 ? "periodic" : "twocubes");
    Cells L = reachable (uniform (m->nt, 0), 2, 3, 100).back ();
    auto gm = generic_vertices (*m);
    HostConn hc (gm);
    for (int k = 0; k < (th ? 3960 : 660); ++k) {
      if (!E.take ()) continue;
      E.state ();
      int n = (int) L.size ();
      Opt a = pick (k, 2);
      vtk_case (hc, L, k % 3 ? std::vector<int> {0, n / 2, n} : std::vector<int> {0, 0, 1, n}, a);
    }
  }
  E.stage ("large forests: data of many blocks");
  {
    auto m = named ("unit");
    HostConn hc (m);
    int l = D == 2 ? 6 : 4;
    Cells L = uniform (1, l);
    int n = (int) L.size ();
    for (int k = 0; k < 6; ++k) {
      if (!E.take ()) continue;
      E.state ();
      Opt o = pick (k * 7 + 1, 3);
      o.scale = 1;
      o.conti = k & 1;
      o.ho = k == 5 ? 3 : 0;
      o.file = false;
      o.ps = o.cs = 1;
      vtk_case (hc, L, k % 3 == 0 ? std::vector<int> {0, n} : k % 3 == 1 ? std::vector<int> {0, n / 4, n / 2, n} : std::vector<int> {0, n / 2 + 1, n}, o);
    }
  }
  E.stage ("files that cannot be created");
  {
    auto m = named ("unit");
    HostConn hc (m);
    for (int P = 1; P <= 3; ++P) for (int kind = 0; kind < 4; ++kind) for (int use = 0; use < 3; ++use) {
      if (!E.take ()) continue;
      E.state ();
      broken_case (hc, uniform (1, 1), P, kind, use);
    }
  }
#ifndef P4_TO_P8
  // (E)
  rot = 0;
  for (auto nm : {"unit", "periodic", "moebius", "star", "disk2d", "cubed", "brick221"}) {
    auto m = named (nm);
    if (!m) continue;
    E.stage ("%s: extruded forests", nm);
    auto gm = generic_vertices (*m);
    HostConn hc (m), hg (gm);
    auto fs = reachable (uniform (m->nt, 0), m->nt == 1 ? 3 : 2, 4, th ? 100 : 12);
    for (int n : {1, 3}) for (auto &L : fs) {
      int r0 = rot++ * 13;
      if (!E.take ()) continue;
      E.state ();
      auto pr = profiles (n, 3);
      parts (L, 1, 3, th ? 20 : 3, [&](int, const std::vector<int> &g) {
        int k = r0++;
        Cols C;
        for (auto &c : L) C.push_back ({c, pr[(size_t) (key6 (c, 1, 1, (uint64_t) k) % pr.size ())]});
        vtk6_case (k & 1 ? hg : hc, C, g, root_height (n), k);
      });
    }
  }
#endif
}
