// Conversions between the reference model and p4est objects, and the check
// that a p4est object is internally consistent and equals a model forest.
#pragma once
#include "ref/model.hh"
#include "ref/engine.hh"
#if VP_DIM == 3
#include <p4est_to_p8est.h>
#include <p8est.h>
#include <p8est_bits.h>
#include <p8est_extended.h>
#include <p8est_communication.h>
#include <p8est_algorithms.h>
#define VP_MPICOMM sc_MPI_COMM_WORLD
#else
#include <p4est.h>
#include <p4est_bits.h>
#include <p4est_extended.h>
#include <p4est_communication.h>
#include <p4est_algorithms.h>
#endif
#include <cstring>
#include <functional>

namespace br
{
using namespace ref;
using vp::fail;
using vp::E;
using vp::strf;

inline void rank_begin ()
{
  sc_init (sc_MPI_COMM_WORLD, 0, 0, NULL, vp::verbose ? SC_LP_DEFAULT : SC_LP_SILENT);
  p4est_init (NULL, vp::verbose ? SC_LP_DEFAULT : SC_LP_SILENT);
}

inline void rank_end () { sc_mpi_comm_detach_node_comms (sc_MPI_COMM_WORLD); }

// ------------------------------------------------------------- quadrants
inline p4est_quadrant_t to_quad (const Cell &c)
{
  p4est_quadrant_t q;
  memset (&q, 0, sizeof q);
  q.x = (p4est_qcoord_t) c.x[0];
  q.y = (p4est_qcoord_t) c.x[1];
#ifdef P4_TO_P8
  q.z = (p4est_qcoord_t) c.x[2];
#endif
  q.level = (int8_t) c.l;
  return q;
}
inline Cell to_cell (const p4est_quadrant_t &q, int t)
{
  Cell c;
  c.t = t;
  c.x[0] = q.x;
  c.x[1] = q.y;
#ifdef P4_TO_P8
  c.x[2] = q.z;
#endif
  c.l = q.level;
  return c;
}
inline bool same (const p4est_quadrant_t &q, const Cell &c)
{
  return q.level == c.l && q.x == c.x[0] && q.y == c.x[1]
#ifdef P4_TO_P8
    && q.z == c.x[2]
#endif
    ;
}

// ------------------------------------------------------------- coarse meshes
inline std::shared_ptr<Conn> model_of (const p4est_connectivity_t *c, const std::string &name)
{
  auto m = std::make_shared<Conn> ();
  m->name = name;
  m->nt = c->num_trees;
  if (c->num_vertices > 0) { m->verts.assign (c->vertices, c->vertices + 3 * c->num_vertices); m->ttv.assign (c->tree_to_vertex, c->tree_to_vertex + NC * c->num_trees); }
  m->ttt.assign (c->tree_to_tree, c->tree_to_tree + NF * c->num_trees);
  m->ttf.assign (c->tree_to_face, c->tree_to_face + NF * c->num_trees);
#ifdef P4_TO_P8
  m->ett_off.assign (c->ett_offset, c->ett_offset + c->num_edges + 1);
  if (c->num_edges > 0) {
    m->tte.assign (c->tree_to_edge, c->tree_to_edge + 12 * c->num_trees);
    int n = c->ett_offset[c->num_edges];
    m->ett.assign (c->edge_to_tree, c->edge_to_tree + n);
    m->ete.assign (c->edge_to_edge, c->edge_to_edge + n);
  }
#endif
  m->ctt_off.assign (c->ctt_offset, c->ctt_offset + c->num_corners + 1);
  if (c->num_corners > 0) {
    m->ttc.assign (c->tree_to_corner, c->tree_to_corner + NC * c->num_trees);
    int n = c->ctt_offset[c->num_corners];
    m->ctt.assign (c->corner_to_tree, c->corner_to_tree + n);
    m->ctc.assign (c->corner_to_corner, c->corner_to_corner + n);
  }
  return m;
}
inline bool conn_equal (const Conn &a, const Conn &b, bool geometry = true)
{
  return a.nt == b.nt && a.ttt == b.ttt && a.ttf == b.ttf && a.tte == b.tte && a.ett_off == b.ett_off && a.ett == b.ett && a.ete == b.ete
    && a.ttc == b.ttc && a.ctt_off == b.ctt_off && a.ctt == b.ctt && a.ctc == b.ctc && (!geometry || (a.verts == b.verts && a.ttv == b.ttv));
}
// A p4est_connectivity_t in host memory that the ranks share read-only.
struct HostConn
{
  std::shared_ptr<const Conn> m;
  std::vector<double> verts;
  std::vector<p4est_topidx_t> ttv, ttt, tte, eoff, ett, ttc, coff, ctt;
  std::vector<int8_t> ttf, ete, ctc;
  p4est_connectivity_t c;
  explicit HostConn (std::shared_ptr<const Conn> k) : m (k) { fill (); }
  HostConn (const HostConn &o) = delete;
  void fill ()
  {
    verts = m->verts;
    auto cp = [](auto &d, const std::vector<int> &s) { d.assign (s.begin (), s.end ()); };
    cp (ttv, m->ttv); cp (ttt, m->ttt); cp (ttf, m->ttf); cp (tte, m->tte); cp (eoff, m->ett_off); cp (ett, m->ett); cp (ete, m->ete);
    cp (ttc, m->ttc); cp (coff, m->ctt_off); cp (ctt, m->ctt); cp (ctc, m->ctc);
    memset (&c, 0, sizeof c);
    c.num_vertices = (p4est_topidx_t) (verts.size () / 3);
    c.num_trees = m->nt;
    if (coff.empty ()) coff.push_back (0);
    if (eoff.empty ()) eoff.push_back (0);
    c.num_corners = (p4est_topidx_t) coff.size () - 1;
    c.vertices = verts.empty () ? nullptr : verts.data ();
    c.tree_to_vertex = verts.empty () ? nullptr : ttv.data ();
    c.tree_to_tree = ttt.data ();
    c.tree_to_face = ttf.data ();
#ifdef P4_TO_P8
    c.num_edges = (p4est_topidx_t) eoff.size () - 1;
    c.ett_offset = eoff.data ();
    if (c.num_edges) { c.tree_to_edge = tte.data (); c.edge_to_tree = ett.data (); c.edge_to_edge = ete.data (); }
#endif
    c.ctt_offset = coff.data ();
    if (c.num_corners) { c.tree_to_corner = ttc.data (); c.corner_to_tree = ctt.data (); c.corner_to_corner = ctc.data (); }
  }
  bool intact () const { return conn_equal (*m, *model_of (&c, "")); }
};
// Run fn on one rank to obtain a coarse mesh made by the library.
inline std::shared_ptr<Conn> get_conn (const std::string &name, const std::function<p4est_connectivity_t *()> &fn)
{
  std::shared_ptr<Conn> m;
  vp::Trace tr;
  auto o = vp::run_world (1, vp::Options (), tr, [&](int) {
    rank_begin ();
    p4est_connectivity_t *c = fn ();
    if (c) { m = model_of (c, name); p4est_connectivity_destroy (c); }
  });
  if (o.kind != vp::OK) { m = nullptr; }
  return m;
}
#ifdef P4_TO_P8
inline std::shared_ptr<Conn> brick (int a, int b, int c, int pa, int pb, int pc) { return get_conn (strf ("brick%dx%dx%d-%d%d%d", a, b, c, pa, pb, pc), [=] { return p8est_connectivity_new_brick (a, b, c, pa, pb, pc); }); }
#else
inline std::shared_ptr<Conn> brick (int a, int b, int pa, int pb) { return get_conn (strf ("brick%dx%d-%d%d", a, b, pa, pb), [=] { return p4est_connectivity_new_brick (a, b, pa, pb); }); }
#endif
inline std::shared_ptr<Conn> twotrees (int l, int r, int o) { return get_conn (strf ("twotrees%d-%d-%d", l, r, o), [=] { return p4est_connectivity_new_twotrees (l, r, o); }); }
inline std::shared_ptr<Conn> named (const std::string &n)
{
  if (n == "brick221") {
#ifdef P4_TO_P8
    return brick (2, 2, 1, 0, 0, 0);
#else
    return brick (2, 2, 0, 0);
#endif
  }
  if (n == "brick321p") {
#ifdef P4_TO_P8
    return brick (3, 2, 1, 1, 0, 1);
#else
    return brick (3, 2, 1, 0);
#endif
  }
  return get_conn (n, [=]() -> p4est_connectivity_t * {
#ifdef P4_TO_P8
    if (n == "torus") return p8est_connectivity_new_torus (3);
    if (n == "drop") return p8est_connectivity_new_drop ();
#else
    if (n == "drop") return p4est_connectivity_new_drop ();
    if (n == "circle") return p4est_connectivity_new_circle ();
    if (n == "disk_p") return p4est_connectivity_new_disk (1, 1);
    if (n == "disk_np") return p4est_connectivity_new_disk_nonperiodic ();
#endif
    return p4est_connectivity_new_byname (n.c_str ());
  });
}
inline std::vector<std::string> conn_names ()
{
#ifdef P4_TO_P8
  return {"unit", "periodic", "twocubes", "drop", "twowrap", "rotcubes", "rotwrap", "pillow", "shell", "sphere", "torus", "brick221", "brick321p"};
#else
  return {"unit", "periodic", "rotwrap", "corner", "pillow", "moebius", "star", "cubed", "disk_np", "disk_p", "icosahedron", "shell2d", "disk2d", "bowtie", "circle", "drop", "brick221", "brick321p"};
#endif
}

// Meshes whose trees meet in an edge or corner only; not made by the library.
inline std::shared_ptr<Conn> touching (int kind)
{
  auto m = std::make_shared<Conn> ();
  m->nt = 2;
  for (int t = 0; t < 2; ++t) for (int f = 0; f < NF; ++f) { m->ttt.push_back (t); m->ttf.push_back (f); }
  m->ctt_off = {0};
  if (D == 3) m->ett_off = {0};
  if (kind < 2) {                       // corner
    int a = NC - 1, b = kind ? NC - 1 : 1;
    m->name = strf ("corner%d-%d", a, b);
    m->ttc.assign (2 * NC, -1);
    m->ttc[a] = m->ttc[NC + b] = 0;
    m->ctt_off.push_back (2);
    m->ctt = {0, 1};
    m->ctc = {a, b};
  }
  else {                                // 3D edge, equal or opposite direction
    int a = 7, b = kind == 2 ? 8 : 5, o = kind == 2 ? 1 : 0;
    m->name = strf ("edge%d-%d-%d", a, b, o);
    m->tte.assign (24, -1);
    m->tte[a] = m->tte[12 + b] = 0;
    m->ett_off.push_back (2);
    m->ett = {0, 1};
    m->ete = {a, b + 12 * o};
  }
  return m;
}

// ------------------------------------------------------------- forests
// Data attached to leaf i of the global numbering: deterministic bytes.
inline void data_fill (unsigned char *d, size_t n, const Cell &c)
{
  uint64_t h = 1469598103934665603ULL;
  auto mix = [&](uint64_t v) { for (int k = 0; k < 8; ++k) { h ^= v >> (8 * k) & 255; h *= 1099511628211ULL; } };
  mix ((uint64_t) c.t); mix ((uint64_t) c.x[0]); mix ((uint64_t) c.x[1]); mix ((uint64_t) c.x[2]); mix ((uint64_t) c.l);
  for (size_t i = 0; i < n; ++i) { d[i] = (unsigned char) (h >> 32); h = h * 6364136223846793005ULL + 1442695040888963407ULL; }
}
inline bool data_ok (const void *d, size_t n, const Cell &c)
{
  unsigned char b[256];
  data_fill (b, n, c);
  return !memcmp (b, d, n);
}

// Build a p4est_t directly (not through the code under test).
inline p4est_t *make_p4est (p4est_connectivity_t *conn, const Cells &L, const std::vector<int> &g, size_t data_size, void *user, sc_MPI_Comm comm = sc_MPI_COMM_WORLD)
{
  int P, r;
  sc_MPI_Comm_size (comm, &P);
  sc_MPI_Comm_rank (comm, &r);
  p4est_t *p = P4EST_ALLOC_ZERO (p4est_t, 1);
  p->mpicomm = comm;
  p->mpisize = P;
  p->mpirank = r;
  p->data_size = data_size;
  p->user_pointer = user;
  p->connectivity = conn;
  int lo = g[r], hi = g[r + 1];
  p->first_local_tree = lo < hi ? L[lo].t : -1;
  p->last_local_tree = lo < hi ? L[hi - 1].t : -2;
  p->local_num_quadrants = hi - lo;
  p->global_num_quadrants = (p4est_gloidx_t) L.size ();
  p->global_first_quadrant = P4EST_ALLOC (p4est_gloidx_t, P + 1);
  p->global_first_position = P4EST_ALLOC_ZERO (p4est_quadrant_t, P + 1);
  for (int i = 0; i <= P; ++i) {
    p->global_first_quadrant[i] = g[i];
    p4est_quadrant_t *q = &p->global_first_position[i];
    if (g[i] < (int) L.size ()) { *q = to_quad (L[g[i]]); q->p.which_tree = L[g[i]].t; }
    else q->p.which_tree = conn->num_trees;
    q->level = P4EST_QMAXLEVEL;
  }
  p->user_data_pool = data_size > 0 ? sc_mempool_new (data_size) : NULL;
  p->quadrant_pool = sc_mempool_new (sizeof (p4est_quadrant_t));
  p->trees = sc_array_new_count (sizeof (p4est_tree_t), (size_t) conn->num_trees);
  int off = 0, i = lo;
  for (int t = 0; t < conn->num_trees; ++t) {
    p4est_tree_t *tr = (p4est_tree_t *) sc_array_index (p->trees, (size_t) t);
    memset (tr, 0, sizeof *tr);
    sc_array_init (&tr->quadrants, sizeof (p4est_quadrant_t));
    P4EST_QUADRANT_INIT (&tr->first_desc);
    P4EST_QUADRANT_INIT (&tr->last_desc);
    for (int l = 0; l <= P4EST_MAXLEVEL; ++l) tr->quadrants_per_level[l] = l <= P4EST_QMAXLEVEL ? 0 : -1;
    tr->quadrants_offset = off;
    int b = i;
    while (i < hi && L[i].t == t) ++i;
    if (i > b) {
      sc_array_resize (&tr->quadrants, (size_t) (i - b));
      for (int k = b; k < i; ++k) {
        p4est_quadrant_t *q = (p4est_quadrant_t *) sc_array_index (&tr->quadrants, (size_t) (k - b));
        *q = to_quad (L[k]);
        if (data_size > 0) {
          q->p.user_data = sc_mempool_alloc (p->user_data_pool);
          data_fill ((unsigned char *) q->p.user_data, data_size, L[k]);
        }
        else q->p.user_data = NULL;
        tr->quadrants_per_level[L[k].l]++;
        if (L[k].l > tr->maxlevel) tr->maxlevel = (int8_t) L[k].l;
      }
      tr->first_desc = to_quad (first_desc (L[b], QMAX));
      tr->last_desc = to_quad (last_desc (L[i - 1], QMAX));
    }
    off += i - b;
  }
  return p;
}
inline void free_p4est (p4est_t *p) { p4est_destroy (p); }

// local leaves of a p4est
inline Cells leaves_of (p4est_t *p)
{
  Cells v;
  for (size_t t = 0; t < p->trees->elem_count; ++t) {
    p4est_tree_t *tr = (p4est_tree_t *) sc_array_index (p->trees, t);
    for (size_t k = 0; k < tr->quadrants.elem_count; ++k) v.push_back (to_cell (*(p4est_quadrant_t *) sc_array_index (&tr->quadrants, k), (int) t));
  }
  return v;
}
inline p4est_quadrant_t *local_quad (p4est_t *p, int i)
{
  for (size_t t = 0; t < p->trees->elem_count; ++t) {
    p4est_tree_t *tr = (p4est_tree_t *) sc_array_index (p->trees, t);
    if (i < (int) tr->quadrants.elem_count) return (p4est_quadrant_t *) sc_array_index (&tr->quadrants, (size_t) i);
    i -= (int) tr->quadrants.elem_count;
  }
  return nullptr;
}
// Check p against global leaves L cut by g; everything stored must agree.
// data: 0 ignore, 1 every leaf carries data_fill of its own cell
inline void check_p4est (p4est_t *p, const Cells &L, const std::vector<int> &g, int data, const char *what)
{
  int r = p->mpirank, P = p->mpisize;
  int lo = g[r], hi = g[r + 1];
  Cells got = leaves_of (p);
  Cells want (L.begin () + lo, L.begin () + hi);
  if (got != want) {
    Cells a, b;
    std::set<Cell> sg (got.begin (), got.end ()), sw (want.begin (), want.end ());
    for (auto &c : got) if (!sw.count (c)) a.push_back (c);
    for (auto &c : want) if (!sg.count (c)) b.push_back (c);
    fail ("%s: local leaves include {%s} instead of {%s}; they are {%s}, expected {%s}", what, str (a).c_str (), str (b).c_str (), str (got).c_str (), str (want).c_str ());
  }
  if (p->local_num_quadrants != hi - lo) fail ("%s: local_num_quadrants %d expected %d", what, (int) p->local_num_quadrants, hi - lo);
  if (p->global_num_quadrants != (p4est_gloidx_t) L.size ()) fail ("%s: global_num_quadrants %lld expected %zu", what, (long long) p->global_num_quadrants, L.size ());
  int ft = lo < hi ? L[lo].t : -1, lt = lo < hi ? L[hi - 1].t : -2;
  if (p->first_local_tree != ft || p->last_local_tree != lt) fail ("%s: local trees %d..%d expected %d..%d", what, (int) p->first_local_tree, (int) p->last_local_tree, ft, lt);
  for (int i = 0; i <= P; ++i) {
    if (p->global_first_quadrant[i] != g[i]) fail ("%s: global_first_quadrant[%d] = %lld expected %d", what, i, (long long) p->global_first_quadrant[i], g[i]);
    const p4est_quadrant_t &q = p->global_first_position[i];
    Cell c;
    if (g[i] < (int) L.size ()) c = L[g[i]];
    else c.t = p->connectivity->num_trees;
    c.l = P4EST_QMAXLEVEL;
    if (!same (q, c) || q.p.which_tree != c.t) fail ("%s: global_first_position[%d] is %s expected %s", what, i, str (to_cell (q, q.p.which_tree)).c_str (), str (c).c_str ());
  }
  if ((int) p->trees->elem_count != p->connectivity->num_trees) fail ("%s: number of trees", what);
  int off = 0, i = lo;
  for (int t = 0; t < p->connectivity->num_trees; ++t) {
    p4est_tree_t *tr = (p4est_tree_t *) sc_array_index (p->trees, (size_t) t);
    int b = i;
    while (i < hi && L[i].t == t) ++i;
    if ((int) tr->quadrants.elem_count != i - b) fail ("%s: tree %d has %zu quadrants expected %d", what, t, tr->quadrants.elem_count, i - b);
    if (tr->quadrants_offset != off) fail ("%s: tree %d quadrants_offset %d expected %d", what, t, (int) tr->quadrants_offset, off);
    int pl[P4EST_MAXLEVEL + 1] = {0}, ml = 0;
    for (int k = b; k < i; ++k) { pl[L[k].l]++; ml = std::max (ml, L[k].l); }
    for (int l = 0; l <= P4EST_MAXLEVEL; ++l) {
      int e = l <= P4EST_QMAXLEVEL ? pl[l] : -1;
      if (tr->quadrants_per_level[l] != e) fail ("%s: tree %d quadrants_per_level[%d] = %d expected %d", what, t, l, (int) tr->quadrants_per_level[l], e);
    }
    if (tr->maxlevel != ml) fail ("%s: tree %d maxlevel %d expected %d", what, t, tr->maxlevel, ml);
    if (i > b) {
      if (!same (tr->first_desc, first_desc (L[b], QMAX))) fail ("%s: tree %d first_desc", what, t);
      if (!same (tr->last_desc, last_desc (L[i - 1], QMAX))) fail ("%s: tree %d last_desc", what, t);
    }
    for (int k = b; k < i; ++k) {
      p4est_quadrant_t *q = (p4est_quadrant_t *) sc_array_index (&tr->quadrants, (size_t) (k - b));
      if (data == 1 && p->data_size > 0 && !data_ok (q->p.user_data, p->data_size, L[k])) fail ("%s: data of leaf %s is not preserved", what, str (L[k]).c_str ());
    }
    off += i - b;
  }
  if ((p->data_size > 0) != (p->user_data_pool != NULL)) fail ("%s: user_data_pool", what);
  if (p->data_size > 0 && p->user_data_pool->elem_count != (size_t) (hi - lo)) fail ("%s: user_data_pool holds %zu elements expected %d", what, p->user_data_pool->elem_count, hi - lo);
  if (p->quadrant_pool->elem_count != 0) fail ("%s: quadrant_pool holds %zu elements expected 0", what, p->quadrant_pool->elem_count);
}
// the partition after changing leaves such that every leaf stays on the
// process that owned its region
inline std::vector<int> inherit_cuts (const Cells &oldL, const std::vector<int> &g, const Cells &newL)
{
  std::vector<int> h (g.size (), 0);
  h.back () = (int) newL.size ();
  for (size_t p = 1; p + 1 < g.size (); ++p) {
    if (g[p] >= (int) oldL.size ()) { h[p] = (int) newL.size (); continue; }
    const Cell &c = oldL[g[p]];
    // first new leaf whose position is >= position of c
    int k = 0;
    while (k < (int) newL.size () && (newL[k].t < c.t || (newL[k].t == c.t && zcmp_pt (newL[k].x, c.x) < 0))) ++k;
    h[p] = k;
  }
  return h;
}
}
