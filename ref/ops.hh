// The parallel operations of the library on a given forest, each reduced to a
// digest of everything it returns on a process.
#pragma once
#include "ref/spaces.hh"
#ifdef P4_TO_P8
#include <p8est_build.h>
#include <p8est_ghost.h>
#include <p8est_io.h>
#include <p8est_iterate.h>
#include <p8est_lnodes.h>
#include <p8est_mesh.h>
#include <p8est_nodes.h>
#include <p8est_plex.h>
#include <p8est_points.h>
#include <p8est_search.h>
#include <p8est_vtk.h>
#include <p8est_wrap.h>
#else
#include <p4est_build.h>
#include <p4est_ghost.h>
#include <p4est_io.h>
#include <p4est_iterate.h>
#include <p4est_lnodes.h>
#include <p4est_mesh.h>
#include <p4est_nodes.h>
#include <p4est_plex.h>
#include <p4est_points.h>
#include <p4est_search.h>
#include <p4est_vtk.h>
#include <p4est_wrap.h>
#include <p6est.h>
#include <p6est_extended.h>
#include <p6est_ghost.h>
#include <p6est_lnodes.h>
#endif
#include <sc_io.h>
#include <unistd.h>

namespace ops
{
using namespace br;
struct Digest
{
  std::string s;
  void i (long v) { s.append ((const char *) &v, sizeof v); }
  void b (const void *p, size_t n) { i ((long) n); if (n) s.append ((const char *) p, n); }
  template <class T> void v (const T *p, size_t n) { i ((long) n); for (size_t k = 0; k < n; ++k) s.append ((const char *) (p + k), sizeof (T)); }
  void mark (const char *m) { s += m; }
  void q (const p4est_quadrant_t *q)
  {
    i (q->x); i (q->y);
#ifdef P4_TO_P8
    i (q->z);
#endif
    i (q->level);
  }
  void array (sc_array_t *a) { i ((long) a->elem_count); b (a->array, a->elem_count * a->elem_size); }
  void forest (p4est_t *p)
  {
    mark ("forest");
    i (p->first_local_tree); i (p->last_local_tree); i (p->local_num_quadrants); i (p->global_num_quadrants);
    v (p->global_first_quadrant, (size_t) p->mpisize + 1);
    for (int k = 0; k <= p->mpisize; ++k) { q (&p->global_first_position[k]); i (p->global_first_position[k].p.which_tree); }
    for (size_t t = 0; t < p->trees->elem_count; ++t) {
      p4est_tree_t *tr = p4est_tree_array_index (p->trees, (p4est_topidx_t) t);
      i ((long) tr->quadrants.elem_count); i (tr->quadrants_offset); i (tr->maxlevel);
      for (size_t k = 0; k < tr->quadrants.elem_count; ++k) {
        p4est_quadrant_t *x = p4est_quadrant_array_index (&tr->quadrants, k);
        q (x);
        if (p->data_size) b (x->p.user_data, p->data_size);
      }
    }
  }
  void pq (sc_array_t *a) { for (size_t k = 0; k < a->elem_count; ++k) { p4est_quadrant_t *x = p4est_quadrant_array_index (a, k); q (x); i (x->p.piggy3.which_tree); i (x->p.piggy3.local_num); } }
  void ghost (p4est_ghost_t *g)
  {
    mark ("ghost");
    pq (&g->ghosts);
    v (g->tree_offsets, (size_t) g->num_trees + 1);
    v (g->proc_offsets, (size_t) g->mpisize + 1);
    pq (&g->mirrors);
    v (g->mirror_tree_offsets, (size_t) g->num_trees + 1);
    v (g->mirror_proc_offsets, (size_t) g->mpisize + 1);
    v (g->mirror_proc_mirrors, (size_t) g->mirror_proc_offsets[g->mpisize]);
    if (g->mirror_proc_front_offsets) {
      v (g->mirror_proc_front_offsets, (size_t) g->mpisize + 1);
      v (g->mirror_proc_fronts, (size_t) g->mirror_proc_front_offsets[g->mpisize]);
    }
  }
  template <class T> void lnodes (T *l)
  {
    mark ("lnodes");
    i (l->num_local_nodes); i (l->owned_count); i (l->global_offset); i (l->num_local_elements); i (l->vnodes);
    for (int k = 0; k < l->num_local_elements; ++k) i (l->face_code[k]);
    v (l->element_nodes, (size_t) l->num_local_elements * (size_t) l->vnodes);
    v (l->nonlocal_nodes, (size_t) (l->num_local_nodes - l->owned_count));
    if (l->sharers) {
      i ((long) l->sharers->elem_count);
      for (size_t k = 0; k < l->sharers->elem_count; ++k) {
        p4est_lnodes_rank_t *r = (p4est_lnodes_rank_t *) sc_array_index (l->sharers, k);
        i (r->rank); i (r->shared_mine_offset); i (r->shared_mine_count); i (r->owned_offset); i (r->owned_count);
        array (&r->shared_nodes);
      }
    }
  }
  void nodes (p4est_nodes_t *n, int P)
  {
    mark ("nodes");
    i (n->num_local_quadrants); i (n->num_owned_indeps); i (n->num_owned_shared); i (n->offset_owned_indeps);
    for (size_t k = 0; k < n->indep_nodes.elem_count; ++k) { p4est_indep_t *x = (p4est_indep_t *) sc_array_index (&n->indep_nodes, k); i (x->x); i (x->y); i (x->p.piggy3.which_tree); i (x->p.piggy3.local_num); }
    i ((long) n->face_hangings.elem_count);
    v (n->local_nodes, (size_t) n->num_local_quadrants * P4EST_CHILDREN);
    v (n->global_owned_indeps, (size_t) P);
    i ((long) n->shared_indeps.elem_count);
    v (n->shared_offsets, n->shared_offsets ? n->indep_nodes.elem_count : 0);
    v (n->nonlocal_ranks, n->nonlocal_ranks ? n->indep_nodes.elem_count - (size_t) n->num_owned_indeps : 0);
  }
  void mesh (p4est_mesh_t *m)
  {
    mark ("mesh");
    size_t n = (size_t) m->local_num_quadrants;
    i (m->local_num_quadrants); i (m->ghost_num_quadrants);
    if (m->quad_to_tree) v (m->quad_to_tree, n);
    v (m->ghost_to_proc, (size_t) m->ghost_num_quadrants);
    v (m->quad_to_quad, n * P4EST_FACES);
    v (m->quad_to_face, n * P4EST_FACES);
    array (m->quad_to_half);
    if (m->quad_level) for (int l = 0; l <= P4EST_QMAXLEVEL; ++l) array (m->quad_level + l);
#ifdef P4_TO_P8
    if (m->quad_to_edge) { v (m->quad_to_edge, n * 12); array (m->edge_offset); array (m->edge_quad); array (m->edge_edge); }
#endif
    if (m->quad_to_corner) { v (m->quad_to_corner, n * P4EST_CHILDREN); array (m->corner_offset); array (m->corner_quad); array (m->corner_corner); }
  }
  void file (const char *name)
  {
    FILE *f = fopen (name, "rb");
    mark ("file");
    if (!f) { mark ("missing"); return; }
    std::string c;
    char buf[4096];
    size_t k;
    while ((k = fread (buf, 1, sizeof buf, f)) > 0) c.append (buf, k);
    fclose (f);
    b (c.data (), c.size ());
  }
};

// everything an operation may use
struct Ctx
{
  p4est_connectivity_t *conn;
  const Cells *L;
  std::vector<int> g;
  int me, P;
  int variant;
  std::string dir;              // scratch directory
  Digest d;
  sc_MPI_Comm comm;
  p4est_t *make (size_t ds = 5) { return make_p4est (conn, *L, g, ds, this, comm); }
};
inline unsigned hash (const p4est_quadrant_t *q, int t)
{
  uint64_t h = 0x9E3779B97F4A7C15ULL * (uint64_t) (t + 1);
  auto mix = [&](uint64_t x) { h ^= x + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; };
  mix ((uint64_t) q->x);
  mix ((uint64_t) q->y);
#ifdef P4_TO_P8
  mix ((uint64_t) q->z);
#endif
  mix ((uint64_t) q->level);
  return (unsigned) (h >> 20);
}
inline int level_cap = 4;
extern "C" {
inline void cb_init (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q) { if (p->data_size) data_fill ((unsigned char *) q->p.user_data, p->data_size, to_cell (*q, t)); }
inline int cb_refine (p4est_t *, p4est_topidx_t t, p4est_quadrant_t *q) { return q->level < level_cap && hash (q, t) % 4 == 0; }
inline int cb_coarsen (p4est_t *, p4est_topidx_t t, p4est_quadrant_t *q[]) { return !q[1] ? 0 : hash (q[0], t) % 2 == 0; }
inline int cb_weight (p4est_t *, p4est_topidx_t t, p4est_quadrant_t *q) { return (int) (hash (q, t) % 5); }
}

// ----------------------------------------------------------- operations
typedef void (*OpFn) (Ctx &);

inline void op_new (Ctx &c)
{
  p4est_t *p = p4est_new_ext (c.comm, c.conn, c.variant % 3 == 0 ? 0 : 5, c.variant % 2 ? 1 : 0, c.variant % 3 == 2, 5, cb_init, NULL);
  c.d.forest (p);
  p4est_t *q = p4est_copy_ext (p, c.variant % 2, c.variant / 2 % 2);
  p4est_reset_data (q, 3, cb_init, NULL);
  c.d.forest (q);
  p4est_destroy (p);
  p4est_destroy (q);
}
inline void op_adapt (Ctx &c)
{
  p4est_t *p = c.make ();
  p4est_refine_ext (p, c.variant % 2, level_cap, cb_refine, cb_init, NULL);
  c.d.forest (p);
  p4est_balance (p, btypes ()[(size_t) c.variant % btypes ().size ()].first, cb_init);
  c.d.forest (p);
  p4est_partition (p, c.variant % 2, c.variant % 3 ? cb_weight : NULL);
  c.d.forest (p);
  p4est_coarsen_ext (p, c.variant % 2, c.variant / 2 % 2, cb_coarsen, cb_init, NULL);
  c.d.forest (p);
  c.d.i (p4est_checksum (p));
  p4est_destroy (p);
}
inline void op_balance (Ctx &c)
{
  p4est_t *p = c.make ();
  p4est_inspect_t ins;
  memset (&ins, 0, sizeof ins);
  ins.use_balance_ranges = c.variant % 2;
  ins.use_balance_ranges_notify = c.variant / 2 % 2;
  ins.use_balance_verify = c.variant / 4 % 2;
  ins.balance_max_ranges = c.variant % 3;
  if (c.variant % 5 != 4) p->inspect = &ins;
  p4est_balance (p, btypes ()[(size_t) c.variant % btypes ().size ()].first, cb_init);
  p->inspect = NULL;
  c.d.forest (p);
  p4est_destroy (p);
}
inline void op_partition (Ctx &c)
{
  p4est_t *p = c.make (c.variant % 4 == 3 ? 0 : 5);
  int n = (int) c.L->size ();
  p4est_gloidx_t moved = 0;
  if (c.variant % 3 == 0) moved = p4est_partition_ext (p, c.variant / 3 % 2, NULL);
  else if (c.variant % 3 == 1) moved = p4est_partition_ext (p, c.variant / 3 % 2, cb_weight);
  else {
    std::vector<p4est_locidx_t> k ((size_t) c.P);
    int left = n;
    for (int r = 0; r < c.P; ++r) { int x = r == c.P - 1 ? left : (c.variant * 7 + r * 5) % (left + 1); k[(size_t) r] = x; left -= x; }
    moved = p4est_partition_given (p, k.data ());
  }
  c.d.i (moved);
  c.d.forest (p);
  p4est_destroy (p);
}
inline void op_transfer (Ctx &c)
{
  int n = (int) c.L->size ();
  std::vector<p4est_gloidx_t> a (c.g.begin (), c.g.end ()), b (a.size ());
  for (int r = 0; r <= c.P; ++r) b[(size_t) r] = r == 0 ? 0 : r == c.P ? n : std::min<long> (n, (long) b[(size_t) r - 1] + (c.variant * 3 + r * 7) % (n + 1));
  size_t na = (size_t) (a[(size_t) c.me + 1] - a[(size_t) c.me]), nb = (size_t) (b[(size_t) c.me + 1] - b[(size_t) c.me]);
  auto val = [&](long i) { return (unsigned char) (i * 37 + 11); };
  std::vector<unsigned char> s (na * 3), d (nb * 3, 0xEE);
  for (size_t i = 0; i < na * 3; ++i) s[i] = val ((long) a[(size_t) c.me] * 3 + (long) i);
  std::vector<int> ss (na), ds (nb);
  auto sz = [&](long i) { return (int) ((i * 5 + c.variant) % 4); };
  size_t ts = 0, td = 0;
  for (size_t i = 0; i < na; ++i) ts += (size_t) (ss[i] = sz ((long) (a[(size_t) c.me] + (long) i)));
  for (size_t i = 0; i < nb; ++i) td += (size_t) (ds[i] = sz ((long) (b[(size_t) c.me] + (long) i)));
  std::vector<unsigned char> vs (ts), vd (td, 0xEE);
  size_t o = 0;
  for (size_t i = 0; i < na; ++i) for (int k = 0; k < ss[i]; ++k) vs[o++] = (unsigned char) (val ((long) (a[(size_t) c.me] + (long) i)) + k);
  std::vector<short> ws (ts), wd (td, 0x1111);
  for (size_t i = 0; i < ts; ++i) ws[i] = (short) (vs[i] * 3);
  // three transfers overlap
  auto *t1 = p4est_transfer_fixed_begin (b.data (), a.data (), c.comm, 3, d.data (), s.data (), 3);
  auto *t2 = p4est_transfer_custom_begin (b.data (), a.data (), c.comm, 4, vd.data (), ds.data (), vs.data (), ss.data ());
  auto *t3 = p4est_transfer_items_begin (b.data (), a.data (), c.comm, 5, wd.data (), ds.data (), ws.data (), ss.data (), 2);
  if (c.variant % 2) { p4est_transfer_items_end (t3); p4est_transfer_fixed_end (t1); p4est_transfer_custom_end (t2); }
  else { p4est_transfer_fixed_end (t1); p4est_transfer_custom_end (t2); p4est_transfer_items_end (t3); }
  c.d.b (d.data (), d.size ());
  c.d.b (vd.data (), vd.size ());
  c.d.b (wd.data (), wd.size () * 2);
  std::vector<unsigned char> d2 (nb * 3, 0xEE);
  p4est_transfer_fixed (b.data (), a.data (), c.comm, 3, d2.data (), s.data (), 3);
  c.d.b (d2.data (), d2.size ());
}
inline void op_ghost (Ctx &c)
{
  p4est_t *p = c.make ();
  p4est_ghost_t *g = p4est_ghost_new (p, btypes ()[(size_t) c.variant % btypes ().size ()].first);
  c.d.ghost (g);
  for (int k = 0; k < 1 + c.variant % 2; ++k) { p4est_ghost_expand (p, g); c.d.ghost (g); }
  c.d.i (p4est_ghost_is_valid (p, g));
  c.d.i (p4est_ghost_checksum (p, g));
  p4est_ghost_destroy (g);
  g = p4est_ghost_new_local (p, full_type ());
  c.d.i ((long) g->ghosts.elem_count);
  p4est_ghost_destroy (g);
  p4est_destroy (p);
}
inline void op_exchange (Ctx &c)
{
  p4est_t *p = c.make ();
  p4est_ghost_t *g = p4est_ghost_new (p, full_type ());
  if (c.variant % 3 == 2) p4est_ghost_expand (p, g);
  size_t ng = g->ghosts.elem_count, nm = g->mirrors.elem_count;
  std::vector<unsigned char> a (ng * 5, 0xEE), b (ng * 7, 0xEE), e (ng * 3, 0xEE);
  std::vector<unsigned char> ms (nm * 7);
  std::vector<void *> mp (nm);
  for (size_t i = 0; i < nm; ++i) { p4est_quadrant_t *q = p4est_quadrant_array_index (&g->mirrors, i); data_fill (&ms[i * 7], 7, to_cell (*q, q->p.piggy3.which_tree)); mp[i] = &ms[i * 7]; }
  auto *x = p4est_ghost_exchange_data_begin (p, g, a.data ());
  auto *y = p4est_ghost_exchange_custom_begin (p, g, 7, mp.data (), b.data ());
  auto *z = p4est_ghost_exchange_custom_levels_begin (p, g, c.variant % 2, 2 + c.variant % 2, 3, mp.data (), e.data ());
  if (c.variant % 2) { p4est_ghost_exchange_custom_levels_end (z); p4est_ghost_exchange_data_end (x); p4est_ghost_exchange_custom_end (y); }
  else { p4est_ghost_exchange_data_end (x); p4est_ghost_exchange_custom_end (y); p4est_ghost_exchange_custom_levels_end (z); }
  c.d.b (a.data (), a.size ());
  c.d.b (b.data (), b.size ());
  c.d.b (e.data (), e.size ());
  p4est_ghost_exchange_data (p, g, a.data ());
  c.d.b (a.data (), a.size ());
  p4est_ghost_destroy (g);
  p4est_destroy (p);
}
inline p4est_t *make_balanced (Ctx &c)
{
  p4est_t *p = c.make ();
  p4est_balance (p, full_type (), cb_init);
  return p;
}
inline void share (Ctx &c, p4est_lnodes_t *l)
{
  size_t n = (size_t) l->num_local_nodes;
  sc_array_t *a = sc_array_new_count (sizeof (long), n), *b = sc_array_new_count (sizeof (int), n);
  for (size_t i = 0; i < n; ++i) { *(long *) sc_array_index (a, i) = i < (size_t) l->owned_count ? (long) (l->global_offset + (p4est_gloidx_t) i) * 3 : -1; *(int *) sc_array_index (b, i) = (int) (p4est_lnodes_global_index (l, (int) i) * 7 + c.me); }
  p4est_lnodes_buffer_t *x = p4est_lnodes_share_owned_begin (a, l);
  p4est_lnodes_buffer_t *y = p4est_lnodes_share_all_begin (b, l);
  if (c.variant % 2) { p4est_lnodes_share_owned_end (x); p4est_lnodes_share_all_end (y); }
  else { p4est_lnodes_share_all_end (y); p4est_lnodes_share_owned_end (x); }
  c.d.array (a);
  for (size_t k = 0; k < y->recv_buffers->elem_count; ++k) c.d.array ((sc_array_t *) sc_array_index (y->recv_buffers, k));
  p4est_lnodes_buffer_destroy (x);
  p4est_lnodes_buffer_destroy (y);
  sc_array_destroy (a);
  sc_array_destroy (b);
}
inline void op_lnodes (Ctx &c)
{
  p4est_t *p = make_balanced (c);
  p4est_ghost_t *g = p4est_ghost_new (p, full_type ());
  int deg[] = {1, 2, -1, D == 2 ? 3 : -2, -D};
  p4est_lnodes_t *l = p4est_lnodes_new (p, g, deg[c.variant % 5]);
  c.d.lnodes (l);
  share (c, l);
  if (c.variant % 2) {
    p4est_ghost_support_lnodes (p, l, g);
    c.d.ghost (g);
    p4est_ghost_expand_by_lnodes (p, l, g);
    c.d.ghost (g);
  }
  p4est_lnodes_destroy (l);
  p4est_ghost_destroy (g);
  p4est_destroy (p);
}
inline void op_partition_lnodes (Ctx &c)
{
  p4est_t *p = make_balanced (c);
  p4est_ghost_t *g = c.variant % 2 ? p4est_ghost_new (p, full_type ()) : NULL;
  if (c.variant % 3 == 2) {
#ifdef P4_TO_P8
    p8est_partition_lnodes_detailed (p, g, 1, 1, 2, 3, c.variant / 2 % 2);
#else
    p4est_partition_lnodes_detailed (p, g, 1, 1, 2, c.variant / 2 % 2);
#endif
  }
  else p4est_partition_lnodes (p, g, 1 + c.variant % 2, c.variant / 2 % 2);
  c.d.forest (p);
  if (g) p4est_ghost_destroy (g);
  p4est_destroy (p);
}
inline void op_nodes (Ctx &c)
{
  p4est_t *p = make_balanced (c);
  p4est_ghost_t *g = p4est_ghost_new (p, full_type ());
  p4est_nodes_t *n = p4est_nodes_new (p, c.variant % 4 == 3 ? NULL : g);
  c.d.nodes (n, c.variant % 4 == 3 ? 0 : c.P);
  if (c.variant % 4 != 3) c.d.i (p4est_nodes_is_valid (p, n));
  p4est_nodes_destroy (n);
  p4est_ghost_destroy (g);
  p4est_destroy (p);
}
inline void op_mesh (Ctx &c)
{
  p4est_t *p = make_balanced (c);
  p4est_ghost_t *g = p4est_ghost_new (p, full_type ());
  p4est_mesh_t *m = p4est_mesh_new_ext (p, g, c.variant % 2, c.variant / 2 % 2, full_type ());
  c.d.mesh (m);
  c.d.i ((long) p4est_mesh_memory_used (m));
  p4est_mesh_destroy (m);
  p4est_ghost_destroy (g);
  p4est_destroy (p);
}
extern "C" {
inline int cb_all (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q, int a, int b, p4est_locidx_t n, void *)
{ Ctx &c = *(Ctx *) p->user_pointer; c.d.i (t); c.d.q (q); c.d.i (a); c.d.i (b); c.d.i (n); return 1; }
inline int cb_part (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q, int a, int b, void *)
{ Ctx &c = *(Ctx *) p->user_pointer; c.d.i (t); c.d.q (q); c.d.i (a); c.d.i (b); return 1; }
inline p4est_build_t *the_build = NULL;
}
inline void op_search (Ctx &c)
{
  p4est_t *p = c.make (0);
  p4est_search_all (p, 0, cb_all, NULL, NULL);
  p4est_search_partition (p, 0, cb_part, NULL, NULL);
  // build from every other leaf
  p4est_build_t *b = p4est_build_new (p, 3, cb_init, &c);
  int n = 0;
  for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t k = 0; k < tr->quadrants.elem_count; ++k, ++n) if ((n + c.variant) % 3) c.d.i (p4est_build_add (b, t, p4est_quadrant_array_index (&tr->quadrants, k)));
  }
  p4est_t *q = p4est_build_complete (b);
  c.d.forest (q);
  p4est_destroy (q);
  p4est_destroy (p);
}
inline void op_points (Ctx &c)
{
  std::vector<p4est_quadrant_t> pts;
  for (int i = c.g[(size_t) c.me]; i < c.g[(size_t) c.me + 1]; ++i) {
    Cell x = (*c.L)[(size_t) ((i * 7 + c.variant) % (int) c.L->size ())];
    p4est_quadrant_t q = to_quad (first_desc (x, QMAX));
    q.level = P4EST_MAXLEVEL;
    q.p.which_tree = x.t;
    pts.push_back (q);
  }
  p4est_t *p = p4est_new_points (c.comm, c.conn, 3, pts.data (), (p4est_locidx_t) pts.size (), c.variant % 3, 5, cb_init, NULL);
  c.d.forest (p);
  p4est_destroy (p);
}
inline void op_file (Ctx &c)
{
  p4est_t *p = c.make ();
  std::string f = c.dir + "/f.p4est";
  p4est_save_ext (f.c_str (), p, c.variant % 2, c.variant / 2 % 2);
  vp::sync_point ();
  c.d.file (f.c_str ());
  p4est_connectivity_t *conn;
  p4est_t *q = p4est_load_ext (f.c_str (), c.comm, c.variant % 2 ? 5 : 0, c.variant % 2, !(c.variant / 2 % 2), c.variant / 4 % 2, NULL, &conn);
  c.d.forest (q);
  sc_array_t *data = NULL;
  sc_array_t *qs = p4est_deflate_quadrants (p, c.variant % 2 ? &data : NULL);
  p4est_gloidx_t *pt = P4EST_ALLOC (p4est_gloidx_t, c.conn->num_trees + 1);
  p4est_comm_count_pertree (p, pt);
  p4est_t *r = p4est_inflate (c.comm, c.conn, p->global_first_quadrant, pt, qs, data, NULL);
  P4EST_FREE (pt);
  if (r) { c.d.forest (r); p4est_destroy (r); }
  sc_array_destroy (qs);
  if (data) sc_array_destroy (data);
  vp::sync_point ();
  p4est_destroy (q);
  p4est_connectivity_destroy (conn);
  p4est_destroy (p);
}
inline void op_query (Ctx &c)
{
  p4est_t *p = c.make ();
  c.d.i (p4est_checksum (p));
  c.d.i (p4est_checksum_partition (p));
  c.d.i (p4est_is_valid (p));
  for (auto &b : btypes ()) c.d.i (p4est_is_balanced (p, b.first));
  p4est_t *q = p4est_copy (p, c.variant % 2);
  c.d.i (p4est_is_equal (p, q, 0));
  c.d.i (p4est_comm_sync_flag (p, (c.me + c.variant) % 3 == 0, sc_MPI_BOR));
  c.d.i (p4est_comm_sync_flag (p, (c.me + c.variant) % 3 == 0, sc_MPI_BAND));
  p4est_destroy (q);
  p4est_gloidx_t *pt = P4EST_ALLOC (p4est_gloidx_t, p->connectivity->num_trees + 1);
  p4est_comm_count_pertree (p, pt);
  c.d.v (pt, (size_t) p->connectivity->num_trees + 1);
  P4EST_FREE (pt);
  p4est_destroy (p);
}
inline void op_reduce (Ctx &c)
{
  p4est_t *p = c.make ();
  if (c.variant % 3 == 0) {
    int ok = p4est_comm_parallel_env_reduce (&p);
    c.d.i (ok);
    if (ok) { c.d.forest (p); p4est_balance (p, full_type (), cb_init); p4est_partition (p, 0, NULL); c.d.forest (p); p4est_destroy (p); }
  }
  else {
    sc_MPI_Group g = sc_MPI_GROUP_NULL, w;
    sc_MPI_Comm_group (c.comm, &w);
    int one[1] = {c.variant % c.P};
    sc_MPI_Group_incl (w, 1, one, &g);
    int *ranks = NULL;
    int ok = p4est_comm_parallel_env_reduce_ext (&p, g, c.variant % 2, &ranks);
    c.d.i (ok);
    if (ok) {
      c.d.v (ranks, ranks ? (size_t) p->mpisize : 0);
      c.d.forest (p);
      p4est_balance (p, full_type (), cb_init);
      p4est_partition (p, 0, NULL);
      c.d.forest (p);
      p4est_destroy (p);
    }
    if (ranks) P4EST_FREE (ranks);
    sc_MPI_Group_free (&g);
    sc_MPI_Group_free (&w);
  }
}
inline void op_wrap (Ctx &c)
{
  p4est_wrap_params_t par;
  p4est_wrap_params_init (&par);
  par.hollow = 0;
  par.mesh_params.btype = full_type ();
  par.coarsen_delay = c.variant % 2;
  par.partition_for_coarsening = c.variant / 2 % 2;
  par.store_adapted = 1;
  p4est_connectivity_t *conn2 = NULL;
  // the wrap owns its connectivity
  conn2 = p4est_connectivity_new_copy (c.conn->num_vertices, c.conn->num_trees,
#ifdef P4_TO_P8
    c.conn->num_edges,
#endif
    c.conn->num_corners, c.conn->vertices, c.conn->tree_to_vertex, c.conn->tree_to_tree, c.conn->tree_to_face,
#ifdef P4_TO_P8
    c.conn->tree_to_edge, c.conn->ett_offset, c.conn->edge_to_tree, c.conn->edge_to_edge,
#endif
    c.conn->tree_to_corner, c.conn->ctt_offset, c.conn->corner_to_tree, c.conn->corner_to_corner);
  p4est_wrap_t *w = p4est_wrap_new_params (c.comm, conn2, 1, &par);
  for (int k = 0; k < 2; ++k) {
    p4est_wrap_leaf_t *leaf;
    for (leaf = p4est_wrap_leaf_first (w, 1); leaf; leaf = p4est_wrap_leaf_next (leaf)) {
      c.d.i (leaf->local_quad); c.d.i (leaf->is_mirror);
      unsigned h = hash (leaf->quad, leaf->which_tree) >> (k + c.variant % 4);
      if (h % 4 == 0 && leaf->quad->level < 3) p4est_wrap_mark_refine (w, leaf->which_tree, leaf->which_quad);
      else if (h % 4 < 3) p4est_wrap_mark_coarsen (w, leaf->which_tree, leaf->which_quad);
    }
    int ch = p4est_wrap_adapt (w);
    c.d.i (ch);
    c.d.forest (w->p4est);
    c.d.ghost (p4est_wrap_get_ghost (w));
    c.d.mesh (p4est_wrap_get_mesh (w));
    if (ch) {
      p4est_locidx_t uf, ul, of;
      int moved = p4est_wrap_partition (w, c.variant % 2, &uf, &ul, &of);
      c.d.i (moved); c.d.i (uf); c.d.i (ul); c.d.i (of);
      c.d.forest (w->p4est);
      if (moved) p4est_wrap_complete (w);
    }
  }
  p4est_wrap_destroy (w);
}
inline void op_plex (Ctx &c)
{
  p4est_t *p = make_balanced (c);
  p4est_ghost_t *g = p4est_ghost_new (p, full_type ());
  p4est_lnodes_t *l = NULL;
  int overlap = c.variant % 2;
  sc_array_t *a[10];
  for (int k = 0; k < 10; ++k) a[k] = sc_array_new (k == 4 ? 3 * sizeof (double) : k == 9 ? 2 * sizeof (p4est_locidx_t) : sizeof (p4est_locidx_t));
  p4est_locidx_t first = -1;
  if (c.variant / 2 % 2) p4est_get_plex_data (p, full_type (), overlap, &first, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
  else p4est_get_plex_data_ext (p, &g, &l, full_type (), overlap, &first, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], c.variant / 4 % 2);
  c.d.i (first);
  for (int k = 0; k < 10; ++k) { c.d.array (a[k]); sc_array_destroy (a[k]); }
  if (l) p4est_lnodes_destroy (l);
  if (g) p4est_ghost_destroy (g);
  p4est_destroy (p);
}
inline void op_vtk (Ctx &c)
{
  p4est_t *p = c.make ();
  std::string f = c.dir + "/v";
  p4est_vtk_write_file (p, NULL, f.c_str ());
  vp::sync_point ();
  c.d.file (strf ("%s_%04d.vtu", f.c_str (), c.me).c_str ());
  c.d.file ((f + ".pvtu").c_str ());
  p4est_destroy (p);
}
inline void op_conn (Ctx &c)
{
  int root = c.variant % c.P;
  p4est_connectivity_t *k = c.me == root ? p4est_connectivity_new_brick (2, 1
#ifdef P4_TO_P8
    , 1, 0
#endif
    , 0, 1) : NULL;
  k = p4est_connectivity_bcast (k, root, c.comm);
  size_t len = 0;
  sc_array_t *buf = p4est_connectivity_deflate (k, P4EST_CONN_ENCODE_NONE);
  len = buf->elem_count;
  c.d.b (buf->array, len);
  sc_array_destroy (buf);
  p4est_t *p = p4est_new (c.comm, k, 0, NULL, NULL);
  c.d.forest (p);
  p4est_destroy (p);
  p4est_connectivity_destroy (k);
}
#ifndef P4_TO_P8
inline void dg_p6 (Digest &d, p6est_t *p)
{
  d.mark ("p6est");
  d.forest (p->columns);
  d.v (p->global_first_layer, (size_t) p->mpisize + 1);
  for (size_t i = 0; i < p->layers->elem_count; ++i) { p2est_quadrant_t *q = p2est_quadrant_array_index (p->layers, i); d.i (q->z); d.i (q->level); if (p->data_size) d.b (q->p.user_data, p->data_size); }
}
inline unsigned hash6 (p4est_quadrant_t *col, p2est_quadrant_t *l, int t) { return hash (col, t) * 2654435761u + (unsigned) (l ? l->z >> 20 : 0) * 40503u + (unsigned) (l ? l->level : 0) * 977u; }
extern "C" {
inline void cb6_init (p6est_t *p, p4est_topidx_t t, p4est_quadrant_t *c, p2est_quadrant_t *l) { if (p->data_size) { unsigned h = hash6 (c, l, t); memcpy (l->p.user_data, &h, std::min<size_t> (4, p->data_size)); } }
inline int cb6_rc (p6est_t *, p4est_topidx_t t, p4est_quadrant_t *c) { return c->level < 3 && hash (c, t) % 3 == 0; }
inline int cb6_rl (p6est_t *, p4est_topidx_t t, p4est_quadrant_t *c, p2est_quadrant_t *l) { return l->level < 3 && (hash6 (c, l, t) >> 8) % 3 == 0; }
inline int cb6_cc (p6est_t *, p4est_topidx_t t, p4est_quadrant_t *c[]) { return hash (c[0], t) % 2; }
inline int cb6_cl (p6est_t *, p4est_topidx_t t, p4est_quadrant_t *c, p2est_quadrant_t *l[]) { return (hash6 (c, l[0], t) >> 8) % 2; }
inline int cb6_w (p6est_t *, p4est_topidx_t t, p4est_quadrant_t *c, p2est_quadrant_t *l) { return (int) (hash6 (c, l, t) >> 8) % 4; }
}
inline p6est_connectivity_t *conn6 (Ctx &c) { double h[3] = {0, 0, 1}; return p6est_connectivity_new (c.conn, NULL, h); }
// as many columns as there are processes at least
inline p6est_t *make6 (Ctx &c, p6est_connectivity_t *k)
{
  int lev = 0;
  while ((c.conn->num_trees << (2 * lev)) < c.P) ++lev;
  p6est_t *p = p6est_new_ext (c.comm, k, 0, lev, 1, 1 + c.variant % 3 / 2, 1, 4, cb6_init, NULL);
  p6est_refine_columns_ext (p, 0, 3, cb6_rc, cb6_init, NULL);
  p6est_refine_layers_ext (p, 1, 3, cb6_rl, cb6_init, NULL);
  return p;
}
inline void op6_adapt (Ctx &c)
{
  p6est_connectivity_t *k = conn6 (c);
  p6est_t *p = make6 (c, k);
  dg_p6 (c.d, p);
  p6est_balance_ext (p, c.variant % 3 == 0 ? P8EST_CONNECT_FACE : c.variant % 3 == 1 ? P8EST_CONNECT_EDGE : P8EST_CONNECT_FULL, 1, 1, cb6_init, NULL);
  dg_p6 (c.d, p);
  c.d.i (p6est_partition_ext (p, c.variant % 2, c.variant / 2 % 2 ? cb6_w : NULL));
  dg_p6 (c.d, p);
  p6est_coarsen_layers_ext (p, 0, 0, cb6_cl, cb6_init, NULL);
  p6est_coarsen_columns_ext (p, 0, 0, cb6_cc, cb6_init, NULL);
  dg_p6 (c.d, p);
  p6est_t *q = p6est_copy (p, c.variant % 2);
  c.d.i (p6est_checksum (q));
  p6est_destroy (q);
  p6est_destroy (p);
  p6est_connectivity_destroy (k);
}
inline void op6_ghost (Ctx &c)
{
  p6est_connectivity_t *k = conn6 (c);
  p6est_t *p = make6 (c, k);
  p6est_partition (p, NULL);
  p6est_balance (p, P8EST_CONNECT_FULL, cb6_init);
  p6est_ghost_t *g = p6est_ghost_new (p, P4EST_CONNECT_FULL);
  for (int e = 0; e < 2; ++e) {
    c.d.ghost (g->column_ghost);
    c.d.array (g->column_layer_offsets);
    for (size_t i = 0; i < g->ghosts.elem_count; ++i) { p2est_quadrant_t *q = (p2est_quadrant_t *) sc_array_index (&g->ghosts, i); c.d.i (q->z); c.d.i (q->level); c.d.i (q->p.piggy3.which_tree); c.d.i (q->p.piggy3.local_num); }
    if (e == 0) {
      p6est_lnodes_t *l = p6est_lnodes_new (p, g, 1 + c.variant % 2);
      c.d.lnodes (l);
      p6est_lnodes_destroy (l);
      if (c.variant % 2) break;
      p6est_ghost_expand (p, g);
    }
  }
  p6est_ghost_destroy (g);
  p6est_destroy (p);
  p6est_connectivity_destroy (k);
}
inline void op6_file (Ctx &c)
{
  p6est_connectivity_t *k = conn6 (c), *k2 = NULL;
  p6est_t *p = make6 (c, k);
  std::string f = c.dir + "/g.p6est";
  p6est_save_ext (f.c_str (), p, c.variant % 2, 0);
  vp::sync_point ();
  c.d.file (f.c_str ());
  p6est_t *q = p6est_load_ext (f.c_str (), c.comm, c.variant % 2 ? 4 : 0, c.variant % 2, 1, c.variant / 2 % 2, NULL, &k2);
  dg_p6 (c.d, q);
  vp::sync_point ();
  p6est_destroy (q);
  p6est_connectivity_destroy (k2);
  p6est_destroy (p);
  p6est_connectivity_destroy (k);
}
#endif
struct Op { const char *name; OpFn fn; int variants; bool vert; int maxP; };
inline const std::vector<Op> &all_ops ()
{
  static const std::vector<Op> o {
    {"new/copy/reset", op_new, 6, false, 4}, {"refine/balance/partition/coarsen", op_adapt, 6, false, 4}, {"balance", op_balance, 10, false, 4},
    {"partition", op_partition, 12, false, 4}, {"transfer", op_transfer, 8, false, 4}, {"ghost", op_ghost, 6, false, 4}, {"exchange", op_exchange, 6, false, 4},
    {"lnodes", op_lnodes, 10, false, 4}, {"partition_lnodes", op_partition_lnodes, 12, false, 3}, {"nodes", op_nodes, 4, false, 4}, {"mesh", op_mesh, 4, false, 4},
    {"search/build", op_search, 3, false, 4}, {"points", op_points, 6, false, 4}, {"file", op_file, 8, false, 3}, {"query", op_query, 6, false, 4}, {"reduce", op_reduce, 6, false, 4},
    {"wrap", op_wrap, 8, false, 3}, {"plex", op_plex, 8, true, 3}, {"vtk", op_vtk, 1, true, 3}, {"connectivity", op_conn, 4, false, 4},
#ifndef P4_TO_P8
    {"p6est adapt", op6_adapt, 12, true, 3}, {"p6est ghost", op6_ghost, 4, true, 3}, {"p6est file", op6_file, 4, true, 3},
#endif
  };
  return o;
}
}
