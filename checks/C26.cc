// C26 Every object frees what it allocated, and reduced communicators stay usable
#include "ref/ops.hh"
#ifndef P4_TO_P8
#include <p6est_communication.h>
#endif
using namespace ops;

// ---------------------------------------------------------------- checking
// leaves of all processes of a communicator, kept outside of the simulation
struct Pool
{
  std::vector<Cells> L;
  std::vector<std::vector<long>> Z;
};
static Pool pool;

static void barrier (sc_MPI_Comm c) { sc_MPI_Barrier (c); }
// the forest is consistent and every leaf carries its own data
static void check_forest (p4est_t *p, const char *what, int data = 1)
{
  barrier (p->mpicomm);
  if (pool.L.size () < (size_t) p->mpisize) pool.L.resize ((size_t) p->mpisize);
  pool.L[(size_t) p->mpirank] = leaves_of (p);
  barrier (p->mpicomm);
  Cells L;
  std::vector<int> g {0};
  for (int r = 0; r < p->mpisize; ++r) { L.insert (L.end (), pool.L[(size_t) r].begin (), pool.L[(size_t) r].end ()); g.push_back ((int) L.size ()); }
  barrier (p->mpicomm);
  check_p4est (p, L, g, data, what);
}
static long mem_begin_count;
extern "C" {
static void cb_replace (p4est_t *p, p4est_topidx_t t, int no, p4est_quadrant_t *o[], int ni, p4est_quadrant_t *n[])
{
  for (int i = 0; i < no; ++i) if (p->data_size && !data_ok (o[i]->p.user_data, p->data_size, to_cell (*o[i], t))) fail ("outgoing data is not preserved");
  for (int i = 0; i < ni; ++i) if (p->data_size && !data_ok (n[i]->p.user_data, p->data_size, to_cell (*n[i], t))) fail ("incoming data is not initialized");
}
}
static const int NSEQ = 12;
static const char *seq_name[] = {"refine", "refine-recursive", "coarsen", "balance", "partition", "partition-weighted", "reset-data", "copy", "save-load", "environment", "objects", "reduce"};
struct Keep { std::vector<p4est_connectivity_t *> conns; };
// returns false if the forest does not exist on this process any more
static bool seq_op (int k, p4est_t *&p, Keep &keep, const std::string &dir, int salt)
{
  switch (k) {
  case 0: p4est_refine_ext (p, 0, 3, cb_refine, cb_init, cb_replace); break;
  case 1: p4est_refine_ext (p, 1, 4, cb_refine, cb_init, salt % 2 ? cb_replace : NULL); break;
  case 2: p4est_coarsen_ext (p, salt % 2, salt / 2 % 2, cb_coarsen, cb_init, salt % 3 ? cb_replace : NULL); break;
  case 3: p4est_balance_ext (p, btypes ()[(size_t) salt % btypes ().size ()].first, cb_init, cb_replace); break;
  case 4: p4est_partition_ext (p, salt % 2, NULL); break;
  case 5: p4est_partition_ext (p, (salt + 1) % 2, cb_weight); break;
  case 6: p4est_reset_data (p, p->data_size == 0 ? 9 : p->data_size == 9 ? 5 : 0, cb_init, p->user_pointer); break;
  case 7: {
    p4est_t *q = p4est_copy_ext (p, 1, salt % 2);
    // the duplicate of a communicator that the original owns must not depend on it
    if (p->mpicomm_owned && !(salt % 2)) { p4est_destroy (q); q = p4est_copy_ext (p, 1, 1); }
    p4est_destroy (p);
    p = q;
    break;
  }
  case 8: {
    std::string f = dir + "/s.p4est";
    p4est_save_ext (f.c_str (), p, 1, salt % 2);
    barrier (p->mpicomm);
    p4est_connectivity_t *c;
    sc_MPI_Comm m = p->mpicomm;
    p4est_t *q = p4est_load_ext (f.c_str (), m, p->data_size, 1, 1, salt % 2, NULL, &c);
    if (p->mpicomm_owned) p4est_comm_parallel_env_duplicate (q);
    barrier (q->mpicomm);
    p4est_destroy (p);
    keep.conns.push_back (c);
    p = q;
    break;
  }
  case 9: {
    sc_MPI_Comm m;
    if (salt % 2) {
      p4est_comm_parallel_env_duplicate (p);
      if (!p->mpicomm_owned) fail ("duplicated communicator is not owned");
    }
    else {
      sc_MPI_Comm_dup (p->mpicomm, &m);
      p4est_comm_parallel_env_replace (p, m);
      if (p->mpicomm != m || p->mpicomm_owned) fail ("replaced communicator");
      // the caller keeps the ownership of m, so switch to a duplicate
      p4est_comm_parallel_env_duplicate (p);
      sc_MPI_Comm_free (&m);
    }
    if (p4est_comm_parallel_env_is_null (p)) fail ("environment is null");
    p4est_comm_parallel_env_get_info (p);
    break;
  }
  case 10: {
    p4est_ghost_t *g = p4est_ghost_new (p, full_type ());
    if (p->data_size) {
      std::vector<unsigned char> d (g->ghosts.elem_count * p->data_size);
      p4est_ghost_exchange_data (p, g, d.data ());
      for (size_t i = 0; i < g->ghosts.elem_count; ++i) { p4est_quadrant_t *q = p4est_quadrant_array_index (&g->ghosts, i); if (!data_ok (&d[i * p->data_size], p->data_size, to_cell (*q, q->p.piggy3.which_tree))) fail ("exchanged data"); }
    }
    p4est_ghost_expand (p, g);
    p4est_ghost_destroy (g);
    break;
  }
  case 11: return p4est_comm_parallel_env_reduce (&p);
  }
  return true;
}

// ------------------------------------------------------------------ worlds
static vp::Options opts (int k)
{
  vp::Options o;
  o.leak_mpi = true;
  o.guard = k % 4 == 3;
  o.sync_send = k % 2;
  o.loose = k % 3 == 1;
  o.fill = k % 2 ? 0xA5 : 0x3C;
  return o;
}
static void with_memory (const std::function<void()> &f)
{
  rank_begin ();
  int me = vp::me ();
  long live = vp::live_blocks (me);
  f ();
  if (vp::live_blocks (me) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (me) - live);
  rank_end ();
}

// ------------------------------------------------------------------- reduce
static void expect_reduce (int P, const std::vector<int> &g, const std::vector<int> &add, bool begin, bool &same, std::vector<int> &ranks)
{
  std::vector<int> N, A;
  for (int r = 0; r < P; ++r) if (g[(size_t) r] < g[(size_t) r + 1]) N.push_back (r);
  same = (int) N.size () == P;
  if (same) { ranks.clear (); for (int r = 0; r < P; ++r) ranks.push_back (r); return; }
  for (int r : add) if (std::find (N.begin (), N.end (), r) == N.end ()) A.push_back (r);
  ranks = begin ? A : N;
  auto &x = begin ? N : A;
  ranks.insert (ranks.end (), x.begin (), x.end ());
}
static sc_MPI_Group make_group (const std::vector<int> &add)
{
  sc_MPI_Group w, g;
  if (add.empty ()) return sc_MPI_GROUP_NULL;
  sc_MPI_Comm_group (sc_MPI_COMM_WORLD, &w);
  sc_MPI_Group_incl (w, (int) add.size (), const_cast<int *> (add.data ()), &g);
  sc_MPI_Group_free (&w);
  return g;
}
static void check_ranks (const int *map, sc_MPI_Comm comm, const std::vector<int> &ranks, bool same, bool wantmap)
{
  int n, r;
  sc_MPI_Comm_size (comm, &n);
  sc_MPI_Comm_rank (comm, &r);
  if (n != (int) ranks.size ()) fail ("reduced communicator has %d processes, expected %zu", n, ranks.size ());
  if (ranks[(size_t) r] != vp::me ()) fail ("process %d has rank %d in the reduced communicator", vp::me (), r);
  if (!wantmap) return;
  if (!map) { if (!same) fail ("no rank map"); return; }
  for (int i = 0; i < n; ++i) if (map[i] != ranks[(size_t) i]) fail ("rank map [%d] is %d, expected %d", i, map[i], ranks[(size_t) i]);
}
static void reduce_body (HostConn &hc, const Cells &L, const std::vector<int> &g, const std::vector<int> &add, int mode)
{
  int P = (int) g.size () - 1, me = vp::me ();
  bool same;
  std::vector<int> ranks;
  expect_reduce (P, g, add, mode & 1, same, ranks);
  bool member = std::find (ranks.begin (), ranks.end (), me) != ranks.end ();
  p4est_t *p = make_p4est (&hc.c, L, g, 5, NULL);
  if (mode & 2) p4est_comm_parallel_env_duplicate (p);
  sc_MPI_Group grp = make_group (add);
  int *map = NULL, ok;
  bool ext = mode & 4 || !add.empty ();
  if (ext) ok = p4est_comm_parallel_env_reduce_ext (&p, grp, mode & 1, mode & 8 ? NULL : &map);
  else ok = p4est_comm_parallel_env_reduce (&p);
  if (!add.empty ()) sc_MPI_Group_free (&grp);
  if ((ok != 0) != member) fail ("reduce returned %d on process %d", ok, me);
  if (!ok) {
    if (p) fail ("the forest still exists on a process that was removed");
    if (map) fail ("rank map on a process that was removed");
    return;
  }
  check_ranks (map, p->mpicomm, ranks, same, ext && !(mode & 8));
  if (p->mpisize != (int) ranks.size () || ranks[(size_t) p->mpirank] != me) fail ("mpisize or mpirank of the reduced forest");
  if (map) P4EST_FREE (map);
  std::vector<int> h {0};
  for (int r : ranks) h.push_back (h.back () + g[(size_t) r + 1] - g[(size_t) r]);
  check_p4est (p, L, h, 1, "reduced forest");
  // everything keeps working
  p4est_partition (p, 0, NULL);
  p4est_balance (p, full_type (), cb_init);
  check_forest (p, "balance of the reduced forest");
  p4est_ghost_t *gh = p4est_ghost_new (p, full_type ());
  p4est_lnodes_t *ln = p4est_lnodes_new (p, gh, 1);
  p4est_lnodes_destroy (ln);
  p4est_mesh_t *m = p4est_mesh_new (p, gh, full_type ());
  p4est_mesh_destroy (m);
  p4est_ghost_destroy (gh);
  p4est_destroy (p);
}
#ifndef P4_TO_P8
struct P6State { std::vector<std::vector<std::string>> v; };
static P6State p6pool;
static std::vector<std::string> cols_of (p6est_t *p)
{
  std::vector<std::string> v;
  for (p4est_topidx_t t = p->columns->first_local_tree; t <= p->columns->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->columns->trees, t);
    for (size_t k = 0; k < tr->quadrants.elem_count; ++k) {
      p4est_quadrant_t *c = p4est_quadrant_array_index (&tr->quadrants, k);
      size_t a, b;
      P6EST_COLUMN_GET_RANGE (c, &a, &b);
      std::string s = str (to_cell (*c, t));
      long z = 0;
      for (size_t i = a; i < b; ++i) {
        if (i >= p->layers->elem_count) fail ("layer range of a column is out of bounds");
        p2est_quadrant_t *l = p2est_quadrant_array_index (p->layers, i);
        if (l->z != z) fail ("layers of a column are not contiguous");
        z += P4EST_QUADRANT_LEN (l->level);
        s += strf (" %d", l->level);
        if (p->data_size >= 4) { unsigned h = hash6 (c, l, t); if (memcmp (&h, l->p.user_data, 4)) fail ("data of a layer is not preserved"); }
      }
      if (z != p->root_len) fail ("layers of a column do not fill it");
      v.push_back (s);
    }
  }
  return v;
}
static std::vector<std::string> check6 (p6est_t *p, const char *what)
{
  barrier (p->mpicomm);
  auto &V = p6pool.v;
  if (V.size () < (size_t) p->mpisize) V.resize ((size_t) p->mpisize);
  V[(size_t) p->mpirank] = cols_of (p);
  barrier (p->mpicomm);
  std::vector<std::string> all;
  for (int r = 0; r < p->mpisize; ++r) all.insert (all.end (), V[(size_t) r].begin (), V[(size_t) r].end ());
  barrier (p->mpicomm);
  if (p->global_first_layer[p->mpirank + 1] - p->global_first_layer[p->mpirank] != (p4est_gloidx_t) p->layers->elem_count) fail ("%s: global_first_layer", what);
  if (p->columns->mpisize != p->mpisize || p->columns->mpirank != p->mpirank) fail ("%s: environments differ", what);
  return all;
}
static const int N6 = 9;
static const char *seq6_name[] = {"refine-columns", "refine-layers", "coarsen-columns", "coarsen-layers", "balance", "partition", "reset-data", "copy", "reduce"};
static bool seq6_op (int k, p6est_t *&p, int salt)
{
  switch (k) {
  case 0: p6est_refine_columns_ext (p, salt % 2, 2, cb6_rc, cb6_init, NULL); break;
  case 1: p6est_refine_layers_ext (p, salt % 2, 3, cb6_rl, cb6_init, NULL); break;
  case 2: p6est_coarsen_columns_ext (p, salt % 2, 0, cb6_cc, cb6_init, NULL); break;
  case 3: p6est_coarsen_layers_ext (p, salt % 2, 0, cb6_cl, cb6_init, NULL); break;
  case 4: p6est_balance_ext (p, salt % 2 ? P8EST_CONNECT_FACE : P8EST_CONNECT_FULL, 1, 1, cb6_init, NULL); break;
  case 5: p6est_partition_ext (p, salt % 2, salt / 2 % 2 ? cb6_w : NULL); break;
  case 6: p6est_reset_data (p, p->data_size == 0 ? 8 : p->data_size == 8 ? 4 : 0, cb6_init, NULL); break;
  case 7: {
    bool dup = p->mpicomm_owned || salt % 2;
    p6est_t *q = p6est_copy_ext (p, 1, dup);
    p6est_destroy (p);
    p = q;
    break;
  }
  case 8: return p6est_comm_parallel_env_reduce (&p);
  }
  return true;
}
static void reduce6_body (HostConn &hc, const std::vector<int> &counts, const std::vector<int> &add, int mode)
{
  int P = (int) counts.size (), me = vp::me ();
  double hh[3] = {0, 0, 1};
  p6est_connectivity_t *k = p6est_connectivity_new (&hc.c, NULL, hh);
  p6est_t *p = p6est_new_ext (sc_MPI_COMM_WORLD, k, 0, 1, 1, 1, 1, 4, cb6_init, NULL);
  p6est_refine_layers_ext (p, 0, 2, cb6_rl, cb6_init, NULL);
  // distribute the columns as given
  {
    long off = 0, layers = 0;
    std::vector<std::string> all = check6 (p, "new");
    std::vector<p4est_locidx_t> num ((size_t) P);
    for (int r = 0; r < P; ++r) {
      layers = 0;
      for (int i = 0; i < counts[(size_t) r]; ++i) { std::string &s = all[(size_t) off++]; layers += std::count (s.begin () + (long) s.find (')'), s.end (), ' '); }
      num[(size_t) r] = (p4est_locidx_t) layers;
    }
    p6est_partition_given (p, num.data ());
  }
  std::vector<std::string> before = check6 (p, "partition_given");
  std::vector<int> g {0};
  for (int r = 0; r < P; ++r) g.push_back ((int) p->columns->global_first_quadrant[r + 1]);
  for (int r = 0; r < P; ++r) if (g[(size_t) r + 1] - g[(size_t) r] != counts[(size_t) r]) fail ("partition_given: process %d has %d columns, expected %d", r, g[(size_t) r + 1] - g[(size_t) r], counts[(size_t) r]);
  bool same;
  std::vector<int> ranks;
  expect_reduce (P, g, add, mode & 1, same, ranks);
  bool member = std::find (ranks.begin (), ranks.end (), me) != ranks.end ();
  if (mode & 2) { p6est_comm_parallel_env_duplicate (p); p4est_comm_parallel_env_replace (p->columns, p->mpicomm); }
  sc_MPI_Group grp = make_group (add);
  int *map = NULL, ok;
  bool ext = mode & 4 || !add.empty ();
  if (ext) ok = p6est_comm_parallel_env_reduce_ext (&p, grp, mode & 1, mode & 8 ? NULL : &map);
  else ok = p6est_comm_parallel_env_reduce (&p);
  if (!add.empty ()) sc_MPI_Group_free (&grp);
  if ((ok != 0) != member) fail ("reduce returned %d on process %d", ok, me);
  if (!ok) {
    if (p || map) fail ("the forest still exists on a process that was removed");
    p6est_connectivity_destroy (k);
    return;
  }
  check_ranks (map, p->mpicomm, ranks, same, ext && !(mode & 8));
  if (map) P4EST_FREE (map);
  auto after = check6 (p, "reduced");
  if (after != before) fail ("the reduced forest has other columns");
  for (int r = 0; r < p->mpisize; ++r) if (p->columns->global_first_quadrant[r + 1] - p->columns->global_first_quadrant[r] != counts[(size_t) ranks[(size_t) r]]) fail ("columns moved between processes");
  p6est_balance (p, P8EST_CONNECT_FULL, cb6_init);
  p6est_partition (p, NULL);
  check6 (p, "reduced and partitioned");
  p6est_destroy (p);
  p6est_connectivity_destroy (k);
}
#endif

void enumerate ()
{
  bool th = E.thorough;
  E.maxdev = 1;
  int rot = 0;
  static const char *names[] = {"unit", "periodic", "pillow", "rotwrap", "brick", "twocubes", "moebius", "star", "rotcubes"};
  // (1) every operation
  for (auto &op : all_ops ()) {
    E.stage ("%s: memory and message resources", op.name);
    for (auto nm : names) {
      auto m = named (nm);
      if (!m) continue;
      HostConn hc (m);
      auto fs = reachable (uniform (m->nt, 0), m->nt == 1 ? 3 : 2, 3, 24);
      std::reverse (fs.begin (), fs.end ());
      if (fs.size () > (th ? 24 : 3)) fs.resize (th ? 24 : 3);
      for (auto &L : fs) {
        int r0 = rot++;
        if (!E.take ()) continue;
        E.state ();
        parts (L, 1, std::min (3, op.maxP), th ? 20 : 4, [&](int P, const std::vector<int> &g) {
          int v = r0 % op.variants, k = r0++;
          if (!E.sub ()) return;
          E.describe ([=, &L, &op] { return strf ("%s variant %d %s cuts %s leaves {%s}", op.name, v, nm, str (g).c_str (), str (L).c_str ()); });
          E.transition ();
          E.validated ();
          E.run (P, opts (k), [&](int r) {
            with_memory ([&] {
              Ctx c {&hc.c, &L, g, r, P, v, E.scratch, {}, sc_MPI_COMM_WORLD};
              op.fn (c);
            });
          });
        });
      }
    }
  }
  // (2) all sequences of operations
  for (auto nm : {"unit", "periodic", "rotwrap", "brick", "rotcubes"}) {
    auto m = named (nm);
    if (!m) continue;
    E.stage ("%s: all sequences of %d of %d operations", nm, th ? 4 : 3, NSEQ);
    HostConn hc (m);
    Cells L = balance (*m, reachable (uniform (m->nt, 0), 2, 3, 40).back (), 0);
    int len = th ? 4 : 3, total = 1;
    for (int i = 0; i < len; ++i) total *= NSEQ;
    for (int s = 0; s < total; ++s) {
      // the last operation of a sequence is covered by the longer ones
      int r0 = rot++;
      if (!E.take ()) continue;
      if (!th && s % 5 != r0 / 7 % 5 && strcmp (nm, "unit") && strcmp (nm, "rotcubes")) continue;
      E.state ();
      for (int P = 1; P <= 3; ++P) {
        int k = r0 + P;
        if (!E.sub ()) continue;
        std::vector<int> g {0};
        int n = (int) L.size ();
        // an empty process in the middle or at an end
        for (int r = 1; r < P; ++r) g.push_back (P == 3 && k % 3 == 0 ? (r == 1 ? 0 : n / 2) : P == 3 && k % 3 == 1 ? n / 3 : n * r / P);
        g.push_back (n);
        auto text = [=] { std::string t; int x = s; for (int i = 0; i < len; ++i, x /= NSEQ) t += strf (" %s", seq_name[x % NSEQ]); return t; };
        E.describe ([=, &L] { return strf ("%s cuts %s leaves {%s} operations%s", nm, str (g).c_str (), str (L).c_str (), text ().c_str ()); });
        E.transition (len);
        E.validated ();
        E.run (P, opts (k), [&](int) {
          with_memory ([&] {
            Keep keep;
            p4est_t *p = make_p4est (&hc.c, L, g, 5, NULL);
            int x = s;
            bool alive = true;
            for (int i = 0; i < len && alive; ++i, x /= NSEQ) {
              alive = seq_op (x % NSEQ, p, keep, E.scratch, k + i);
              if (alive) check_forest (p, seq_name[x % NSEQ]);
              else if (p) fail ("the forest still exists");
            }
            if (alive) p4est_destroy (p);
            for (auto *c : keep.conns) p4est_connectivity_destroy (c);
          });
        });
      }
    }
  }
  // (3) all orders of destruction
  for (auto nm : {"unit", "rotwrap", "rotcubes"}) {
    auto m = named (nm);
    if (!m) continue;
    E.stage ("%s: all orders of destruction", nm);
    HostConn hc (m);
    Cells L = balance (*m, reachable (uniform (m->nt, 0), 2, 3, 40).back (), 0);
    std::vector<int> perm {0, 1, 2, 3, 4, 5};
    do {
      int k = rot++;
      if (!E.take ()) continue;
      E.state ();
      for (int P = 1; P <= 2; ++P) {
        if (!E.sub ()) continue;
        std::vector<int> g {0};
        for (int r = 1; r <= P; ++r) g.push_back ((int) L.size () * r / P);
        E.describe ([=, &L] { return strf ("%s cuts %s leaves {%s} order %s", nm, str (g).c_str (), str (L).c_str (), str (perm).c_str ()); });
        E.transition ();
        E.validated ();
        E.run (P, opts (k), [&](int) {
          with_memory ([&] {
            p4est_t *p = make_p4est (&hc.c, L, g, 5, NULL);
            p4est_t *q = p4est_copy_ext (p, 1, 1);
            p4est_ghost_t *gh = p4est_ghost_new (p, full_type ());
            p4est_lnodes_t *ln = p4est_lnodes_new (p, gh, 2);
            p4est_mesh_t *me = p4est_mesh_new_ext (p, gh, 1, 1, full_type ());
            p4est_nodes_t *no = p4est_nodes_new (p, gh);
            for (int o : perm) {
              if (o == 0) p4est_destroy (p);
              if (o == 1) { check_forest (q, "copy"); p4est_destroy (q); }
              if (o == 2) p4est_ghost_destroy (gh);
              if (o == 3) p4est_lnodes_destroy (ln);
              if (o == 4) p4est_mesh_destroy (me);
              if (o == 5) p4est_nodes_destroy (no);
            }
          });
        });
      }
    } while (std::next_permutation (perm.begin (), perm.end ()));
  }
  // (4) reduced communicators: all partitions and groups
  for (auto nm : {"unit", "pillow", "rotwrap", "rotcubes"}) {
    auto m = named (nm);
    if (!m) continue;
    int maxP = th ? 5 : 4;
    E.stage ("%s: reduce on 1..%d processes, all partitions of 4 blocks, all groups", nm, maxP);
    HostConn hc (m);
    Cells L = balance (*m, reachable (uniform (m->nt, 0), 2, 3, 40).back (), 0);
    int nb = 4;
    for (int P = 1; P <= maxP; ++P) partitions (nb, P, [&](const std::vector<int> &b) {
      int r0 = rot++;
      if (!E.take ()) return;
      E.state ();
      std::vector<int> g;
      for (int x : b) g.push_back ((int) L.size () * x / nb);
      for (int S = 0; S < 1 << P; ++S) for (int mode = 0; mode < 16; ++mode) {
        std::vector<int> add;
        for (int r = 0; r < P; ++r) if (S >> r & 1) add.push_back (r);
        // other orders of the group
        if (mode & 4 && add.size () > 1) std::reverse (add.begin (), add.end ());
        int k = r0++;
        if (!th && P == 4 && k % 3) continue;
        if (!E.sub ()) continue;
        E.describe ([=, &L] { return strf ("reduce %s cuts %s group %s mode %d leaves {%s}", nm, str (g).c_str (), str (add).c_str (), mode, str (L).c_str ()); });
        E.transition ();
        E.validated ();
        E.run (P, opts (k), [&](int) { with_memory ([&] { reduce_body (hc, L, g, add, mode); }); });
      }
    });
  }
#ifndef P4_TO_P8
  for (auto nm : {"unit", "pillow"}) {
    auto m = named (nm);
    E.stage ("extruded %s: reduce, all partitions and groups", nm);
    HostConn hc (m);
    int n = m->nt * 4;
    for (int P = 1; P <= 4; ++P) partitions (4, P, [&](const std::vector<int> &b) {
      int r0 = rot++;
      if (!E.take ()) return;
      E.state ();
      std::vector<int> counts;
      for (int r = 0; r < P; ++r) counts.push_back (n / 4 * (b[(size_t) r + 1] - b[(size_t) r]));
      for (int S = 0; S < 1 << P; ++S) for (int mode = 0; mode < 16; ++mode) {
        std::vector<int> add;
        for (int r = 0; r < P; ++r) if (S >> r & 1) add.push_back (r);
        if (mode & 4 && add.size () > 1) std::reverse (add.begin (), add.end ());
        int k = r0++;
        if (!th && k % 2) continue;
        if (!E.sub ()) continue;
        E.describe ([=] { return strf ("reduce extruded %s columns %s group %s mode %d", nm, str (counts).c_str (), str (add).c_str (), mode); });
        E.transition ();
        E.validated ();
        E.run (P, opts (k), [&](int) { with_memory ([&] { reduce6_body (hc, counts, add, mode); }); });
      }
    });
  }
  for (auto nm : {"unit", "rotwrap"}) {
    auto m = named (nm);
    E.stage ("extruded %s: all sequences of %d of %d operations", nm, th ? 4 : 3, N6);
    HostConn hc (m);
    int len = th ? 4 : 3, total = 1;
    for (int i = 0; i < len; ++i) total *= N6;
    for (int s = 0; s < total; ++s) {
      int r0 = rot++;
      if (!E.take ()) continue;
      E.state ();
      for (int P = 1; P <= 3; ++P) {
        int k = r0 + P;
        if (!E.sub ()) continue;
        E.describe ([=] { std::string t; int x = s; for (int i = 0; i < len; ++i, x /= N6) t += strf (" %s", seq6_name[x % N6]); return strf ("extruded %s on %d processes:%s", nm, P, t.c_str ()); });
        E.transition (len);
        E.validated ();
        E.run (P, opts (k), [&](int) {
          with_memory ([&] {
            double hh[3] = {0, 0, 1};
            p6est_connectivity_t *kc = p6est_connectivity_new (&hc.c, NULL, hh);
            p6est_t *p = p6est_new_ext (sc_MPI_COMM_WORLD, kc, 0, P > 2 && k % 2 ? 0 : 1, 1, 1, 1, 4, cb6_init, NULL);
            int x = s;
            bool alive = true;
            for (int i = 0; i < len && alive; ++i, x /= N6) {
              alive = seq6_op (x % N6, p, k + i);
              if (alive) check6 (p, seq6_name[x % N6]);
            }
            if (alive) p6est_destroy (p);
            p6est_connectivity_destroy (kc);
          });
        });
      }
    }
  }
#endif
}
