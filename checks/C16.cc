// C16 Node-data sharing and node-weighted partitioning are exact
#include "ref/nodes.hh"
#include "ref/part.hh"
using namespace br;

static unsigned char pat (int64_t node, int rank, int gen, size_t byte) { return (unsigned char) (node * 37 + rank * 101 + gen * 53 + (int64_t) byte * 11 + (node >> 3)); }
static void put (sc_array_t *a, size_t i, int64_t node, int rank, int gen) { unsigned char *d = (unsigned char *) sc_array_index (a, i); for (size_t b = 0; b < a->elem_size; ++b) d[b] = pat (node, rank, gen, b); }
static bool is (sc_array_t *a, size_t i, int64_t node, int rank, int gen) { unsigned char *d = (unsigned char *) sc_array_index (a, i); for (size_t b = 0; b < a->elem_size; ++b) if (d[b] != pat (node, rank, gen, b)) return false; return true; }

static void share (p4est_t *p, p4est_lnodes_t *ln, const std::vector<int64_t> &off, size_t s1, size_t s2, bool split)
{
  int me = vp::me (), nl = ln->num_local_nodes;
  std::vector<int64_t> gn (nl);
  std::vector<int> ow (nl);
  for (int i = 0; i < nl; ++i) {
    gn[i] = i < ln->owned_count ? ln->global_offset + i : ln->nonlocal_nodes[i - ln->owned_count];
    ow[i] = 0;
    while (off[ow[i] + 1] <= gn[i]) ++ow[i];
  }
  sc_array_t *a = sc_array_new_count (s1, nl), *b = sc_array_new_count (s2, nl), *a2 = sc_array_new_count (s2, nl);
  for (int i = 0; i < nl; ++i) { put (a, i, gn[i], me, 0); put (b, i, gn[i], me, 1); put (a2, i, gn[i], me, 2); }
  p4est_lnodes_buffer_t *ba = NULL, *bb, *bc = NULL;
  if (split) {
    ba = p4est_lnodes_share_owned_begin (a, ln);
    bb = p4est_lnodes_share_all_begin (b, ln);
    bc = p4est_lnodes_share_owned_begin (a2, ln);
    sc_MPI_Barrier (p->mpicomm);
    p4est_lnodes_share_all_end (bb);
    p4est_lnodes_share_owned_end (bc);
    p4est_lnodes_share_owned_end (ba);
    p4est_lnodes_buffer_destroy (ba);
    p4est_lnodes_buffer_destroy (bc);
  }
  else {
    p4est_lnodes_share_owned (a, ln);
    bb = p4est_lnodes_share_all (b, ln);
    p4est_lnodes_share_owned (a2, ln);
  }
  for (int i = 0; i < nl; ++i) {
    if (!is (a, i, gn[i], ow[i], 0)) fail ("share_owned: value of node %lld is not its owner's (rank %d)", (long long) gn[i], ow[i]);
    if (!is (a2, i, gn[i], ow[i], 2)) fail ("share_owned (second): value of node %lld is not its owner's (rank %d)", (long long) gn[i], ow[i]);
    if (!is (b, i, gn[i], me, 1)) fail ("share_all: value of node %lld was changed", (long long) gn[i]);
  }
  size_t ns = ln->sharers->elem_count;
  if (bb->recv_buffers->elem_count != ns) fail ("share_all: %zu buffers for %zu sharers", bb->recv_buffers->elem_count, ns);
  for (size_t j = 0; j < ns; ++j) {
    p4est_lnodes_rank_t *lr = p4est_lnodes_rank_array_index (ln->sharers, j);
    sc_array_t *rb = (sc_array_t *) sc_array_index (bb->recv_buffers, j);
    if (lr->rank == me) { if (rb->elem_count) fail ("share_all: own buffer is not empty"); continue; }
    if (rb->elem_count != lr->shared_nodes.elem_count || rb->elem_size != s2) fail ("share_all: buffer for %d has %zu entries of %zu", lr->rank, rb->elem_count, rb->elem_size);
    for (size_t k = 0; k < rb->elem_count; ++k) {
      int i = (int) *(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, k);
      if (!is (rb, k, gn[i], lr->rank, 1)) fail ("share_all: entry %zu from rank %d is not its value for node %lld", k, lr->rank, (long long) gn[i]);
    }
  }
  p4est_lnodes_buffer_destroy (bb);
  sc_array_destroy (a);
  sc_array_destroy (b);
  sc_array_destroy (a2);
}
static void body (HostConn &hc, const Cells &L, const std::vector<int> &g, int degree, size_t s1, size_t s2, bool split)
{
  rank_begin ();
  p4est_t *p = make_p4est (&hc.c, L, g, 0, NULL);
  p4est_ghost_t *gl = p4est_ghost_new (p, full_type ());
  p4est_lnodes_t *ln = p4est_lnodes_new (p, gl, degree);
  std::vector<int64_t> off (g.size (), 0);
  for (size_t i = 0; i + 1 < g.size (); ++i) off[i + 1] = off[i] + ln->global_owned_count[i];
  // the layer and the forest are not needed any more
  p4est_ghost_destroy (gl);
  share (p, ln, off, s1, s2, split);
  p4est_lnodes_destroy (ln);
  check_p4est (p, L, g, 1, "after sharing");
  p4est_destroy (p);
  rank_end ();
}
// partition by nodes
static int token;
static void body_part (HostConn &hc, const Cells &L, const std::vector<int> &g, const std::vector<int> &h, int degree, const int *per, bool coarsen, bool ghost, size_t ds)
{
  rank_begin ();
  p4est_t *p = make_p4est (&hc.c, L, g, ds, &token);
  p->revision = 3;
  p4est_ghost_t *gl = ghost ? p4est_ghost_new (p, full_type ()) : NULL;
  if (degree > 0) p4est_partition_lnodes (p, gl, degree, coarsen);
#ifdef P4_TO_P8
  else p4est_partition_lnodes_detailed (p, gl, per[3], per[2], per[1], per[0], coarsen);
#else
  else p4est_partition_lnodes_detailed (p, gl, per[2], per[1], per[0], coarsen);
#endif
  check_p4est (p, L, h, 1, "partition_lnodes");
  if (p->user_pointer != &token) fail ("partition_lnodes: user pointer changed");
  if (p->revision != 3 + (g != h)) fail ("partition_lnodes: revision 3 -> %ld", (long) p->revision);
  if (gl) p4est_ghost_destroy (gl);
  p4est_destroy (p);
  rank_end ();
}

void enumerate ()
{
  bool th = E.thorough;
  for (int bal = 1; bal >= 0; --bal) {
    SpaceOpt o;
    o.bal = bal;
    o.chains = false;
    o.cap = D == 2 ? (bal ? 30 : 100) : (bal ? 12 : 30);
    o.twocap = D == 2 ? 15 : 6;
    o.K1 = D == 2 ? 4 : 3;
    if (D == 3) o.Lmax = 3;
    if (th) { o.K1++; o.K4++; o.cap *= 8; o.twoK++; o.twocap *= 8; }
    spaces (o, [&](HostConn &hc, const Cells &L) {
      if (L.size () > 400) return;
      static const size_t sizes[] = {8, 1, 13, 24, 3, 40};
      static const std::vector<int> degs = D == 2 ? std::vector<int> {1, 2, -1, -2, 3} : std::vector<int> {1, 2, -3, -1, -2};
      int rot = (int) L.size () + 3 * bal;
      std::shared_ptr<NodeRef> ref;
      parts (L, 1, 3, th ? 100 : L.size () > 60 ? 4 : 15, [&](int P, const std::vector<int> &g) {
        ++rot;
        size_t s1 = sizes[rot % 6], s2 = sizes[rot / 2 % 6];
        int degree = degs[rot % 5];
        bool split = rot % 3 != 0;
        if (E.sub ()) {
          E.describe ([=, &hc, &L] { return strf ("%s sharing %s degree %d sizes %zu %zu cuts %s leaves {%s}", hc.m->name.c_str (), split ? "split" : "at once", degree, s1, s2, str (g).c_str (), str (L).c_str ()); });
          E.transition (3);
          E.validated ();
          vp::Options op;
          op.leak_mpi = true;
          op.sync_send = rot % 2;
          op.choices = P > 1 && rot % 8 == 0;
          E.maxexec = th ? 200 : 16;
          E.run (P, op, [&](int) { body (hc, L, g, degree, s1, s2, split); });
        }
        if (rot % 2 == 0 && E.sub ()) {
          if (!ref) ref = std::make_shared<NodeRef> (node_ref (*hc.m, L, hanging (*hc.m, L), 2));
          int deg = rot % 3 == 0 ? 0 : 1 + rot / 2 % 4;
          int per[4];
          for (int d = 0; d <= D; ++d) {
            per[d] = 1;
            for (int k = 0; k < d; ++k) per[d] *= deg - 1;
            if (deg == 0) per[d] = (rot / 6 * 7 + d * 5 + rot / 13) % 4;
          }
          bool co = rot / 2 % 2, gh = rot / 4 % 2;
          auto target = [&](const std::vector<int> &own) {
            std::vector<int> w (L.size (), 0);
            for (int k = 0; k < ref->n; ++k) w[own[k]] += per[ref->dim[k]];
            auto h = weighted_cuts (w, P, g);
            return co ? for_coarsening (L, h) : h;
          };
          auto h = target (ref->low), h2 = target (ref->alt);
          size_t ds = rot % 5 ? 7 : 0;
          E.describe ([=, &hc, &L] { return strf ("%s partition by nodes degree %d per dimension %s%s cuts %s -> %s leaves {%s}", hc.m->name.c_str (), deg, str (std::vector<int> (per, per + D + 1)).c_str (), co ? " for coarsening" : "", str (g).c_str (), str (h).c_str (), str (L).c_str ()); });
          E.transition ();
          E.validated ();
          vp::Options op;
          op.leak_mpi = true;
          E.maxexec = 8;
          // who owns a node where a tree touches itself: see C15
          if (h != h2) { auto r = E.once (P, op, [&](int) { body_part (hc, L, g, h2, deg, per, co, gh, ds); }); if (r.kind == vp::OK) return; }
          E.run (P, op, [&](int) { body_part (hc, L, g, h, deg, per, co, gh, ds); });
        }
      });
    });
  }
}
