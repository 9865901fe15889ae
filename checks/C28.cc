// C28 Extruded ghost layers and node numberings are complete and consistent
#include "ref/p6.hh"
#include <p6est_ghost.h>
#include <p6est_lnodes.h>
using namespace br;

static int me () { return vp::me (); }
static int layers_of (const Cols &C, int i) { return (int) C[(size_t) i].lv.size (); }

// ------------------------------------------------------------------- ghosts
// S columns known to each process, F those added last
static void check_ghost6 (p6est_ghost_t *gl, const Cols &C, const std::vector<int> &g, const GhostSets &S, const GhostSets &F, int nt, p4est_connect_type_t bt, const char *what)
{
  int P = (int) g.size () - 1, r = me ();
  auto o = owners (g);
  const auto &gs = S[(size_t) r];
  check_ghost (gl->column_ghost, r, cells_of (C), g, S, nt, bt, what);
  if (gl->mpisize != P || gl->num_trees != nt || gl->btype != bt) fail ("%s: mpisize, num_trees or btype", what);
  auto check = [&](p2est_quadrant_t *q, int i, int j, const char *nm) {
    int64_t z = 0;
    for (int k = 0; k < j; ++k) z += len (C[(size_t) i].lv[(size_t) k]);
    int num = layers_in (C, g[(size_t) o[(size_t) i]], i) + j;
    if (q->z != z || q->level != C[(size_t) i].lv[(size_t) j] || q->p.piggy3.which_tree != C[(size_t) i].c.t || q->p.piggy3.local_num != num)
      fail ("%s: %s is layer %d level %d tree %d number %d, expected layer %d of column %s number %d", what, nm, (int) q->z, q->level, (int) q->p.piggy3.which_tree, (int) q->p.piggy3.local_num, j, str (C[(size_t) i]).c_str (), num);
  };
  // layers of ghost columns
  int n = 0;
  if (gl->column_layer_offsets->elem_count != gs.size () + 1) fail ("%s: %zu column offsets for %zu columns", what, (size_t) gl->column_layer_offsets->elem_count, gs.size ());
  for (size_t k = 0; k <= gs.size (); ++k) {
    int a = (int) *(p4est_locidx_t *) sc_array_index (gl->column_layer_offsets, k);
    if (a != n) fail ("%s: layers of ghost column %zu begin at %d, expected %d", what, k, a, n);
    if (k < gs.size ()) n += layers_of (C, gs[k]);
  }
  if ((int) gl->ghosts.elem_count != n) fail ("%s: %zu ghosts, expected %d", what, (size_t) gl->ghosts.elem_count, n);
  n = 0;
  for (int i : gs) for (int j = 0; j < layers_of (C, i); ++j) check ((p2est_quadrant_t *) sc_array_index_int (&gl->ghosts, n++), i, j, "ghost");
  auto offs = [&](const p4est_locidx_t *a, int cnt, const std::function<int (int)> &key, const std::vector<int> &v, const char *nm) {
    for (int k = 0; k <= cnt; ++k) {
      int c = 0;
      for (int i : v) if (key (i) < k) c += layers_of (C, i);
      if (a[k] != c) fail ("%s: %s[%d] = %d expected %d", what, nm, k, (int) a[k], c);
    }
  };
  offs (gl->proc_offsets, P, [&](int i) { return o[(size_t) i]; }, gs, "proc_offsets");
  offs (gl->tree_offsets, nt, [&](int i) { return C[(size_t) i].c.t; }, gs, "tree_offsets");
  // mirrors
  std::vector<int> mir;
  std::map<int, int> first;             // index of the first layer of a mirror column
  n = 0;
  for (int i = g[(size_t) r]; i < g[(size_t) r + 1]; ++i) for (int p = 0; p < P; ++p) if (std::binary_search (S[(size_t) p].begin (), S[(size_t) p].end (), i)) { mir.push_back (i); first[i] = n; n += layers_of (C, i); break; }
  if ((int) gl->mirrors.elem_count != n) fail ("%s: %zu mirrors, expected %d", what, (size_t) gl->mirrors.elem_count, n);
  n = 0;
  for (int i : mir) for (int j = 0; j < layers_of (C, i); ++j) check ((p2est_quadrant_t *) sc_array_index_int (&gl->mirrors, n++), i, j, "mirror");
  offs (gl->mirror_tree_offsets, nt, [&](int i) { return C[(size_t) i].c.t; }, mir, "mirror_tree_offsets");
  auto lists = [&](const GhostSets &T, const p4est_locidx_t *m, const p4est_locidx_t *off, const char *nm) {
    if (!m || !off) fail ("%s: no mirror lists", what);
    int pos = 0;
    for (int p = 0; p < P; ++p) {
      if (off[p] != pos) fail ("%s: offset %d of %s is %d, expected %d", what, p, nm, (int) off[p], pos);
      int cnt = 0;
      for (int i : mir) if (p != r && std::binary_search (T[(size_t) p].begin (), T[(size_t) p].end (), i)) cnt += layers_of (C, i);
      if (off[p + 1] - pos != cnt) fail ("%s: %d %s for rank %d, expected %d", what, (int) off[p + 1] - pos, nm, p, cnt);
      for (int i : mir) if (p != r && std::binary_search (T[(size_t) p].begin (), T[(size_t) p].end (), i))
        for (int j = 0; j < layers_of (C, i); ++j, ++pos) if (m[pos] != first[i] + j) fail ("%s: %s[%d] = %d, expected %d (for rank %d)", what, nm, pos, (int) m[pos], first[i] + j, p);
    }
  };
  lists (S, gl->mirror_proc_mirrors, gl->mirror_proc_offsets, "mirror_proc_mirrors");
  lists (F, gl->mirror_proc_fronts, gl->mirror_proc_front_offsets, "mirror_proc_fronts");
}
static void ghosts (HostConn &hc, const Cols &C, const std::vector<int> &g, int64_t H, p4est_connect_type_t bt, const GhostSets &S, int expand)
{
  static GhostSets now, add;
  rank_begin ();
  int r = me (), P = (int) g.size () - 1;
  p6est_t *p = make_p6est (&hc.c, C, g, H, 9, NULL);
  long live = vp::live_blocks (r);
  p6est_ghost_t *gl = p6est_ghost_new (p, bt);
  check_ghost6 (gl, C, g, S, S, hc.m->nt, bt, "ghost");
  for (int k = 0; k < expand; ++k) {
    if (r == 0) { now.assign ((size_t) P, {}); add = now; }
    sc_MPI_Barrier (sc_MPI_COMM_WORLD);
    std::set<int> old;
    auto known = [&](std::vector<int> &v) {
      auto L = cells_of (C);
      p4est_ghost_t *c = gl->column_ghost;
      v.clear ();
      for (size_t i = 0; i < c->ghosts.elem_count; ++i) {
        p4est_quadrant_t *q = p4est_quadrant_array_index (&c->ghosts, i);
        v.push_back ((int) (std::lower_bound (L.begin (), L.end (), to_cell (*q, q->p.piggy3.which_tree)) - L.begin ()));
      }
    };
    std::vector<int> v;
    known (v);
    old.insert (v.begin (), v.end ());
    p6est_ghost_expand (p, gl);
    // the columns are those of the flat forest
    known (v);
    now[(size_t) r] = v;
    for (int i : v) if (!old.count (i)) add[(size_t) r].push_back (i);
    sc_MPI_Barrier (sc_MPI_COMM_WORLD);
    check_ghost6 (gl, C, g, now, add, hc.m->nt, bt, strf ("ghost expanded %d times", k + 1).c_str ());
    sc_MPI_Barrier (sc_MPI_COMM_WORLD);
  }
  p6est_ghost_destroy (gl);
  if (vp::live_blocks (r) != live) fail ("ghost: %ld blocks of memory are not freed", vp::live_blocks (r) - live);
  check_p6est (p, C, g, H, 9, true, NULL, "after ghost");
  free_p6est (p);
  rank_end ();
}

// -------------------------------------------------------------------- nodes
static Lv coarser (const Lv &a, const Lv &b)
{
  Lv r;
  size_t i = 0, j = 0;
  int64_t x = 0, y = 0, z = 0;          // ends of the layers read
  while (i < a.size ()) {
    int l = std::min (a[i], b[j]);
    r.push_back (l);
    z += len (l);
    while (i < a.size () && x < z) x += len (a[i++]);
    while (j < b.size () && y < z) y += len (b[j++]);
  }
  return r;
}
struct NodeRef6
{
  NodeRef N;                            // of the columns
  std::vector<Lv> prof;                 // layers of each node column
  std::vector<int> base;                // first node of each column
  int n = 0;
};
static NodeRef6 node_ref6 (const Conn &m, const Cols &C, const Hang &H, int degree)
{
  NodeRef6 R;
  R.N = node_ref (m, cells_of (C), H, degree);
  for (int k = 0; k < R.N.n; ++k) {
    Lv v = C[(size_t) R.N.users[(size_t) k][0]].lv;
    for (int u : R.N.users[(size_t) k]) v = coarser (v, C[(size_t) u].lv);
    R.prof.push_back (v);
    R.base.push_back (R.n);
    R.n += (int) v.size () * degree + 1;
  }
  return R;
}
// node layer that contains layer [z, z + len (l)]; half: it is twice as high
static int find_layer (const Lv &v, int64_t z, int l, bool &half)
{
  int64_t y = 0;
  for (size_t k = 0; k < v.size (); ++k) {
    if (y <= z && z + len (l) <= y + len (v[k])) { half = v[k] < l; if (v[k] < l - 1) fail ("reference: unbalanced"); return (int) k; }
    y += len (v[k]);
  }
  fail ("reference: no node layer");
  return -1;
}
static void check_code (p6est_lnodes_code_t code, const Cols &C, const Hang &H, const NodeRef6 &D2, int i, int64_t z, int l)
{
  // D2: at least second degree
  int N = D2.N.degree + 1, mid = N / 2;
  const auto &en = D2.N.en[(size_t) i];
  const Cell &c = C[(size_t) i].c;
  bool w[4], v[4], any = false;
  for (int f = 0; f < 4; ++f) {
    int x = f < 2 ? (f & 1) * (N - 1) : mid, y = f < 2 ? mid : (f & 1) * (N - 1);
    find_layer (D2.prof[(size_t) en[(size_t) (y * N + x)]], z, l, w[f]);
    any = any || w[f] || H.face[(size_t) i][(size_t) f];
  }
  for (int k = 0; k < 4; ++k) {
    find_layer (D2.prof[(size_t) en[(size_t) ((k >> 1) * (N - 1) * N + (k & 1) * (N - 1))]], z, l, v[k]);
    any = any || v[k];
  }
  int hf[6], he[12];
  std::string at = strf ("layer %lld level %d of column %s", (long long) z, l, str (c).c_str ());
  if (code < 0) fail ("lnodes: negative face code");
  int a = p6est_lnodes_decode (code, hf, he);
  if (!!a != any) fail ("lnodes: face code %d of %s is %s", (int) code, at.c_str (), any ? "zero" : "not zero");
  if (!any) return;
  int h = (z & len (l)) ? 1 : 0, cid = c.l ? child_id (c) : 0;
  int wf[6] = {-1, -1}, we[12];
  std::set<int> also[12];
  std::fill (we, we + 12, -1);
  bool middle[4] = {}, side[4] = {}, wide[4] = {};
  for (int f = 0; f < 4; ++f) {
    int hang = H.face[(size_t) i][(size_t) f] ? (cid >> (f < 2 ? 1 : 0) & 1) : -1;
    wf[f + 2] = hang >= 0 ? (w[f] ? hang << 1 | h : 4 + hang) : w[f] ? 6 + h : -1;
    for (int s = 0; s < 2; ++s) we[p8est_face_edges[f + 2][2 + s]] = w[f] && s == 1 - h ? 4 : hang >= 0 ? 2 + hang : -1;
    for (int k = 0; k < 2; ++k) {
      int q = p4est_face_corners[f][k];
      if (hang == 1 - k) middle[q] = true;
      if (hang >= 0) side[q] = true;
      if (w[f]) wide[q] = true;
    }
  }
  for (int k = 0; k < 4; ++k) {
    if (middle[k]) we[k] = 4;
    else if (v[k]) { we[k] = wide[k] ? 2 + h : h; if (side[k] && !wide[k]) also[k].insert (2 + h); }
    else if (wide[k]) fail ("reference: layers of a face without those of its edge");
  }
  for (int f = 0; f < 6; ++f) if (hf[f] != wf[f]) fail ("lnodes: hanging_face[%d] of %s is %d, expected %d", f, at.c_str (), hf[f], wf[f]);
  for (int e = 0; e < 12; ++e) if (he[e] != we[e] && !also[e].count (he[e])) fail ("lnodes: hanging_edge[%d] of %s is %d, expected %d", e, at.c_str (), he[e], we[e]);
}
static void check_nodes (p6est_t *p6, p6est_lnodes_t *ln, const Cols &C, const std::vector<int> &g, const Hang &H, const NodeRef6 &R, const NodeRef6 &D2, const std::vector<int> &low, NodeMap &M, std::vector<std::map<int64_t, int>> &label)
{
  int P = (int) g.size () - 1, r = me (), N = R.N.degree + 1, K = layers_in (C, g[(size_t) r], g[(size_t) r + 1]);
  auto o = owners (g);
  if (ln->degree != R.N.degree || ln->vnodes != N * N * N || ln->num_local_elements != K) fail ("lnodes: degree %d vnodes %d elements %d", ln->degree, ln->vnodes, (int) ln->num_local_elements);
  std::vector<int64_t> off ((size_t) P + 1, 0);
  for (int p = 0; p < P; ++p) {
    int c = 0;
    for (int k = 0; k < R.N.n; ++k) if (o[(size_t) low[(size_t) k]] == p) c += (int) R.prof[(size_t) k].size () * R.N.degree + 1;
    if (ln->global_owned_count[p] != c) fail ("lnodes: rank %d owns %d nodes, expected %d", p, (int) ln->global_owned_count[p], c);
    off[(size_t) p + 1] = off[(size_t) p] + c;
  }
  if (ln->owned_count != ln->global_owned_count[r] || ln->global_offset != off[(size_t) r]) fail ("lnodes: owned_count %d global_offset %lld, expected %lld", (int) ln->owned_count, (long long) ln->global_offset, (long long) off[(size_t) r]);
  int nl = ln->num_local_nodes;
  std::vector<int> ref ((size_t) nl, -1), col ((size_t) nl, -1);
  int e = 0;
  for (int i = g[(size_t) r]; i < g[(size_t) r + 1]; ++i) {
    int64_t z = 0;
    for (int l : C[(size_t) i].lv) {
      for (int k = 0; k < N * N; ++k) {
        int c = R.N.en[(size_t) i][(size_t) k];
        bool half;
        int at = find_layer (R.prof[(size_t) c], z, l, half);
        int ow = o[(size_t) low[(size_t) c]];
        for (int v = 0; v < N; ++v) {
          int x = R.base[(size_t) c] + at * R.N.degree + v;
          int y = ln->element_nodes[(size_t) e * (size_t) (N * N * N) + (size_t) (k * N + v)];
          auto pos = [&] { return strf ("layer %lld level %d of column %s, position %d of node column %d", (long long) z, l, str (C[(size_t) i]).c_str (), v, k); };
          if (y < 0 || y >= nl) fail ("lnodes: element_nodes out of range");
          if (ref[(size_t) y] >= 0 && ref[(size_t) y] != x) fail ("lnodes: local node %d at %s stands for different points", y, pos ().c_str ());
          ref[(size_t) y] = x;
          col[(size_t) y] = c;
          int64_t gn = y < ln->owned_count ? ln->global_offset + y : ln->nonlocal_nodes[y - ln->owned_count];
          if (gn < 0 || gn >= R.n) fail ("lnodes: global number %lld out of range 0..%d", (long long) gn, R.n);
          if (p8est_lnodes_global_index (ln, y) != gn) fail ("lnodes: global_index");
          if (gn < off[(size_t) ow] || gn >= off[(size_t) ow + 1]) fail ("lnodes: node %lld at %s is not owned by rank %d", (long long) gn, pos ().c_str (), ow);
          if ((ow == r) != (y < ln->owned_count)) fail ("lnodes: local node %d of %d owned ones is owned by %d", y, (int) ln->owned_count, ow);
          if (M.num[(size_t) x] >= 0 && M.num[(size_t) x] != gn) fail ("lnodes: %s has number %lld, the same point has number %lld elsewhere", pos ().c_str (), (long long) gn, (long long) M.num[(size_t) x]);
          if (M.ref[(size_t) gn] >= 0 && M.ref[(size_t) gn] != x) fail ("lnodes: %s has number %lld, which is used for another point", pos ().c_str (), (long long) gn);
          M.num[(size_t) x] = gn;
          M.ref[(size_t) gn] = x;
        }
      }
      check_code (ln->face_code[e], C, H, D2, i, z, l);
      z += len (l);
      ++e;
    }
  }
  std::set<int> uniq;
  for (int k = 0; k < nl; ++k) {
    if (ref[(size_t) k] < 0) fail ("lnodes: local node %d is not used", k);
    if (!uniq.insert (ref[(size_t) k]).second) fail ("lnodes: two local nodes for the same point");
    // columns are contiguous from the bottom up
    if (ref[(size_t) k] != R.base[(size_t) col[(size_t) k]] && (k == 0 || ref[(size_t) k - 1] != ref[(size_t) k] - 1 || M.num[(size_t) ref[(size_t) k]] != M.num[(size_t) ref[(size_t) k] - 1] + 1)) fail ("lnodes: nodes of a column are not contiguous at local node %d", k);
  }
  // sharers
  std::vector<std::vector<int>> sh ((size_t) P);
  for (int k = 0; k < nl; ++k) {
    std::set<int> who;
    for (int u : R.N.users[(size_t) col[(size_t) k]]) who.insert (o[(size_t) u]);
    if (who.size () > 1) for (int p : who) sh[(size_t) p].push_back (k);
  }
  for (auto &v : sh) std::sort (v.begin (), v.end (), [&](int a, int b) { return M.num[(size_t) ref[(size_t) a]] < M.num[(size_t) ref[(size_t) b]]; });
  size_t j = 0, ns = ln->sharers ? ln->sharers->elem_count : 0;
  for (int p = 0; p < P; ++p) {
    if (sh[(size_t) p].empty ()) continue;
    if (j >= ns) fail ("lnodes: rank %d is missing in sharers", p);
    p6est_lnodes_rank_t *lr = p8est_lnodes_rank_array_index (ln->sharers, j++);
    if (lr->rank != p) fail ("lnodes: sharers list rank %d, expected %d", lr->rank, p);
    std::vector<int> got;
    for (size_t k = 0; k < lr->shared_nodes.elem_count; ++k) got.push_back ((int) *(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, k));
    if (got != sh[(size_t) p]) fail ("lnodes: nodes shared with %d are %s, expected %s", p, str (got).c_str (), str (sh[(size_t) p]).c_str ());
    int mo = 0, mc = 0, oo = 0, oc = 0;
    for (size_t k = 0; k < got.size (); ++k) if (got[k] < ln->owned_count) { if (!mc) mo = (int) k; ++mc; }
    if (lr->shared_mine_count != mc || (mc && lr->shared_mine_offset != mo)) fail ("lnodes: shared_mine %d+%d, expected %d+%d for rank %d", (int) lr->shared_mine_offset, (int) lr->shared_mine_count, mo, mc, p);
    for (int k = 0; k < nl; ++k) if (o[(size_t) low[(size_t) col[(size_t) k]]] == p) { if (!oc) oo = k; ++oc; }
    if (lr->owned_count != oc || (oc && lr->owned_offset != oo)) fail ("lnodes: owned %d+%d, expected %d+%d for rank %d", (int) lr->owned_offset, (int) lr->owned_count, oo, oc, p);
  }
  if (j != ns) fail ("lnodes: %zu sharers, expected %zu", ns, j);
  // values of the owners reach everybody
  std::vector<int64_t> val ((size_t) nl, -7);
  for (int k = 0; k < ln->owned_count; ++k) val[(size_t) k] = ln->global_offset + k;
  sc_array_t view;
  int64_t none;
  sc_array_init_data (&view, nl ? val.data () : &none, sizeof (int64_t), (size_t) nl);
  p6est_lnodes_share_owned (&view, ln);
  for (int k = 0; k < nl; ++k) if (val[(size_t) k] != p8est_lnodes_global_index (ln, k)) fail ("lnodes: value of node %d is not that of the owner", k);
  for (auto &x : val) x = x * 8 + r;
  p6est_lnodes_buffer_t *buf = p6est_lnodes_share_all (&view, ln);
  for (size_t s = 0; s < ns; ++s) {
    p6est_lnodes_rank_t *lr = p8est_lnodes_rank_array_index (ln->sharers, s);
    if (lr->rank == r) continue;
    sc_array_t *a = (sc_array_t *) sc_array_index (buf->recv_buffers, s);
    if (a->elem_count != lr->shared_nodes.elem_count) fail ("lnodes: share_all");
    for (size_t k = 0; k < a->elem_count; ++k) if (*(int64_t *) sc_array_index (a, k) != val[(size_t) *(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, k)] - r + lr->rank) fail ("lnodes: value %zu received from %d", k, lr->rank);
  }
  p8est_lnodes_buffer_destroy (buf);
  // columns
  p4est_gloidx_t *lab = p6est_lnodes_get_column_labels (p6, ln);
  for (int k = 0; k < ln->owned_count; ++k) {
    if (lab[k] < 0 || lab[k] >= R.N.n) fail ("lnodes: label %lld of %d columns", (long long) lab[k], R.N.n);
    auto it = label[(size_t) r].insert ({lab[k], col[(size_t) k]});
    if (it.first->second != col[(size_t) k]) fail ("lnodes: two columns have the label %lld", (long long) lab[k]);
    if (k && col[(size_t) k] == col[(size_t) k - 1] && lab[k] != lab[k - 1]) fail ("lnodes: a column has two labels");
  }
  P4EST_FREE (lab);
}
struct NodeCase
{
  Hang H;
  std::vector<NodeRef6> R;
  NodeRef6 two;
  std::vector<NodeMap> M;
  std::vector<std::vector<std::map<int64_t, int>>> label;
};
static void nodes (HostConn &hc, const Cols &C, const std::vector<int> &g, int64_t H, NodeCase &nc, bool alt, bool ownghost, const GhostSets &S)
{
  rank_begin ();
  int r = me (), P = (int) g.size () - 1;
  p6est_t *p = make_p6est (&hc.c, C, g, H, 9, NULL);
  p6est_ghost_t *gl = ownghost ? p6est_ghost_new (p, P4EST_CONNECT_FULL) : NULL;
  for (size_t k = 0; k < nc.R.size (); ++k) {
    const auto &low = alt ? nc.R[k].N.alt : nc.R[k].N.low;
    long live = vp::live_blocks (r);
    p6est_lnodes_t *ln = p6est_lnodes_new (p, gl, nc.R[k].N.degree);
    check_nodes (p, ln, C, g, nc.H, nc.R[k], nc.R[k].N.degree > 1 ? nc.R[k] : nc.two, low, nc.M[k], nc.label[k]);
    p6est_lnodes_destroy (ln);
    if (vp::live_blocks (r) != live) fail ("lnodes: %ld blocks of memory are not freed", vp::live_blocks (r) - live);
    sc_MPI_Barrier (sc_MPI_COMM_WORLD);
    if (r == 0) {
      std::set<int64_t> all;
      for (int q = 0; q < P; ++q) for (auto &x : nc.label[k][(size_t) q]) if (!all.insert (x.first).second) fail ("lnodes: label %lld on two processes", (long long) x.first);
      if ((int) all.size () != nc.R[k].N.n) fail ("lnodes: %zu labels for %d columns", all.size (), nc.R[k].N.n);
    }
    sc_MPI_Barrier (sc_MPI_COMM_WORLD);
  }
  if (gl) { check_ghost6 (gl, C, g, S, S, hc.m->nt, P4EST_CONNECT_FULL, "after lnodes"); p6est_ghost_destroy (gl); }
  check_p6est (p, C, g, H, 9, true, NULL, "after lnodes");
  free_p6est (p);
  rank_end ();
}

static Cols with_profiles (const Cells &L, const std::vector<Lv> &pr, uint64_t salt) { Cols C; for (auto &c : L) C.push_back ({c, pr[(size_t) (key6 (c, 1, 1, salt) % pr.size ())]}); return C; }
static Cols balanced (const std::shared_ptr<const Conn> &m, const Cols &C, int type) { Events ev; return balance6 (m, C, type, 0, 1, ev); }

static bool ghost_case (HostConn &hc, const Cols &C, const std::vector<int> &g, int64_t H, int k)
{
  if (!E.sub ()) return false;
  auto bt = btypes ()[(size_t) (k % 2)];
  Forest F {hc.m, cells_of (C)};
  GhostSets S = ghost_sets (adjacency (F), g, bt.second);
  int ex = k / 2 % 3;
  E.describe ([=, &hc] { return strf ("%s cuts %s columns {%s}: %s ghosts, expanded %d times", hc.m->name.c_str (), str (g).c_str (), str (C).c_str (), bt.second ? "face" : "corner", ex); });
  E.transition (1 + ex);
  E.validated ();
  vp::Options op;
  op.leak_mpi = true;
  op.sync_send = k % 2;
  op.choices = g.size () > 2 && k % 16 == 0;
  E.maxexec = E.thorough ? 100 : 12;
  E.run ((int) g.size () - 1, op, [&](int) { ghosts (hc, C, g, H, bt.first, S, ex); });
  return true;
}
static void node_case (HostConn &hc, const Cols &C, const std::vector<int> &g, int64_t H, int k)
{
  if (!E.sub ()) return;
  static const int dd[][2] = {{2, 0}, {1, 0}, {3, 0}, {1, 2}, {2, 3}, {4, 0}};
  const int *ds = dd[k % 6];
  Cells L = cells_of (C);
  NodeCase nc;
  nc.H = hanging (*hc.m, L);
  bool dev = false;
  auto o = owners (g);
  for (int i = 0; i < 2; ++i) if (ds[i]) {
    nc.R.push_back (node_ref6 (*hc.m, C, nc.H, ds[i]));
    auto &N = nc.R.back ().N;
    for (int n = 0; n < N.n; ++n) dev = dev || o[(size_t) N.low[(size_t) n]] != o[(size_t) N.alt[(size_t) n]];
  }
  nc.two = node_ref6 (*hc.m, C, nc.H, 2);
  nc.M.resize (nc.R.size ());
  int P = (int) g.size () - 1;
  bool own = k / 6 % 2;
  GhostSets S;
  if (own) { Forest F {hc.m, L}; S = ghost_sets (adjacency (F), g, 0); }
  E.describe ([=, &hc] { return strf ("%s cuts %s columns {%s}: nodes of degree %d %d%s", hc.m->name.c_str (), str (g).c_str (), str (C).c_str (), ds[0], ds[1], own ? " with given ghosts" : ""); });
  E.transition ((long) nc.R.size ());
  E.validated ();
  vp::Options op;
  op.leak_mpi = true;
  op.sync_send = k % 2;
  op.choices = P > 1 && k % 16 == 1;
  E.maxexec = E.thorough ? 100 : 12;
  auto before = [&] { for (size_t i = 0; i < nc.R.size (); ++i) nc.M[i].reset (nc.R[i].n); nc.label.assign (nc.R.size (), std::vector<std::map<int64_t, int>> ((size_t) P)); };
  bool alt = false;
  if (dev) {
    // see the known finding lnodes-owner-order of C15
    before ();
    vp::Options o1 = op;
    o1.choices = false;
    auto r = E.once (P, o1, [&](int) { nodes (hc, C, g, H, nc, false, own, S); });
    alt = r.kind != vp::OK;
  }
  E.run (P, op, [&](int) { nodes (hc, C, g, H, nc, alt, own, S); }, before);
}

void enumerate ()
{
  bool th = E.thorough;
  int rot = 0;
  auto cutsets = [](int N, int k) { return k % 4 == 0 ? std::vector<int> {0, N} : k % 4 == 1 ? std::vector<int> {0, 1, N} : k % 4 == 2 ? std::vector<int> {0, N - 1, N} : std::vector<int> {0, N / 2, N / 2, N}; };
  // (1) all pairs of profiles
  for (int n : {1, 3}) for (int sh = 0; sh < 4; ++sh) {
    static const char *nm[] = {"columns sharing a face", "diagonal columns", "small and large columns", "small columns at a corner"};
    E.stage ("%d root layers, %s: all pairs of profiles", n, nm[sh]);
    auto m = named (sh == 0 ? "brick221" : "unit");
    HostConn hc (m);
    auto pr = profiles (n, 3 + (n == 3 && th));
    if (!th && n == 1) { auto ch = pr; pr.clear (); for (auto &v : ch) if (v.size () <= 6) pr.push_back (v); }
    if (n == 1) { pr.push_back ({6, 6, 5, 4, 3, 2, 1}); pr.push_back ({1, 3, 4, 5, 6, 6, 2}); }
    for (auto &v : pr) {
      int r0 = rot++ * 11;
      if (!E.take ()) continue;
      E.state ();
      std::set<std::string> seen;
      for (auto &w : pr) {
        int k = r0++;
        Cols C;
        Lv low = pr[0];
        if (sh == 0) { for (int t = 0; t < m->nt; ++t) C.push_back ({root (t), t == 0 ? v : t == 1 ? w : low}); }
        else if (sh == 1) for (int i = 0; i < NC; ++i) C.push_back ({child (root (0), i), i == 0 ? v : i == 3 ? w : low});
        else {
          for (int i = 0; i < NC; ++i) C.push_back ({child (child (root (0), 0), i), i == (sh == 2 ? 1 : 3) ? v : low});
          for (int i = 1; i < NC; ++i) C.push_back ({child (root (0), i), i == (sh == 2 ? 1 : 3) ? w : low});
        }
        int N = (int) C.size ();
        auto g = cutsets (N, k);
        if (k % 4 != 0 || k % 8 == 0) ghost_case (hc, C, g, root_height (n), k);
        for (int type = 1; type < 3; ++type) {
          Cols B = balanced (m, C, type);
          if (!seen.insert (str (B)).second) continue;
          node_case (hc, B, cutsets ((int) B.size (), k + type), root_height (n), k * 2 + type);
        }
      }
    }
  }
  // (2) column meshes and partitions
  for (auto nm : {"unit", "periodic", "brick221", "rotwrap", "moebius", "star", "pillow", "corner", "bowtie", "disk2d", "cubed"}) {
    auto m = named (nm);
    if (!m) continue;
    E.stage ("%s: column meshes and partitions", nm);
    HostConn hc (m);
    auto fs = reachable (uniform (m->nt, 0), m->nt == 1 ? 4 : 3, 4, th ? 200 : 30);
    fs.push_back (uniform (m->nt, 1));
    for (int n : {1, 3}) for (auto &L : fs) {
      int r0 = rot++ * 5;
      if (!E.take ()) continue;
      E.state ();
      auto pr = profiles (n, 3);
      parts (L, 1, 4, th ? 20 : 4, [&](int P, const std::vector<int> &g) {
        int k = r0++;
        if (P > 1) ghost_case (hc, with_profiles (L, pr, (uint64_t) k), g, root_height (n), k);
      });
      Cols B = balanced (m, with_profiles (L, pr, (uint64_t) r0), 1 + r0 % 2);
      parts (cells_of (B), 1, 4, th ? 20 : 4, [&](int, const std::vector<int> &g) {
        int k = r0++;
        node_case (hc, B, g, root_height (n), k);
      });
    }
  }
}
