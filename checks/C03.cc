// C03 Editing or importing a coarse mesh preserves the mesh it describes
#include "ref/groups.hh"
#ifdef P4_TO_P8
#include <p8est_tets_hexes.h>
#endif
#include <cmath>
using namespace br;

typedef std::shared_ptr<Conn> CP;

// ------------------------------------------------------------------ helpers
static p4est_connectivity_t *build (const Conn &m, size_t ab = 0)
{
  p4est_connectivity_t *c = p4est_connectivity_new ((p4est_topidx_t) (m.verts.size () / 3), m.nt,
#ifdef P4_TO_P8
    (p4est_topidx_t) m.ett_off.size () - 1, m.ett_off.back (),
#endif
    (p4est_topidx_t) m.ctt_off.size () - 1, m.ctt_off.back ());
  auto cp = [](auto *d, const std::vector<int> &s) { for (size_t i = 0; i < s.size (); ++i) d[i] = (std::remove_reference_t<decltype (*d)>) s[i]; };
  if (!m.verts.empty ()) { std::copy (m.verts.begin (), m.verts.end (), c->vertices); cp (c->tree_to_vertex, m.ttv); }
  cp (c->tree_to_tree, m.ttt);
  cp (c->tree_to_face, m.ttf);
#ifdef P4_TO_P8
  cp (c->ett_offset, m.ett_off);
  if (c->num_edges) { cp (c->tree_to_edge, m.tte); cp (c->edge_to_tree, m.ett); cp (c->edge_to_edge, m.ete); }
#endif
  cp (c->ctt_offset, m.ctt_off);
  if (c->num_corners) { cp (c->tree_to_corner, m.ttc); cp (c->corner_to_tree, m.ctt); cp (c->corner_to_corner, m.ctc); }
  if (ab) {
    p4est_connectivity_set_attr (c, ab);
    for (size_t i = 0; i < ab * (size_t) m.nt; ++i) c->tree_to_attr[i] = (char) (7 + 31 * i + i / ab);
  }
  return c;
}
static char attr_byte (size_t ab, int t, size_t k) { size_t i = ab * (size_t) t + k; return (char) (7 + 31 * i + i / ab); }
static void same (const p4est_connectivity_t *c, const Conn &m, size_t ab, const char *what)
{
  CP g = model_of (c, "");
  if (!conn_equal (m, *g, false)) fail ("%s: the topology differs", what);
  if (g->ttv != m.ttv || g->verts.size () != m.verts.size () || memcmp (g->verts.data (), m.verts.data (), sizeof (double) * m.verts.size ())) fail ("%s: the geometry differs", what);
  if ((c->num_vertices > 0) != (c->vertices != NULL) || (c->num_vertices > 0) != (c->tree_to_vertex != NULL)) fail ("%s: vertex arrays", what);
  if (c->tree_attr_bytes != ab || (ab > 0) != (c->tree_to_attr != NULL)) fail ("%s: %zu attribute bytes", what, c->tree_attr_bytes);
  for (int t = 0; t < m.nt && ab; ++t) for (size_t k = 0; k < ab; ++k) if (c->tree_to_attr[ab * t + k] != attr_byte (ab, t, k)) fail ("%s: attribute of tree %d", what, t);
}
static void valid (p4est_connectivity_t *c, const char *what) { if (!p4est_connectivity_is_valid (c)) fail ("%s: the result is not valid", what); }
static CP isolated (int k, bool geo = false)
{
  auto m = std::make_shared<Conn> ();
  m->name = strf ("isolated%d", k);
  m->nt = k;
  for (int t = 0; t < k; ++t) for (int f = 0; f < NF; ++f) { m->ttt.push_back (t); m->ttf.push_back (f); }
  m->ctt_off = {0};
  if (D == 3) m->ett_off = {0};
  if (geo) for (int t = 0; t < k; ++t) for (int c = 0; c < NC; ++c) { m->ttv.push_back (NC * t + c); for (int d = 0; d < 3; ++d) m->verts.push_back (d < D ? (c >> d & 1) + (d == 0 ? 2 * t : 0) : 0); }
  return m;
}
static CP clone (const Conn &m) { auto r = std::make_shared<Conn> (m); r->cache.clear (); return r; }

// sides of edges and corners that the tables of a mesh identify, transitively
struct Classes
{
  const Conn &C;
  explicit Classes (const Conn &c) : C (c) {}
  std::set<Side> close (const Side &start, const std::function<std::set<Side> (const Side &)> &next) const
  {
    std::set<Side> s {start};
    std::vector<Side> todo {start};
    while (!todo.empty ()) {
      Side x = todo.back ();
      todo.pop_back ();
      for (auto y : next (x)) { y.flip ^= x.flip; if (s.insert (y).second) todo.push_back (y); }
    }
    return s;
  }
  std::set<Side> edge (int t, int e) const
  {
    return close (Side {t, e, 0}, [&](const Side &x) {
      std::set<Side> n;
#ifdef P4_TO_P8
      n = edge_by_face (C, x.t, x.e);
      int g = C.tte.empty () ? -1 : C.tte[12 * x.t + x.e];
      if (g >= 0) for (int i = C.ett_off[g]; i < C.ett_off[g + 1]; ++i) if (C.ett[i] == x.t && C.ete[i] % 12 == x.e)
        for (int j = C.ett_off[g]; j < C.ett_off[g + 1]; ++j) n.insert (Side {C.ett[j], C.ete[j] % 12, (C.ete[i] / 12) ^ (C.ete[j] / 12)});
#else
      (void) x;
#endif
      return n;
    });
  }
  std::set<Side> corner (int t, int c) const
  {
    return close (Side {t, c, 0}, [&](const Side &x) {
      std::set<Side> n = corner_by_face (C, x.t, x.e);
      for (auto &s : corner_by_edge (C, x.t, x.e)) n.insert (s);
      int g = C.ttc.empty () ? -1 : C.ttc[NC * x.t + x.e];
      if (g >= 0) for (int j = C.ctt_off[g]; j < C.ctt_off[g + 1]; ++j) n.insert (Side {C.ctt[j], C.ctc[j], 0});
      return n;
    });
  }
  bool sane () const            // no edge is glued to itself backwards
  {
    if (D == 3) for (int t = 0; t < C.nt; ++t) for (int e = 0; e < 12; ++e) { auto s = edge (t, e); for (auto &x : s) if (s.count (Side {x.t, x.e, !x.flip})) return false; }
    return true;
  }
};
static void check_classes (const Conn &got, const Conn &want, bool unused)
{
  if (got.ttt != want.ttt || got.ttf != want.ttf) fail ("the face connections differ from the requested ones");
  Classes W (want);
  check_groups (got, [&](int t, int e) { return W.edge (t, e); }, [&](int t, int c) { return W.corner (t, c); }, unused);
}

// ------------------------------------------ the mesh that vertices describe
static bool face_turn (const int *a, int fa, const int *b, int fb, int &o)
{
  // primary is the lower face number; orientation as documented: the corner
  // of the higher face that its first corner touches
  Map m;
  for (o = 0; o < NC / 2; ++o) {
    m = face_map (fa, 1, fb, o);
    bool ok = true;
    for (int c = 0; c < NC && ok; ++c) if ((c >> (fa / 2) & 1) == (fa & 1)) {
      Box p = corner_box (0, c), q = m.apply (p);
      ok = a[c] == b[corner_at (q)];
    }
    if (ok) return true;
  }
  return false;
}
enum Kind { FINE, MANY, TWISTED, COLLAPSED };
// expected mesh: face connections, and all classes listed as groups
static Kind from_vertices (const Conn &in, Conn &out)
{
  out = in;
  out.cache.clear ();
  for (int t = 0; t < in.nt; ++t) for (int f = 0; f < NF; ++f) { out.ttt[NF * t + f] = t; out.ttf[NF * t + f] = f; }
  out.tte.assign (D == 3 ? 12 * in.nt : 0, -1); out.ett_off.assign (D == 3 ? 1 : 0, 0); out.ett.clear (); out.ete.clear ();
  out.ttc.assign (NC * in.nt, -1); out.ctt_off = {0}; out.ctt.clear (); out.ctc.clear ();
  for (int t = 0; t < in.nt; ++t) for (int c = 0; c < NC; ++c) for (int d = 0; d < D; ++d) if (in.ttv[NC * t + c] == in.ttv[NC * t + (c ^ (1 << d))]) return COLLAPSED;
  std::map<std::vector<int>, std::vector<std::pair<int, int>>> faces, edges, corners;
  for (int t = 0; t < in.nt; ++t) {
    for (int f = 0; f < NF; ++f) {
      std::vector<int> k;
      for (int c = 0; c < NC; ++c) if ((c >> (f / 2) & 1) == (f & 1)) k.push_back (in.ttv[NC * t + c]);
      std::sort (k.begin (), k.end ());
      if (std::adjacent_find (k.begin (), k.end ()) != k.end ()) return COLLAPSED;
      faces[k].push_back ({t, f});
    }
#ifdef P4_TO_P8
    for (int e = 0; e < 12; ++e) {
      Box b = edge_box (t, e);
      Box lo = b, hi = b;
      for (int d = 0; d < 3; ++d) { lo.hi[d] = lo.lo[d]; hi.lo[d] = hi.hi[d]; }
      std::vector<int> k {in.ttv[NC * t + corner_at (lo)], in.ttv[NC * t + corner_at (hi)]};
      bool sw = k[0] > k[1];
      if (sw) std::swap (k[0], k[1]);
      edges[k].push_back ({t, e + 12 * sw});
    }
#endif
    for (int c = 0; c < NC; ++c) corners[{in.ttv[NC * t + c]}].push_back ({t, c});
  }
  for (auto &k : faces) {
    auto &v = k.second;
    if (v.size () > 2) return MANY;
    if (v.size () < 2) continue;
    auto a = v[0], b = v[1];
    if (a.second > b.second) std::swap (a, b);
    int o;
    if (!face_turn (&in.ttv[NC * a.first], a.second, &in.ttv[NC * b.first], b.second, o)) return TWISTED;
    out.ttt[NF * a.first + a.second] = b.first; out.ttf[NF * a.first + a.second] = b.second + NF * o;
    out.ttt[NF * b.first + b.second] = a.first; out.ttf[NF * b.first + b.second] = a.second + NF * o;
  }
  if (D == 3) for (auto &k : edges) if (k.second.size () > 1) {
    for (auto &x : k.second) { out.tte[12 * x.first + x.second % 12] = (int) out.ett_off.size () - 1; out.ett.push_back (x.first); out.ete.push_back (x.second); }
    out.ett_off.push_back ((int) out.ett.size ());
  }
  for (auto &k : corners) if (k.second.size () > 1) {
    for (auto &x : k.second) { out.ttc[NC * x.first + x.second] = (int) out.ctt_off.size () - 1; out.ctt.push_back (x.first); out.ctc.push_back (x.second); }
    out.ctt_off.push_back ((int) out.ctt.size ());
  }
  return FINE;
}
// the mesh after p4est_connectivity_complete
static void check_complete (p4est_connectivity_t *c, const Conn &in, size_t ab, const char *what)
{
  Conn want;
  if (from_vertices (in, want) != FINE) fail ("model");
  CP g = model_of (c, "");
  if (g->ttv != in.ttv || g->verts.size () != in.verts.size () || memcmp (g->verts.data (), in.verts.data (), sizeof (double) * in.verts.size ())) fail ("%s changes the vertices", what);
  if (c->tree_attr_bytes != ab) fail ("%s changes the attributes", what);
  for (int t = 0; t < in.nt && ab; ++t) for (size_t k = 0; k < ab; ++k) if (c->tree_to_attr[ab * t + k] != attr_byte (ab, t, k)) fail ("%s: attribute of tree %d", what, t);
  check_classes (*g, want, false);
}
static void clear_tables (p4est_connectivity_t *c)
{
  for (int t = 0; t < c->num_trees; ++t) for (int f = 0; f < NF; ++f) { c->tree_to_tree[NF * t + f] = t; c->tree_to_face[NF * t + f] = (int8_t) f; }
}

// ------------------------------------------------------------ stages
static std::vector<CP> meshes ()
{
  static std::vector<CP> all;
  if (all.empty ()) {
    for (auto n : conn_names ()) if (auto m = named (n)) all.push_back (m);
    for (int k = 0; k < (D == 3 ? 4 : 2); ++k) all.push_back (touching (k));
    all.push_back (isolated (3));
  }
  return all;
}
static CP bare (CP m)
{
  CP c = clone (*m);
  c->name += "-novertices";
  c->verts.clear ();
  c->ttv.clear ();
  return c;
}
static void copies ()
{
  vp::Options op;
  for (auto m0 : meshes ()) for (int geo = 0; geo < 2; ++geo) {
    if (geo && m0->verts.empty ()) continue;
    CP m = geo ? bare (m0) : m0;
    E.stage ("copy %s", m->name.c_str ());
    if (!E.take ()) continue;
    for (size_t ab : {0, 1, 3, 8}) {
      if (!E.sub ()) continue;
      E.describe ([=] { return strf ("copies of %s with %zu attribute bytes", m->name.c_str (), ab); });
      E.run (1, op, [&](int) {
        rank_begin ();
        long b0 = vp::live_blocks (0);
        p4est_connectivity_t *c = build (*m, ab);
        for (int w = 0; w < 2; ++w) {
          p4est_connectivity_t *k = p4est_connectivity_copy (c, w);
          same (k, *m, w ? ab : 0, "copy");
          same (c, *m, ab, "source of the copy");
          if (!!p4est_connectivity_is_equal (k, c) != (w || !ab)) fail ("is_equal says %d for a copy %s attributes", p4est_connectivity_is_equal (k, c), w ? "with" : "without");
          if (!p4est_connectivity_is_equivalent (k, c)) fail ("a copy is not equivalent");
          // independent of the source
          if (k->num_vertices) { k->vertices[0] += 1; k->tree_to_vertex[0] ^= 1; }
          k->tree_to_tree[0] += 1;
          k->tree_to_face[0] += 1;
          k->ctt_offset[0] += 1;
          if (k->num_corners) { k->tree_to_corner[0] += 1; k->corner_to_tree[0] += 1; k->corner_to_corner[0] += 1; }
#ifdef P4_TO_P8
          k->ett_offset[0] += 1;
          if (k->num_edges) { k->tree_to_edge[0] += 1; k->edge_to_tree[0] += 1; k->edge_to_edge[0] += 1; }
#endif
          if (w && ab) k->tree_to_attr[0] ^= 1;
          same (c, *m, ab, "source of a changed copy");
          p4est_connectivity_destroy (k);
        }
        p4est_connectivity_t *n = p4est_connectivity_new_copy (c->num_vertices, c->num_trees,
#ifdef P4_TO_P8
          c->num_edges,
#endif
          c->num_corners, c->vertices, c->tree_to_vertex, c->tree_to_tree, c->tree_to_face,
#ifdef P4_TO_P8
          c->tree_to_edge, c->ett_offset, c->edge_to_tree, c->edge_to_edge,
#endif
          c->tree_to_corner, c->ctt_offset, c->corner_to_tree, c->corner_to_corner);
        same (n, *m, 0, "copy from constants");
        p4est_connectivity_destroy (n);
        // removing what follows
        p4est_connectivity_reduce (c);
        valid (c, "reduce");
        Conn r = *m;
        r.tte.clear (); r.ett_off.assign (D == 3 ? 1 : 0, 0); r.ett.clear (); r.ete.clear (); r.ttc.clear (); r.ctt_off = {0}; r.ctt.clear (); r.ctc.clear ();
        same (c, r, ab, "reduce");
        p4est_connectivity_destroy (c);
        if (vp::live_blocks (0) != b0) fail ("memory is not freed");
        rank_end ();
      });
    }
  }
}
static void spread (bool th)
{
  vp::Options op;
  op.leak_mpi = true;
  for (auto m0 : meshes ()) for (int geo = 0; geo < 2; ++geo) {
    if (geo && m0->verts.empty ()) continue;
    CP m = geo ? bare (m0) : m0;
    E.stage ("spread %s", m->name.c_str ());
    if (!E.take ()) continue;
    int maxP = th ? 6 : 5;
    for (int P = 1; P <= maxP; ++P) for (int root = 0; root < P; ++root) for (int how = 0; how < 2; ++how) for (size_t ab : {0, 3}) {
      if (!E.sub ()) continue;
      E.describe ([=] { return strf ("%s %s with %zu attribute bytes from %d of %d", how ? "share" : "broadcast", m->name.c_str (), ab, root, P); });
      E.run (P, op, [&](int me) {
        rank_begin ();
        p4est_connectivity_t *c = me == root ? build (*m, ab) : NULL;
        if (how == 0) {
          p4est_connectivity_t *k = p4est_connectivity_bcast (c, root, sc_MPI_COMM_WORLD);
          if (me == root && k != c) fail ("the root obtains another mesh");
          same (k, *m, ab, "broadcast");
          p4est_connectivity_destroy (k);
        }
        else {
          p4est_connectivity_shared_t *s = p4est_connectivity_share (c, root, sc_MPI_COMM_WORLD);
          same (s->conn, *m, ab, "share");
          p4est_connectivity_shared_destroy (s);
        }
        rank_end ();
      });
    }
    for (int P = 1; P <= maxP; ++P) for (int ns = 1; ns <= P; ++ns) for (size_t ab : {0, 3}) {
      if (!E.sub ()) continue;
      E.describe ([=] { return strf ("mission %s with %zu attribute bytes on %d processes, %d per node", m->name.c_str (), ab, P, ns); });
      E.run (P, op, [&](int me) {
        rank_begin ();
        vp::node_size = ns;
        p4est_connectivity_t *c = me == 0 ? build (*m, ab) : NULL;
        p4est_connectivity_shared_t *s = p4est_connectivity_mission (c, sc_MPI_COMM_TYPE_SHARED, sc_MPI_COMM_WORLD);
        same (s->conn, *m, ab, "mission");
        p4est_connectivity_shared_destroy (s);
        rank_end ();
      }, nullptr, [] { vp::node_size = 0; });
    }
  }
}
static void permutations (bool th)
{
  vp::Options op;
  std::vector<CP> v = meshes ();
  v.push_back (twotrees (0, 3, 1));
  for (auto m : v) {
    E.stage ("permute %s", m->name.c_str ());
    if (!E.take ()) continue;
    std::vector<std::vector<int>> ps;
    std::vector<int> p (m->nt);
    for (int i = 0; i < m->nt; ++i) p[i] = i;
    if (m->nt <= (th ? 6 : 5)) do ps.push_back (p); while (std::next_permutation (p.begin (), p.end ()));
    else for (int i = 0; i < m->nt; ++i) for (int j = 0; j <= i; ++j) { auto q = p; std::rotate (q.begin (), q.begin () + i, q.end ()); std::reverse (q.begin (), q.begin () + j); ps.push_back (q); }
    for (int dir = 0; dir < 2; ++dir) for (size_t ab : {0, 3}) {
      if (!E.sub ()) continue;
      E.describe ([=] { return strf ("permute %s with %zu attribute bytes, %s", m->name.c_str (), ab, dir ? "current to new" : "new to current"); });
      E.run (1, op, [&](int) {
        rank_begin ();
        for (auto &q : ps) {
          p4est_connectivity_t *c = build (*m, ab);
          sc_array_t *a = sc_array_new_count (sizeof (size_t), (size_t) m->nt);
          for (int i = 0; i < m->nt; ++i) *(size_t *) sc_array_index (a, (size_t) i) = (size_t) q[i];
          p4est_connectivity_permute (c, a, dir);
          std::vector<int> nw (m->nt);           // current to new
          for (int i = 0; i < m->nt; ++i) { if (dir) nw[i] = q[i]; else nw[q[i]] = i; }
          for (int i = 0; i < m->nt; ++i) if (*(size_t *) sc_array_index (a, (size_t) i) != (size_t) q[i]) fail ("permute changes the permutation");
          Conn w = *m;
          auto rows = [&](std::vector<int> &d, const std::vector<int> &s, int n, bool ren) { if (!s.empty ()) for (int t = 0; t < m->nt; ++t) for (int k = 0; k < n; ++k) d[n * nw[t] + k] = ren ? nw[s[n * t + k]] : s[n * t + k]; };
          rows (w.ttv, m->ttv, NC, false);
          rows (w.ttt, m->ttt, NF, true);
          rows (w.ttf, m->ttf, NF, false);
          rows (w.tte, m->tte, 12, false);
          rows (w.ttc, m->ttc, NC, false);
          for (auto &t : w.ett) t = nw[t];
          for (auto &t : w.ctt) t = nw[t];
          valid (c, "permute");
          CP g = model_of (c, "");
          if (!conn_equal (w, *g)) fail ("permute: the result is not the renumbered mesh");
          for (int t = 0; t < m->nt && ab; ++t) for (size_t k = 0; k < ab; ++k) if (c->tree_to_attr[ab * nw[t] + k] != attr_byte (ab, t, k)) fail ("permute: tree %d has the attribute of another tree", nw[t]);
          sc_array_destroy (a);
          p4est_connectivity_destroy (c);
          E.transition ();
        }
        rank_end ();
      });
    }
  }
}
// what the transforms of a tree corner or edge are built from
static std::vector<std::multiset<Side>> relations (const Conn &m)
{
  std::vector<std::multiset<Side>> r;
  for (int t = 0; t < m.nt; ++t) {
#ifdef P4_TO_P8
    for (int e = 0; e < 12; ++e) {
      std::multiset<Side> s;
      int g = m.tte.empty () ? -1 : m.tte[12 * t + e];
      std::set<Side> near = edge_by_face (m, t, e);
      near.insert (Side {t, e, 0});
      if (g >= 0) for (int i = m.ett_off[g]; i < m.ett_off[g + 1]; ++i) if (m.ett[i] == t && m.ete[i] % 12 == e)
        for (int j = m.ett_off[g]; j < m.ett_off[g + 1]; ++j) { Side x {m.ett[j], m.ete[j] % 12, (m.ete[i] / 12) ^ (m.ete[j] / 12)}; if (!near.count (x)) s.insert (x); }
      r.push_back (s);
    }
#endif
    for (int c = 0; c < NC; ++c) {
      std::multiset<Side> s;
      int g = m.ttc.empty () ? -1 : m.ttc[NC * t + c];
      std::set<Side> near = corner_by_face (m, t, c);
      for (auto &x : corner_by_edge (m, t, c)) near.insert (x);
      near.insert (Side {t, c, 0});
      if (g >= 0) for (int j = m.ctt_off[g]; j < m.ctt_off[g + 1]; ++j) { Side x {m.ctt[j], m.ctc[j], 0}; if (!near.count (x)) s.insert (x); }
      r.push_back (s);
    }
  }
  return r;
}
static bool equivalent (const Conn &a, const Conn &b)
{
  return a.nt == b.nt && a.ttt == b.ttt && a.ttf == b.ttf && relations (a) == relations (b);
}
static void drop_group (Conn &m, int dim, int g)
{
  auto &tab = dim ? m.tte : m.ttc;
  auto &off = dim ? m.ett_off : m.ctt_off;
  auto &tt = dim ? m.ett : m.ctt;
  auto &cc = dim ? m.ete : m.ctc;
  int b = off[g], n = off[g + 1] - b;
  tt.erase (tt.begin () + b, tt.begin () + b + n);
  cc.erase (cc.begin () + b, cc.begin () + b + n);
  off.erase (off.begin () + g + 1);
  for (size_t i = g + 1; i < off.size (); ++i) off[i] -= n;
  for (auto &x : tab) if (x == g) x = -1; else if (x > g) --x;
  if (off.size () == 1) tab.clear ();
  m.cache.clear ();
}
static void comparisons (bool th)
{
  vp::Options op;
  std::vector<CP> v = meshes ();
  for (int l = 0; l < NF; ++l) for (int r = 0; r < NF; ++r) for (int o = 0; o < NC / 2; ++o) if (th || (l < 2 && r > NF - 3)) if (auto m = twotrees (l, r, o)) v.push_back (m);
  for (size_t i = 0; i < v.size (); ++i) {
    E.stage ("compare %s", v[i]->name.c_str ());
    if (!E.take ()) continue;
    std::vector<CP> w;
    auto m = v[i];
    // other groupings of the same sides, missing groups
    for (int dim = 0; dim < D - 1; ++dim) {
      auto &off = dim ? m->ett_off : m->ctt_off;
      int n = (int) off.size () - 1;
      for (int g = 0; g < n && g < 4; ++g) { CP x = clone (*m); drop_group (*x, dim, g); x->name += strf (" without group %d of dimension %d", g, dim); w.push_back (x); }
      if (n) {
        CP x = clone (*m);
        auto &tt = dim ? x->ett : x->ctt;
        auto &cc = dim ? x->ete : x->ctc;
        for (int g = 0; g < n; ++g) { std::rotate (tt.begin () + off[g], tt.begin () + off[g] + 1, tt.begin () + off[g + 1]); std::rotate (cc.begin () + off[g], cc.begin () + off[g] + 1, cc.begin () + off[g + 1]); }
        x->name += strf (" rotated groups of dimension %d", dim);
        w.push_back (x);
        if (dim) { CP y = clone (*m); for (auto &e : y->ete) e = (e + 12) % 24; y->name += " all edges reversed"; w.push_back (y); }
#ifndef P4EST_ENABLE_DEBUG
        if (dim) { CP z = clone (*m); z->ete[0] = (z->ete[0] + 12) % 24; z->name += " one edge reversed"; w.push_back (z); }
#endif
      }
      if (n > 1) {
        CP x = clone (*m);       // groups 0 and 1 trade numbers
        auto &tab = dim ? x->tte : x->ttc;
        auto &tt = dim ? x->ett : x->ctt;
        auto &cc = dim ? x->ete : x->ctc;
        auto &of = dim ? x->ett_off : x->ctt_off;
        std::rotate (tt.begin (), tt.begin () + off[1], tt.begin () + off[2]);
        std::rotate (cc.begin (), cc.begin () + off[1], cc.begin () + off[2]);
        of[1] = off[2] - off[1];
        for (auto &k : tab) if (k >= 0 && k < 2) k = 1 - k;
        x->name += strf (" swapped groups of dimension %d", dim);
        w.push_back (x);
      }
    }
    if (!m->verts.empty ()) { CP x = clone (*m); x->verts.back () += 1; x->name += " moved"; w.push_back (x); x = clone (*m); std::swap (x->ttv[0], x->ttv[1]); x->name += " vertices swapped"; w.push_back (x); w.push_back (bare (m)); }
    for (auto k : v) w.push_back (k);
    if (E.sub ()) {
      E.describe ([=] { return strf ("comparisons with %s", m->name.c_str ()); });
      E.run (1, op, [&](int) {
        rank_begin ();
        long b0 = vp::live_blocks (0);
        p4est_connectivity_t *a = build (*m);
        for (auto &x : w) {
          p4est_connectivity_t *b = build (*x);
          bool eq = conn_equal (*m, *x), ev = equivalent (*m, *x);
          for (int o = 0; o < 2; ++o) {
            if (!!p4est_connectivity_is_equal (o ? b : a, o ? a : b) != eq) fail ("is_equal says %d for %s", !eq, x->name.c_str ());
            if (!!p4est_connectivity_is_equivalent (o ? b : a, o ? a : b) != (eq || ev)) fail ("is_equivalent says %d for %s", !ev, x->name.c_str ());
          }
          p4est_connectivity_destroy (b);
          E.transition ();
        }
        for (size_t ab : {1, 2}) for (size_t k = 0; k <= ab * (size_t) m->nt && k < 64; ++k) {
          p4est_connectivity_t *b = build (*m, 2), *c = build (*m, ab);
          bool eq = ab == 2;
          if (k < ab * (size_t) m->nt) { c->tree_to_attr[k] ^= 64; eq = false; }
          if (!!p4est_connectivity_is_equal (b, c) != eq) fail ("is_equal says %d for attributes of %zu bytes changed at %zu", !eq, ab, k);
          if (!p4est_connectivity_is_equivalent (b, c)) fail ("attributes matter for is_equivalent");
          p4est_connectivity_destroy (b);
          p4est_connectivity_destroy (c);
        }
        p4est_connectivity_destroy (a);
        if (vp::live_blocks (0) != b0) fail ("comparisons leave %ld blocks of memory", vp::live_blocks (0) - b0);
        rank_end ();
      });
    }
  }
}
// completion of small meshes that are given by their vertices
static CP mesh_of (const std::vector<int> &ttv)
{
  CP m = isolated ((int) ttv.size () / NC);
  m->ttv = ttv;
  int nv = 0;
  for (int v : ttv) nv = std::max (nv, v + 1);
  for (int v = 0; v < nv; ++v) { m->verts.push_back (v); m->verts.push_back (v * v % 7); m->verts.push_back (v * v * v % 11); }
  return m;
}
static void try_complete (const std::vector<int> &ttv, int scramble)
{
  CP m = mesh_of (ttv);
  Conn want;
  if (from_vertices (*m, want) != FINE) return;
  p4est_connectivity_t *c = build (*m, scramble ? 2 : 0);
  p4est_connectivity_complete (c);
  valid (c, "complete");
  check_complete (c, *m, scramble ? 2 : 0, "complete");
  if (scramble) {
    // what the corner tables said before does not matter
    p4est_connectivity_t *k = p4est_connectivity_copy (c, 1);
    p4est_connectivity_complete (k);
    if (!p4est_connectivity_is_equal (c, k)) fail ("completing twice changes the mesh");
    p4est_connectivity_reduce (k);
    p4est_connectivity_complete (k);
    if (!p4est_connectivity_is_equal (c, k)) fail ("completing the reduced mesh changes it");
    p4est_connectivity_destroy (k);
  }
  p4est_connectivity_destroy (c);
  E.transition ();
}
// all ways to attach one more tree to the vertices 0..nv-1
static void attach (int nv, int maxold, const std::function<void(const std::vector<int> &)> &f)
{
  std::vector<int> t;
  std::function<void(int, int)> rec = [&](int fresh, int old) {
    if (t.size () == NC) { f (t); return; }
    if (old < maxold) for (int v = 0; v < nv; ++v) if (std::find (t.begin (), t.end (), v) == t.end ()) { t.push_back (v); rec (fresh, old + 1); t.pop_back (); }
    t.push_back (fresh);
    rec (fresh + 1, old);
    t.pop_back ();
  };
  rec (nv, 0);
}
static void completions (bool th)
{
  vp::Options op;
  for (auto m : meshes ()) if (!m->verts.empty ()) {
    E.stage ("complete %s", m->name.c_str ());
    if (!E.take ()) continue;
    Conn want;
    if (from_vertices (*m, want) != FINE) continue;
    for (int keep = 0; keep < 3; ++keep) if (E.sub ()) {
      E.describe ([=] { return strf ("complete %s", m->name.c_str ()); });
      E.run (1, op, [&](int) {
        rank_begin ();
        p4est_connectivity_t *c = build (*m, 3);
        if (keep < 2) p4est_connectivity_reduce (c);
        if (keep < 1) clear_tables (c);
        if (keep > 0) {
          // faces that are not inherent in the vertices may disappear only where the vertices say so
          clear_tables (c);
        }
        p4est_connectivity_complete (c);
        valid (c, "complete");
        check_complete (c, *m, 3, "complete");
        p4est_connectivity_destroy (c);
        rank_end ();
      });
    }
  }
  // first trees: proper, or with corners that coincide
  std::vector<std::vector<int>> first;
  { std::vector<int> a; for (int c = 0; c < NC; ++c) a.push_back (c); first.push_back (a); }
#ifndef P4_TO_P8
  first.push_back ({0, 1, 1, 2});
  first.push_back ({0, 1, 2, 0});
#else
  first.push_back ({0, 1, 2, 3, 4, 5, 6, 0});
  first.push_back ({0, 1, 1, 2, 3, 4, 5, 6});
  first.push_back ({0, 1, 2, 3, 4, 5, 3, 6});
#endif
  for (auto &a : first) {
    E.stage ("complete two trees from %s", [&] { std::string s; for (int v : a) s += strf ("%d", v); return s; } ().c_str ());
    int nv = 1 + *std::max_element (a.begin (), a.end ());
    std::vector<std::vector<int>> seconds;
    attach (nv, D == 3 ? (th ? 8 : 4) : 4, [&](const std::vector<int> &t) { seconds.push_back (t); });
    size_t blk = 2000;
    bool proper = &a == &first[0];
    if (!proper && D == 3 && !th) { std::vector<std::vector<int>> s; for (size_t i = 0; i < seconds.size (); i += 11) s.push_back (seconds[i]); seconds.swap (s); }
    for (size_t b = 0; b < seconds.size (); b += blk) {
      if (!E.take ()) continue;
      for (size_t i = b; i < std::min (seconds.size (), b + blk); i += 100) if (E.sub ()) {
        E.describe ([&, i] { std::string s; for (int v : seconds[i]) s += strf (" %d", v); return "complete two trees, the second from" + s; });
        E.run (1, op, [&](int) {
          rank_begin ();
          for (size_t j = i; j < std::min (seconds.size (), i + 100); ++j) { auto v = a; v.insert (v.end (), seconds[j].begin (), seconds[j].end ()); try_complete (v, j % 3 == 0); }
          rank_end ();
        });
      }
    }
    if (D == 2) {
      E.stage ("complete three trees");
      for (size_t i = 0; i < seconds.size (); ++i) {
        if (!E.take ()) continue;
        auto v = a;
        v.insert (v.end (), seconds[i].begin (), seconds[i].end ());
        int n2 = 1 + *std::max_element (v.begin (), v.end ());
        std::vector<std::vector<int>> th3;
        attach (n2, th ? 4 : 3, [&](const std::vector<int> &t) { th3.push_back (t); });
        for (size_t j = 0; j < th3.size (); j += 200) if (E.sub ()) {
          E.describe ([&, j] { std::string s; for (int x : v) s += strf (" %d", x); for (int x : th3[j]) s += strf (" %d", x); return "complete three trees from" + s; });
          E.run (1, op, [&](int) {
            rank_begin ();
            for (size_t k = j; k < std::min (th3.size (), j + 200); ++k) { auto w = v; w.insert (w.end (), th3[k].begin (), th3[k].end ()); try_complete (w, k % 3 == 0); }
            rank_end ();
          });
        }
      }
    }
  }
}
// ------------------------------------------------------------------ joining
struct Join { int tl, tr, fl, fr, o; };
static std::vector<Join> joins (const Conn &m)
{
  std::vector<Join> v;
  for (int a = 0; a < NF * m.nt; ++a) for (int b = 0; b < NF * m.nt; ++b) if (a != b && m.boundary (a / NF, a % NF) && m.boundary (b / NF, b % NF))
    for (int o = 0; o < NC / 2; ++o) v.push_back (Join {a / NF, b / NF, a % NF, b % NF, o});
  return v;
}
static std::string str (const Join &j) { return strf ("%d:%d-%d:%d/%d", j.tl, j.fl, j.tr, j.fr, j.o); }
// one join on a mesh; returns the mesh the library made, or null where the request makes no sense
static CP do_join (const Conn &m, const Join &j, p4est_connectivity_t **out = NULL)
{
  CP w = clone (m);
  w->ttt[NF * j.tl + j.fl] = j.tr; w->ttf[NF * j.tl + j.fl] = j.fr + NF * j.o;
  w->ttt[NF * j.tr + j.fr] = j.tl; w->ttf[NF * j.tr + j.fr] = j.fl + NF * j.o;
  if (!Classes (*w).sane ()) return nullptr;
  p4est_connectivity_t *c = build (m, 2);
  p4est_connectivity_join_faces (c, j.tl, j.tr, j.fl, j.fr, j.o);
  valid (c, "join");
  CP g = model_of (c, "");
  if (g->ttv != m.ttv || g->verts != m.verts) fail ("join %s changes the vertices", str (j).c_str ());
  for (int t = 0; t < m.nt; ++t) for (size_t k = 0; k < 2; ++k) if (c->tree_to_attr[2 * t + k] != attr_byte (2, t, k)) fail ("join changes the attributes");
  check_classes (*g, *w, true);
  if (out) *out = c; else p4est_connectivity_destroy (c);
  E.transition ();
  return g;
}
static void joining (bool th)
{
  vp::Options op;
  std::vector<std::pair<CP, int>> starts;        // mesh, depth
  starts.push_back ({isolated (1), 3});
  starts.push_back ({isolated (2, true), D == 2 ? 3 : 2});
  starts.push_back ({isolated (3), D == 2 ? 2 : 1});
  for (auto m : meshes ()) {
    starts.push_back ({m, m->nt <= 4 || D == 2 ? 2 : 1});
    Conn want;
    if (!m->verts.empty () && from_vertices (*m, want) == FINE) {
      // the same mesh with every class listed
      CP x = clone (want);
      x->name = m->name + "-listed";
      if (x->tte.size () && x->ett.empty ()) x->tte.clear ();
      if (x->ctt.empty ()) x->ttc.clear ();
      starts.push_back ({x, m->nt <= 2 ? 2 : 1});
    }
  }
  // two groups with edges running backwards
  for (auto &s : starts) {
    CP m = s.first;
    int depth = s.second;
    E.stage ("join %s", m->name.c_str ());
    std::vector<Join> js = joins (*m);
    int per = th ? 1 : std::max<int> (1, (int) js.size () / 2000);
    for (size_t b = 0; b < js.size (); b += 8) {
      if (!E.take ()) continue;
      for (size_t i = b; i < std::min (js.size (), b + 8); i += per) if (E.sub ()) {
        Join j = js[i];
        E.describe ([=] { return strf ("join %s in %s and then every second one", str (j).c_str (), m->name.c_str ()); });
        E.run (1, op, [&](int) {
          rank_begin ();
          long budget = th ? 3000 : 120;
          std::function<void(const Conn &, const Join &, int)> go = [&](const Conn &k, const Join &x, int d) {
            CP g = do_join (k, x);
            if (!g || d == 1) return;
            std::vector<Join> n = joins (*g);
            size_t step = std::max<size_t> (1, n.size () / (d == 2 ? (size_t) budget : 24));
            for (size_t q = (i % step); q < n.size (); q += step) go (*g, n[q], d - 1);
          };
          go (*m, j, depth);
          rank_end ();
        });
      }
    }
  }
}
// --------------------------------------------------------------- refinement
static int64_t grid_pos (int i, int n) { int64_t h = R / n; return 2 * i <= n ? i * h : R - (n - i) * h; }
static void refinement (bool th)
{
  vp::Options op;
  op.guard = true;
  for (auto m : meshes ()) if (!m->verts.empty ()) for (int n = 1; n <= (D == 2 ? (th ? 7 : 5) : (th ? 4 : 3)); ++n) {
    if (D == 3 && m->nt > 8 && n > 2 && !th) continue;
    E.stage ("refine %s %d", m->name.c_str (), n);
    if (!E.take () || !E.sub ()) continue;
    E.describe ([=] { return strf ("refine %s into %d per dimension", m->name.c_str (), n); });
    // cells in z-order
    struct Sub { int x[3]; };
    std::vector<Sub> cells;
    for (int z = 0; z < (D == 3 ? n : 1); ++z) for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) cells.push_back (Sub {{x, y, z}});
    std::sort (cells.begin (), cells.end (), [](const Sub &a, const Sub &b) { int64_t p[3], q[3]; for (int d = 0; d < 3; ++d) { p[d] = a.x[d]; q[d] = b.x[d]; } return zcmp_pt (p, q) < 0; });
    int N = (int) cells.size ();
    auto sub_at = [&](int t, const int *x) { for (int k = 0; k < N; ++k) { bool ok = true; for (int d = 0; d < D; ++d) ok = ok && cells[k].x[d] == x[d]; if (ok) return t * N + k; } return -1; };
    auto box = [&](int T) { Box b; b.t = T / N; for (int d = 0; d < 3; ++d) { b.lo[d] = d < D ? grid_pos (cells[T % N].x[d], n) : 0; b.hi[d] = d < D ? grid_pos (cells[T % N].x[d] + 1, n) : 0; } return b; };
    auto cut = [&](const Box &b, int dim, int i) {        // corner or edge i of a box
      Box u = dim == 0 ? corner_box (b.t, i) :
#ifdef P4_TO_P8
        edge_box (b.t, i);
#else
        corner_box (b.t, i);
#endif
      Box r = b;
      for (int d = 0; d < D; ++d) { r.lo[d] = u.lo[d] ? b.hi[d] : b.lo[d]; r.hi[d] = u.hi[d] ? b.hi[d] : b.lo[d]; }
      return r;
    };
    auto idx = [&](int64_t p) { for (int i = 0; i <= n; ++i) if (grid_pos (i, n) == p) return i; return -1; };
    Conn w;
    w.nt = m->nt * N;
    for (int T = 0; T < w.nt; ++T) for (int f = 0; f < NF; ++f) {
      int x[3] = {cells[T % N].x[0], cells[T % N].x[1], cells[T % N].x[2]}, a = f / 2;
      x[a] += f & 1 ? 1 : -1;
      if (x[a] >= 0 && x[a] < n) { w.ttt.push_back (sub_at (T / N, x)); w.ttf.push_back (f ^ 1); continue; }
      std::vector<Map> v;
      m->face_maps (T / N, f, v);
      if (v.empty ()) { w.ttt.push_back (T); w.ttf.push_back (f); continue; }
      Box b = box (T);
      (f & 1 ? b.lo[a] : b.hi[a]) = f & 1 ? b.hi[a] : b.lo[a];
      Box o = v[0].apply (b);
      int y[3] = {0, 0, 0}, nf = m->ttf[NF * (T / N) + f];
      for (int d = 0; d < D; ++d) { y[d] = idx (o.lo[d]); if (d == nf % NF / 2) y[d] = nf & 1 ? n - 1 : 0; }
      if (nf % NF % 2 == 0) y[nf % NF / 2] = 0; else y[nf % NF / 2] = n - 1;
      w.ttt.push_back (sub_at (v[0].t2, y));
      w.ttf.push_back (nf);
    }
    // classes of edges and corners: equal pieces of the coarse mesh
    std::map<Box, std::vector<std::pair<int, int>>> who[2];
    for (int T = 0; T < w.nt; ++T) {
      for (int c = 0; c < NC; ++c) who[0][cut (box (T), 0, c)].push_back ({T, c});
      if (D == 3) for (int e = 0; e < 12; ++e) who[1][cut (box (T), 1, e)].push_back ({T, e});
    }
    auto cls = [&](int dim, int T, int i) {
      std::set<Side> s;
      Box b = cut (box (T), dim, i);
      // follow both the piece and the half of it next to its lower end
      Box h = b;
      if (dim) for (int d = 0; d < D; ++d) if (h.hi[d] > h.lo[d]) h.hi[d] = (h.lo[d] + h.hi[d]) / 2;
      std::vector<std::pair<Box, int>> todo {{b, 0}};
      std::set<std::pair<Box, int>> seen (todo.begin (), todo.end ());
      std::vector<Box> rp;
      m->reps (b, rp);
      std::vector<Box> rh;
      m->reps (h, rh);
      for (auto &x : rp) for (auto &q : who[dim][x]) {
        if (!dim) { s.insert (Side {q.first, q.second, 0}); continue; }
        for (auto &y : rh) if (box_in (y, x) && !(y == x)) {
          bool up = false;
          for (int d = 0; d < D; ++d) if (x.hi[d] > x.lo[d]) up = y.lo[d] != x.lo[d];
          s.insert (Side {q.first, q.second, up});
        }
      }
      return s;
    };
    // the library does not represent edges that are glued to themselves
    E.key = "refine-" + m->name;
    CP got;
    vp::Outcome oc = E.once (1, op, [&](int) {
      rank_begin ();
      long b0 = vp::live_blocks (0);
      p4est_connectivity_t *c = build (*m);
      p4est_connectivity_t *k = p4est_connectivity_refine (c, n);
      same (c, *m, 0, "source of a refinement");
      got = model_of (k, "");
      valid (k, "refine");
      if (got->nt != w.nt) fail ("refine makes %d trees of %d", got->nt, m->nt);
      for (int T = 0; T < w.nt; ++T) for (int q = 0; q < NC; ++q) {
        double eta[3] = {0, 0, 0}, s[3] = {0, 0, 0}, sz = 1;
        for (int d = 0; d < D; ++d) eta[d] = (double) (cells[T % N].x[d] + (q >> d & 1)) / n;
        for (int j = 0; j < NC; ++j) {
          double wt = 1;
          for (int d = 0; d < D; ++d) wt *= (j >> d & 1) ? eta[d] : 1 - eta[d];
          for (int d = 0; d < 3; ++d) { double v = m->verts[3 * m->ttv[NC * (T / N) + j] + d]; s[d] += wt * v; sz = std::max (sz, std::fabs (v)); }
        }
        for (int d = 0; d < 3; ++d) if (!(std::fabs (got->verts[3 * got->ttv[NC * T + q] + d] - s[d]) <= 1e-12 * sz)) fail ("refine: corner %d of new tree %d is at coordinate %d %g instead of %g", q, T, d, got->verts[3 * got->ttv[NC * T + q] + d], s[d]);
      }
      if (got->ttt != w.ttt || got->ttf != w.ttf) fail ("refine: the face connections are not those of the subdivided mesh");
      check_groups (*got, [&](int t, int e) { return cls (1, t, e); }, [&](int t, int c2) { return cls (0, t, c2); });
      p4est_connectivity_destroy (k);
      p4est_connectivity_destroy (c);
      if (vp::live_blocks (0) != b0) fail ("memory is not freed");
      rank_end ();
    });
    if (oc.kind != vp::OK) E.bad ("%s", oc.why.c_str ());
    E.key.clear ();
    E.transition ();
    E.validated ();
    E.state ();
  }
}
#include "checks/C03_files.hh"

void enumerate ()
{
  bool th = E.thorough;
  copies ();
  spread (th);
  permutations (th);
  comparisons (th);
  completions (th);
  joining (th);
  refinement (th);
  files (th);
}
