// Extruded forests: columns of layers over a 2D forest; reference operations.
#pragma once
#include "ref/part.hh"
#include "ref/nodes.hh"
#include <p6est.h>
#include <p6est_extended.h>
namespace br
{
typedef std::vector<int> Lv;            // levels of the layers of a column from the bottom up
struct Col { Cell c; Lv lv; bool operator== (const Col &o) const { return c == o.c && lv == o.lv; } bool operator!= (const Col &o) const { return !(*this == o); } };
typedef std::vector<Col> Cols;
inline std::string str (const Col &c) { std::string s = str (c.c) + "["; for (size_t i = 0; i < c.lv.size (); ++i) s += strf (i ? " %d" : "%d", c.lv[i]); return s + "]"; }
inline std::string str (const Cols &v) { std::string s; for (auto &c : v) { if (!s.empty ()) s += " "; s += str (c); } return s; }
inline Cells cells_of (const Cols &C) { Cells v; for (auto &c : C) v.push_back (c.c); return v; }
inline int64_t height (const Lv &v) { int64_t z = 0; for (int l : v) z += len (l); return z; }
inline int layers_in (const Cols &C, int a, int b) { int n = 0; for (int i = a; i < b; ++i) n += (int) C[(size_t) i].lv.size (); return n; }
// height of a domain made of n layers of equal size
inline int log_root (int n) { int l = 0; while ((1 << l) < n) ++l; return l; }
inline int64_t root_height (int n) { return n * len (log_root (n)); }

// a layer inside the refinement trees of [z, z + len (l))
inline void all_profiles (int l, int depth, std::vector<Lv> &out)
{
  out.push_back ({l});
  if (!depth) return;
  std::vector<Lv> k;
  all_profiles (l + 1, depth - 1, k);
  for (auto &a : k) for (auto &b : k) { Lv v = a; v.insert (v.end (), b.begin (), b.end ()); out.push_back (v); }
}
// maximal dyadic blocks of the domain: {z, level}
inline std::vector<std::pair<int64_t, int>> blocks (int64_t H)
{
  std::vector<std::pair<int64_t, int>> v;
  int64_t z = 0;
  while (z < H) {
    int l = 0;
    while (z % len (l) || z + len (l) > H) ++l;
    v.push_back ({z, l});
    z += len (l);
  }
  return v;
}
// all profiles of height n equal layers, refined by at most depth from the coarsest
inline std::vector<Lv> profiles (int n, int depth)
{
  std::vector<Lv> r {{}};
  for (auto &b : blocks (root_height (n))) {
    std::vector<Lv> k, s;
    all_profiles (b.second, std::max (0, depth - b.second), k);
    for (auto &a : r) for (auto &x : k) { Lv v = a; v.insert (v.end (), x.begin (), x.end ()); s.push_back (v); }
    r = s;
  }
  return r;
}
inline uint64_t key6 (const Cell &c, int64_t z, int l, uint64_t salt = 0)
{
  uint64_t h = 1469598103934665603ULL ^ salt * 0x9E3779B97F4A7C15ULL;
  for (uint64_t v : {(uint64_t) c.t, (uint64_t) c.x[0], (uint64_t) c.x[1], (uint64_t) c.l, (uint64_t) z, (uint64_t) l}) { h ^= v; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32; }
  return h;
}
inline void data6 (unsigned char *d, size_t n, const Cell &c, int64_t z, int l)
{
  uint64_t h = key6 (c, z, l);
  for (size_t i = 0; i < n; ++i) { d[i] = (unsigned char) (h >> 40); h = h * 6364136223846793005ULL + 1442695040888963407ULL; }
}
inline bool data6_ok (const void *d, size_t n, const Cell &c, int64_t z, int l) { unsigned char b[64]; data6 (b, n, c, z, l); return !memcmp (b, d, n); }

// ---------------------------------------------------------------- reference
typedef std::function<bool (const Cell &, int64_t, int)> LayerFn;
typedef std::function<bool (const Cell &)> ColFn;
// S column split, L layer split, M layers merged, J columns joined (z and level of the coarse layer), i initialized, o orphan
struct Event { char k; Cell c; int64_t z; int l; };
inline bool operator< (const Event &a, const Event &b) { if (a.k != b.k) return a.k < b.k; int d = cmp (a.c, b.c); if (d) return d < 0; return std::tie (a.z, a.l) < std::tie (b.z, b.l); }
inline bool operator== (const Event &a, const Event &b) { return !(a < b) && !(b < a); }
inline std::string str (const Event &e) { return strf ("%c %s z %lld level %d", e.k, str (e.c).c_str (), (long long) e.z, e.l); }
struct Events
{
  std::vector<Event> v;
  void add (const char *k, const Cell &c, int64_t z, int l) { v.push_back ({k[0], c, z, l}); }
};
// layers that are new by the events
inline std::vector<Event> new_layers (const Events &ev)
{
  std::vector<Event> r;
  for (auto &e : ev.v) switch (e.k) {
  case 'S': for (int i = 0; i < NC; ++i) r.push_back ({'i', child (e.c, i), e.z, e.l}); break;
  case 'L': for (int i = 0; i < 2; ++i) r.push_back ({'i', e.c, e.z + i * len (e.l + 1), e.l + 1}); break;
  case 'M': case 'J': r.push_back ({'i', e.c, e.z, e.l}); break;
  }
  return r;
}
inline void refine_layer (const Cell &c, int64_t z, int l, bool ask, bool rec, int maxl, const LayerFn &f, Lv &out, Events &ev)
{
  if (ask && l < maxl && f (c, z, l)) {
    ev.add ("L", c, z, l);
    refine_layer (c, z, l + 1, rec, rec, maxl, f, out, ev);
    refine_layer (c, z + len (l + 1), l + 1, rec, rec, maxl, f, out, ev);
  }
  else out.push_back (l);
}
inline Cols refine_layers (const Cols &C, bool rec, int maxl, const LayerFn &f, Events &ev)
{
  Cols r;
  for (auto &k : C) {
    Lv v;
    int64_t z = 0;
    for (int l : k.lv) { refine_layer (k.c, z, l, true, rec, maxl, f, v, ev); z += len (l); }
    r.push_back ({k.c, v});
  }
  return r;
}
struct Lay { int64_t z; int l; bool old; };
// coarsen the layers of v inside the block (z,l); f may be null to accept all
inline std::vector<Lay> coarsen_block (const Cell &c, const std::vector<Lay> &v, int64_t z, int l, bool rec, const LayerFn *f, Events &ev)
{
  std::vector<Lay> in;
  for (auto &x : v) if (x.z >= z && x.z < z + len (l)) in.push_back (x);
  if (in.size () == 1) return in;
  auto a = coarsen_block (c, in, z, l + 1, rec, f, ev), b = coarsen_block (c, in, z + len (l + 1), l + 1, rec, f, ev);
  if (a.size () == 1 && b.size () == 1 && (rec || (a[0].old && b[0].old)) && (!f || (*f) (c, z, l))) { ev.add ("M", c, z, l); return {{z, l, false}}; }
  a.insert (a.end (), b.begin (), b.end ());
  return a;
}
inline Cols coarsen_layers (const Cols &C, int64_t H, bool rec, const LayerFn &f, Events &ev)
{
  Cols r;
  for (auto &k : C) {
    std::vector<Lay> v;
    int64_t z = 0;
    for (int l : k.lv) { v.push_back ({z, l, true}); z += len (l); }
    Lv o;
    for (auto &b : blocks (H)) for (auto &x : coarsen_block (k.c, v, b.first, b.second, rec, &f, ev)) o.push_back (x.l);
    r.push_back ({k.c, o});
  }
  return r;
}
inline void split_events (const Col &k, Events &ev) { int64_t z = 0; for (int l : k.lv) { ev.add ("S", k.c, z, l); z += len (l); } }
inline void refine_col (const Col &k, bool ask, bool rec, int maxl, const ColFn &f, Cols &out, Events &ev)
{
  if (ask && k.c.l < maxl && f (k.c)) {
    split_events (k, ev);
    for (int i = 0; i < NC; ++i) refine_col ({child (k.c, i), k.lv}, rec, rec, maxl, f, out, ev);
  }
  else out.push_back (k);
}
inline Cols refine_columns (const Cols &C, bool rec, int maxl, const ColFn &f, Events &ev)
{
  Cols r;
  for (auto &k : C) refine_col (k, true, rec, maxl, f, r, ev);
  return r;
}
// the coarser of each
inline Col join (const Col *k, Events &ev)
{
  Col p {parent (k[0].c), {}};
  size_t i[NC] = {};
  int64_t z = 0;
  while (i[0] < k[0].lv.size ()) {
    int l = QMAX;
    for (int j = 0; j < NC; ++j) l = std::min (l, k[j].lv[i[j]]);
    for (int j = 0; j < NC; ++j) {
      std::vector<Lay> v;
      int64_t y = z;
      while (y < z + len (l)) { int m = k[j].lv[i[j]++]; v.push_back ({y, m, true}); y += len (m); }
      coarsen_block (k[j].c, v, z, l, true, nullptr, ev);
    }
    ev.add ("J", p.c, z, l);
    p.lv.push_back (l);
    z += len (l);
  }
  return p;
}
inline Cols coarsen_columns_1 (const Cols &C, bool rec, const ColFn &f, Events &ev)
{
  // families of columns are merged from the finest level on
  Cols r = C;
  std::vector<char> old (r.size (), 1);
  std::set<Cell> no;
  for (bool any = true; any;) {
    any = false;
    int best = -1;
    for (int i = 0; i + NC <= (int) r.size (); ++i) {
      if (r[(size_t) i].c.l == 0 || child_id (r[(size_t) i].c) != 0) continue;
      bool fam = true, o = true;
      for (int j = 0; j < NC; ++j) { if (r[(size_t) (i + j)].c != child (parent (r[(size_t) i].c), j)) { fam = false; break; } o = o && old[(size_t) (i + j)]; }
      if (!fam || (!rec && !o) || no.count (parent (r[(size_t) i].c))) continue;
      if (!f (parent (r[(size_t) i].c))) { no.insert (parent (r[(size_t) i].c)); continue; }
      best = i;
      break;
    }
    if (best >= 0) {
      Col p = join (&r[(size_t) best], ev);
      r.erase (r.begin () + best, r.begin () + best + NC);
      old.erase (old.begin () + best, old.begin () + best + NC);
      r.insert (r.begin () + best, p);
      old.insert (old.begin () + best, 0);
      any = true;
    }
  }
  return r;
}
// on each process separately; g becomes the new distribution
inline Cols coarsen_columns (const Cols &C, std::vector<int> &g, bool rec, const ColFn &f, Events &ev)
{
  Cols r;
  std::vector<int> h {0};
  for (size_t p = 0; p + 1 < g.size (); ++p) {
    Cols k = coarsen_columns_1 (Cols (C.begin () + g[p], C.begin () + g[p + 1]), rec, f, ev);
    r.insert (r.end (), k.begin (), k.end ());
    h.push_back ((int) r.size ());
  }
  g = h;
  return r;
}
// new distribution when the columns of a process are refined
inline std::vector<int> follow (const Cols &from, const std::vector<int> &g, const Cols &to)
{
  std::vector<int> h;
  size_t k = 0;
  for (size_t i = 0; i <= from.size (); ++i) {
    for (int x : g) if (x == (int) i) h.push_back ((int) k);
    if (i < from.size ()) while (k < to.size () && contains (from[i].c, to[k].c)) ++k;
  }
  return h;
}
// replace the cells by those of a refinement
inline Cols inherit (const Cols &C, const Cells &L, Events &ev)
{
  Cols r;
  size_t k = 0;
  for (auto &c : L) {
    while (!contains (C[k].c, c)) ++k;
    r.push_back ({c, C[k].lv});
  }
  std::set<Cell> seen;
  k = 0;
  for (auto &c : L) {
    while (!contains (C[k].c, c)) ++k;
    for (Cell a = c; a.l > C[k].c.l;) { a = parent (a); if (!seen.insert (a).second) break; split_events ({a, C[k].lv}, ev); }
  }
  return r;
}
// pairs of columns that are balanced against each other:
// 1 share a face of the column mesh, 0 share a corner
struct Pair6 { int a, b, dim; };
inline std::vector<Pair6> coupled (const std::shared_ptr<const Conn> &m, const Cells &L)
{
  std::map<std::pair<int, int>, int> s;
  Hang H = hanging (*m, L);
  NodeRef N = node_ref (*m, L, H, 2);
  for (int n = 0; n < N.n; ++n) for (int a : N.users[(size_t) n]) for (int b : N.users[(size_t) n]) if (a != b && N.dim[(size_t) n] < 2) { auto it = s.insert ({{a, b}, N.dim[(size_t) n]}).first; it->second = std::max (it->second, N.dim[(size_t) n]); }
  Forest F {m, L};
  Adj A = adjacency (F);
  for (size_t a = 0; a < A.size (); ++a) for (auto &x : A[a]) { auto it = s.insert ({{(int) a, x.j}, x.dim}).first; it->second = std::max (it->second, x.dim); }
  std::vector<Pair6> v;
  for (auto &x : s) v.push_back ({x.first.first, x.first.second, x.second});
  return v;
}
// closed: also layers that touch in a horizontal edge or point only
inline bool constrain (Lv &v, const Lv &w, bool closed)
{
  bool any = false;
  Lv o;
  int64_t z = 0;
  std::function<void (int64_t, int)> go = [&](int64_t y, int l) {
    int64_t x = 0;
    for (int m : w) {
      bool touch = closed ? x <= y + len (l) && y <= x + len (m) : x < y + len (l) && y < x + len (m);
      if (touch && m > l + 1) { any = true; go (y, l + 1); go (y + len (l + 1), l + 1); return; }
      x += len (m);
    }
    o.push_back (l);
  };
  for (int l : v) { go (z, l); z += len (l); }
  if (any) v = o;
  return any;
}
// type: 0 face, 1 edge, 2 full
inline Cols balance_layers (const std::shared_ptr<const Conn> &m, const Cols &C, int type)
{
  Cols r = C;
  auto pr = coupled (m, cells_of (C));
  for (bool any = true; any;) {
    any = false;
    for (auto &k : r) { Lv w = k.lv; any = constrain (k.lv, w, true) || any; }
    for (auto &x : pr) {
      if (x.dim == 0 && type == 0) continue;
      bool closed = x.dim == 1 ? type >= 1 : type == 2;
      any = constrain (r[(size_t) x.a].lv, r[(size_t) x.b].lv, closed) || any;
    }
  }
  return r;
}
inline void layer_events (const Col &a, const Col &b, Events &ev)
{
  std::vector<std::pair<int64_t, int>> fine;
  int64_t z = 0;
  for (int l : b.lv) { fine.push_back ({z, l}); z += len (l); }
  z = 0;
  for (int l : a.lv) {
    std::function<void (int64_t, int)> go = [&](int64_t y, int k) {
      for (auto &x : fine) if (x.first == y && x.second == k) return;
      ev.add ("L", a.c, y, k);
      go (y, k + 1);
      go (y + len (k + 1), k + 1);
    };
    go (z, l);
    z += len (l);
  }
}
inline Cols balance6 (const std::shared_ptr<const Conn> &m, const Cols &C, int type, int maxd, int mind, Events &ev)
{
  Cols r = C;
  auto lv = [&](const Cell &c) -> const Lv & { for (auto &k : C) if (contains (k.c, c)) return k.lv; abort (); };
  if (maxd >= mind) r = refine_columns (r, true, QMAX, [&](const Cell &c) { for (int l : lv (c)) if (l - c.l > maxd) return true; return false; }, ev);
  r = inherit (r, balance (*m, cells_of (r), type == 0 ? 1 : 0), ev);
  Cols q = r;
  Events dummy;
  if (maxd >= mind) q = refine_layers (q, true, QMAX, [&](const Cell &c, int64_t, int l) { return l - c.l < mind; }, dummy);
  q = balance_layers (m, q, type);
  for (size_t i = 0; i < q.size (); ++i) layer_events (r[i], q[i], ev);
  return q;
}
// ------------------------------------------------------------------- bridge
inline p6est_t *make_p6est (p4est_connectivity_t *conn, const Cols &C, const std::vector<int> &g, int64_t H, size_t ds, void *user, sc_MPI_Comm comm = sc_MPI_COMM_WORLD)
{
  double h[3] = {0, 0, 1};
  p4est_t *p4 = make_p4est (conn, cells_of (C), g, 0, NULL, comm);
  p6est_t *p = p6est_new_from_p4est (p4, NULL, h, 0, ds, NULL, user);
  p4est_destroy (p4);
  for (size_t i = 0; i < p->layers->elem_count; ++i) p6est_layer_free_data (p, p2est_quadrant_array_index (p->layers, i));
  p->root_len = (p4est_qcoord_t) H;
  sc_array_truncate (p->layers);
  int lo = g[(size_t) p->mpirank], hi = g[(size_t) p->mpirank + 1];
  for (int i = lo; i < hi; ++i) {
    p4est_quadrant_t *q = local_quad (p->columns, i - lo);
    size_t a = p->layers->elem_count, b = a + C[(size_t) i].lv.size ();
    P6EST_COLUMN_SET_RANGE (q, a, b);
    int64_t z = 0;
    for (int l : C[(size_t) i].lv) {
      p2est_quadrant_t *s = p2est_quadrant_array_push (p->layers);
      s->z = (p4est_qcoord_t) z;
      s->level = (int8_t) l;
      p6est_layer_init_data (p, C[(size_t) i].c.t, q, s, NULL);
      if (ds) data6 ((unsigned char *) s->p.user_data, ds, C[(size_t) i].c, z, l);
      z += len (l);
    }
  }
  for (int r = 0; r <= p->mpisize; ++r) p->global_first_layer[r] = layers_in (C, 0, g[(size_t) r]);
  return p;
}
inline Cols cols_of (p6est_t *p)
{
  Cols v;
  for (int i = 0; i < p->columns->local_num_quadrants; ++i) v.push_back ({Cell (), {}});
  int i = 0;
  for (size_t t = 0; t < p->columns->trees->elem_count; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->columns->trees, (p4est_topidx_t) t);
    for (size_t k = 0; k < tr->quadrants.elem_count; ++k, ++i) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, k);
      size_t a, b;
      P6EST_COLUMN_GET_RANGE (q, &a, &b);
      v[(size_t) i].c = to_cell (*q, (int) t);
      if (b > p->layers->elem_count || a >= b) fail ("layer range %zu..%zu of column %s of %zu", a, b, str (v[(size_t) i].c).c_str (), p->layers->elem_count);
      for (size_t j = a; j < b; ++j) v[(size_t) i].lv.push_back (p2est_quadrant_array_index (p->layers, j)->level);
    }
  }
  return v;
}
// columns C distributed by g; data: layers carry their data
inline void check_p6est (p6est_t *p, const Cols &C, const std::vector<int> &g, int64_t H, size_t ds, bool data, const void *user, const char *what)
{
  int P, r;
  sc_MPI_Comm_size (p->mpicomm, &P);
  sc_MPI_Comm_rank (p->mpicomm, &r);
  if (p->mpisize != P || p->mpirank != r) fail ("%s: mpisize or mpirank", what);
  check_p4est (p->columns, cells_of (C), g, 0, what);
  if (p->columns->mpisize != P || p->columns->mpirank != r) fail ("%s: environment of the columns", what);
  if (p->columns->connectivity != p->connectivity->conn4) fail ("%s: connectivity of the columns", what);
  if (p->columns->user_pointer != p) fail ("%s: columns have lost their forest", what);
  if (p->root_len != H) fail ("%s: root_len %d", what, (int) p->root_len);
  if (p->user_pointer != user) fail ("%s: user_pointer", what);
  if (p->data_size != ds || (p->user_data_pool != NULL) != (ds > 0)) fail ("%s: data size or pool", what);
  for (int q = 0; q <= P; ++q) if (p->global_first_layer[q] != layers_in (C, 0, g[(size_t) q])) fail ("%s: global_first_layer[%d] is %lld, expected %d", what, q, (long long) p->global_first_layer[q], layers_in (C, 0, g[(size_t) q]));
  int lo = g[(size_t) r], hi = g[(size_t) r + 1];
  Cols got = cols_of (p), want (C.begin () + lo, C.begin () + hi);
  if (got != want) fail ("%s: local columns {%s}, expected {%s}", what, str (got).c_str (), str (want).c_str ());
  size_t k = 0;
  for (int i = lo; i < hi; ++i) {
    size_t a, b;
    P6EST_COLUMN_GET_RANGE (local_quad (p->columns, i - lo), &a, &b);
    if (a != k) fail ("%s: layers of column %d begin at %zu, expected %zu", what, i - lo, a, k);
    int64_t z = 0;
    for (int l : C[(size_t) i].lv) {
      p2est_quadrant_t *s = p2est_quadrant_array_index (p->layers, k++);
      if (s->z != z) fail ("%s: layer at %d of %s, expected %lld", what, (int) s->z, str (C[(size_t) i]).c_str (), (long long) z);
      if (ds && !s->p.user_data) fail ("%s: layer has no data", what);
      if (data && ds && !data6_ok (s->p.user_data, ds, C[(size_t) i].c, z, l)) fail ("%s: data of layer %lld level %d of column %s", what, (long long) z, l, str (C[(size_t) i].c).c_str ());
      z += len (l);
    }
  }
  if (p->layers->elem_count != k) fail ("%s: %zu layers, expected %zu", what, p->layers->elem_count, k);
  if (ds && p->user_data_pool->elem_count != k) fail ("%s: %zu data items for %zu layers", what, (size_t) p->user_data_pool->elem_count, k);
}
inline void free_p6est (p6est_t *p)
{
  p6est_connectivity_t *k = p->connectivity;
  p6est_destroy (p);
  p6est_connectivity_destroy (k);
}
}
