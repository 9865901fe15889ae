// C30 Exported cone/tree graphs describe the mesh with its hanging structure
#include "ref/nodes.hh"
#ifdef P4_TO_P8
#include <p8est_plex.h>
#include <p8est_extended.h>
#else
#include <p4est_plex.h>
#include <p4est_extended.h>
#endif
using namespace br;

static int me () { return vp::me (); }
typedef std::pair<int, Pt> Key;         // dimension and center of an entity
static std::string str (const Key &k) { return strf ("%s centered at (%lld,%lld,%lld) of tree %d", k.first == 0 ? "vertex" : k.first == 1 ? "edge" : "face", (long long) k.second.x[0], (long long) k.second.x[1], (long long) k.second.x[2], k.second.t); }
typedef std::array<int64_t, 3> I3;
typedef std::array<double, 3> V3;
static std::string str (const V3 &v) { return strf ("(%.17g,%.17g,%.17g)", v[0], v[1], v[2]); }

// ---------------------------------------------------------------- reference
struct Plex
{
  std::shared_ptr<const Conn> m;
  Cells L;
  std::vector<int> own;                 // process of each leaf
  std::vector<std::vector<Key>> at, ref;        // entities of each leaf, and those they are part of
  std::map<Key, Box> box;
  std::set<Key> parents;
  std::map<Key, std::vector<Key>> kids;
  Key key (int dim, int t, const I3 &c) const { Pt p; p.t = t; for (int d = 0; d < 3; ++d) p.x[d] = c[(size_t) d]; return {dim, m->canon (p)}; }
  Key key (const Box &b) const { I3 c; for (int d = 0; d < 3; ++d) c[(size_t) d] = d < D ? (b.lo[d] + b.hi[d]) / 2 : 0; return key (box_dim (b), b.t, c); }
};
static std::vector<Box> pieces (const Box &b)
{
  std::vector<Box> v;
  int n = 1;
  for (int d = 0; d < D; ++d) if (b.lo[d] < b.hi[d]) n *= 3;
  for (int k = 0; k < n; ++k) {
    Box c = b;
    int q = k;
    for (int d = 0; d < D; ++d) if (b.lo[d] < b.hi[d]) {
      int64_t mid = (b.lo[d] + b.hi[d]) / 2;
      int w = q % 3;
      q /= 3;
      if (w == 0) c.hi[d] = mid; else if (w == 1) c.lo[d] = mid; else c.lo[d] = c.hi[d] = mid;
    }
    v.push_back (c);
  }
  return v;
}
static Plex make_plex (std::shared_ptr<const Conn> m, const Cells &L, const std::vector<int> &g)
{
  Plex X;
  X.m = m;
  X.L = L;
  X.own = owners (g);
  Hang H = hanging (*m, L);
  int bits;
  auto ps = positions (-D, bits);
  for (size_t i = 0; i < L.size (); ++i) {
    X.at.push_back ({});
    X.ref.push_back ({});
    for (auto &p : ps) {
      bool h = false;
      for (int f = 0; f < NF; ++f) if (H.face[i][f] && p.r[f / 2] == (f & 1)) h = true;
      for (int e = 0; e < NE; ++e) if (H.edge[i][e]) { int s[3]; edge_fix (e, s); bool on = true; for (int d = 0; d < 3; ++d) if (s[d] >= 0 && p.r[d] != s[d]) on = false; if (on) h = true; }
      Box b = sub_box (L[i], p.r), a = h ? sub_box (parent (L[i]), p.r) : b;
      Key kb = X.key (b), ka = X.key (a);
      X.at.back ().push_back (kb);
      X.ref.back ().push_back (ka);
      X.box.insert ({kb, b});
      X.box.insert ({ka, a});
      if (h && kb != ka && kb.first > 0) X.parents.insert (ka);
    }
  }
  for (auto &k : X.parents) for (auto &b : pieces (X.box.at (k))) { Key c = X.key (b); X.kids[k].push_back (c); X.box.insert ({c, b}); }
  return X;
}

// ------------------------------------------------------------------- results
struct Out
{
  int first = -1;
  std::vector<int> ppd, sizes, cones, orient, children, parents, ids, leaves, remotes;
  std::vector<double> coords;
  std::vector<Cell> ghosts;
  std::vector<int> gowner;
  bool operator== (const Out &o) const { return first == o.first && ppd == o.ppd && sizes == o.sizes && cones == o.cones && orient == o.orient && children == o.children && parents == o.parents && ids == o.ids && leaves == o.leaves && remotes == o.remotes && coords == o.coords; }
};
static std::vector<Out> out;
struct Arrays
{
  sc_array_t *a[10];
  Arrays () { for (int i = 0; i < 10; ++i) a[i] = sc_array_new (i == 4 ? 3 * sizeof (double) : i == 9 ? 2 * sizeof (p4est_locidx_t) : sizeof (p4est_locidx_t)); }
  ~Arrays () { for (auto x : a) sc_array_destroy (x); }
  Out get (int first) const
  {
    Out o;
    o.first = first;
    auto ints = [](sc_array_t *x, int k) { std::vector<int> v; for (size_t i = 0; i < (size_t) k * x->elem_count; ++i) v.push_back ((int) ((p4est_locidx_t *) x->array)[i]); return v; };
    o.ppd = ints (a[0], 1);
    o.sizes = ints (a[1], 1);
    o.cones = ints (a[2], 1);
    o.orient = ints (a[3], 1);
    for (size_t i = 0; i < 3 * a[4]->elem_count; ++i) o.coords.push_back (((double *) a[4]->array)[i]);
    o.children = ints (a[5], 1);
    o.parents = ints (a[6], 1);
    o.ids = ints (a[7], 1);
    o.leaves = ints (a[8], 1);
    o.remotes = ints (a[9], 2);
    return o;
  }
};
static Out call (p4est_t *p, p4est_ghost_t **gh, p4est_lnodes_t **ln, p4est_connect_type_t ct, int overlap, int custom)
{
  Arrays A;
  p4est_locidx_t first = -7;
  p4est_get_plex_data_ext (p, gh, ln, ct, overlap, &first, A.a[0], A.a[1], A.a[2], A.a[3], A.a[4], A.a[5], A.a[6], A.a[7], A.a[8], A.a[9], custom);
  Out o = A.get ((int) first);
  for (size_t i = 0; i < (*gh)->ghosts.elem_count; ++i) {
    p4est_quadrant_t *q = (p4est_quadrant_t *) sc_array_index (&(*gh)->ghosts, i);
    o.ghosts.push_back (to_cell (*q, q->p.piggy3.which_tree));
  }
  for (int r = 0; r < p->mpisize; ++r) for (int i = (*gh)->proc_offsets[r]; i < (*gh)->proc_offsets[r + 1]; ++i) o.gowner.push_back (r);
  return o;
}

// ------------------------------------------------------------------- checks
typedef std::pair<int, int> Id;         // process and number of the owned copy
struct Wrong { std::string s; };
template <class... A> [[noreturn]] static void wrong (const char *f, A... a) { throw Wrong {strf (f, a...)}; }

// vertices of a face in the order of its cone
static void face_cycle (const Out &o, const std::vector<int> &off, int p, int *v)
{
  for (int j = 0; j < 4; ++j) {
    int e = o.cones[(size_t) (off[(size_t) p] + j)], w = o.orient[(size_t) (off[(size_t) p] + j)];
    if (w != 0 && w != -2) wrong ("orientation %d of edge %d in the cone of %d", w, e, p);
    int a = o.cones[(size_t) (off[(size_t) e] + (w != 0))], b = o.cones[(size_t) (off[(size_t) e] + (w == 0))];
    v[j] = a;
    int n = o.cones[(size_t) (off[(size_t) p] + (j + 1) % 4)], nw = o.orient[(size_t) (off[(size_t) p] + (j + 1) % 4)];
    if (b != o.cones[(size_t) (off[(size_t) n] + (nw != 0))]) wrong ("edges %d and %d of face %d do not share a vertex: %d %d / %d %d", e, n, p, a, b, o.cones[(size_t) off[(size_t) n]], o.cones[(size_t) (off[(size_t) n] + 1)]);
  }
}
static void verify (const Plex &X, const std::vector<int> &g, int overlap, int custom, p4est_connect_type_t ct)
{
  const Conn &m = *X.m;
  int P = (int) g.size () - 1;
  (void) ct;
  std::vector<std::vector<Id>> gid ((size_t) P);
  std::vector<std::vector<int>> off ((size_t) P), dimo ((size_t) P), cells ((size_t) P);
  std::map<Id, Key> key;
  std::map<Key, Id> inv;
  // ranges and numbers
  for (int r = 0; r < P; ++r) {
    const Out &o = out[(size_t) r];
    if ((int) o.ppd.size () != D + 1) wrong ("rank %d: %zu dimensions", r, o.ppd.size ());
    int n = 0, c = 0;
    for (int d = D; d >= 0; --d) for (int i = 0; i < o.ppd[(size_t) d]; ++i, ++n) {
      if (n >= (int) o.sizes.size () || o.sizes[(size_t) n] != 2 * d) wrong ("rank %d: size of the cone of point %d", r, n);
      dimo[(size_t) r].push_back (d);
      off[(size_t) r].push_back (c);
      c += 2 * d;
    }
    if ((int) o.sizes.size () != n || (int) o.cones.size () != c || (int) o.orient.size () != c || (int) o.coords.size () != 3 * o.ppd[0]) wrong ("rank %d: %d points %d cone entries but %zu sizes %zu cones %zu orientations %zu coordinates", r, n, c, o.sizes.size (), o.cones.size (), o.orient.size (), o.coords.size ());
    for (int p = 0; p < n; ++p) for (int j = 0; j < 2 * dimo[(size_t) r][(size_t) p]; ++j) {
      int q = o.cones[(size_t) (off[(size_t) r][(size_t) p] + j)];
      if (q < 0 || q >= n || dimo[(size_t) r][(size_t) q] != dimo[(size_t) r][(size_t) p] - 1) wrong ("rank %d: cone of point %d contains %d", r, p, q);
    }
    // cells
    int pre = 0;
    std::vector<int> gi;
    for (size_t i = 0; overlap && i < o.ghosts.size (); ++i) {
      auto it = std::find (X.L.begin (), X.L.end (), o.ghosts[i]);
      if (it == X.L.end ()) wrong ("rank %d: ghost %s is not a leaf", r, str (o.ghosts[i]).c_str ());
      gi.push_back ((int) (it - X.L.begin ()));
      if (X.own[(size_t) gi.back ()] != o.gowner[i] || o.gowner[i] == r) wrong ("rank %d: ghost %s of process %d", r, str (o.ghosts[i]).c_str (), o.gowner[i]);
      pre += o.gowner[i] < r;
    }
    for (int i = 0; i < pre; ++i) cells[(size_t) r].push_back (gi[(size_t) i]);
    for (int i = g[(size_t) r]; i < g[(size_t) r + 1]; ++i) cells[(size_t) r].push_back (i);
    for (size_t i = (size_t) pre; i < gi.size (); ++i) cells[(size_t) r].push_back (gi[i]);
    if (o.first != pre) wrong ("rank %d: first local cell %d, expected %d", r, o.first, pre);
    if ((int) cells[(size_t) r].size () != o.ppd[D]) wrong ("rank %d: %d cells, expected %zu", r, o.ppd[D], cells[(size_t) r].size ());
    for (int p = 0; p < n; ++p) gid[(size_t) r].push_back ({r, p});
  }
  for (int r = 0; r < P; ++r) {
    const Out &o = out[(size_t) r];
    if (o.remotes.size () != 2 * o.leaves.size ()) wrong ("rank %d: %zu leaves, %zu remotes", r, o.leaves.size (), o.remotes.size ());
    std::set<int> seen;
    for (size_t i = 0; i < o.leaves.size (); ++i) {
      int l = o.leaves[i], q = o.remotes[2 * i], k = o.remotes[2 * i + 1];
      if (l < 0 || l >= (int) o.sizes.size () || !seen.insert (l).second) wrong ("rank %d: leaf %d", r, l);
      if (q < 0 || q >= P || q == r || k < 0 || k >= (int) out[(size_t) q].sizes.size ()) wrong ("rank %d: leaf %d has remote (%d,%d)", r, l, q, k);
      if (std::count (out[(size_t) q].leaves.begin (), out[(size_t) q].leaves.end (), k)) wrong ("rank %d: leaf %d has remote (%d,%d), which is no owned point", r, l, q, k);
      if (dimo[(size_t) r][(size_t) l] != dimo[(size_t) q][(size_t) k]) wrong ("rank %d: leaf %d of dimension %d has remote (%d,%d) of dimension %d", r, l, dimo[(size_t) r][(size_t) l], q, k, dimo[(size_t) q][(size_t) k]);
      gid[(size_t) r][(size_t) l] = {q, k};
    }
    std::set<Id> u (gid[(size_t) r].begin (), gid[(size_t) r].end ());
    if (u.size () != gid[(size_t) r].size ()) wrong ("rank %d: two points have the same remote point", r);
    for (size_t i = 0; i < cells[(size_t) r].size (); ++i) {
      int c = cells[(size_t) r][i], q = X.own[(size_t) c];
      Id w {q, out[(size_t) q].first + c - g[(size_t) q]};
      if (gid[(size_t) r][i] != w) wrong ("rank %d: cell %zu is mapped to (%d,%d), expected (%d,%d)", r, i, gid[(size_t) r][i].first, gid[(size_t) r][i].second, w.first, w.second);
    }
  }
  // points of cells
  auto assign = [&](int r, int p, const Key &k, int cell) {
    Id w = gid[(size_t) r][(size_t) p];
    auto a = key.insert ({w, k});
    if (a.first->second != k) wrong ("rank %d: point %d (owner's (%d,%d)) is the %s of cell %s, but also the %s", r, p, w.first, w.second, str (k).c_str (), str (X.L[(size_t) cell]).c_str (), str (a.first->second).c_str ());
    auto b = inv.insert ({k, w});
    if (b.first->second != w) wrong ("rank %d: %s of cell %s is point %d (owner's (%d,%d)), but also (%d,%d)", r, str (k).c_str (), str (X.L[(size_t) cell]).c_str (), p, w.first, w.second, b.first->second.first, b.first->second.second);
  };
  for (int r = 0; r < P; ++r) for (size_t i = 0; i < cells[(size_t) r].size (); ++i) {
    const Out &o = out[(size_t) r];
    const auto &of = off[(size_t) r];
    int c = cells[(size_t) r][i];
    const auto &A = X.at[(size_t) c];
    const int *cone = &o.cones[(size_t) of[i]], *ori = &o.orient[(size_t) of[i]];
#ifndef P4_TO_P8
    // counterclockwise from the bottom
    static const int fo[4] = {2, 1, 3, 0}, vo[4] = {0, 1, 3, 2};
    for (int j = 0; j < 4; ++j) {
      assign (r, cone[j], A[(size_t) fo[j]], c);
      if (ori[j] != 0 && ori[j] != -2) wrong ("rank %d: orientation %d in the cone of cell %zu", r, ori[j], i);
      int a = o.cones[(size_t) (of[(size_t) cone[j]] + (ori[j] != 0))], b = o.cones[(size_t) (of[(size_t) cone[j]] + (ori[j] == 0))];
      assign (r, a, A[(size_t) (4 + vo[j])], c);
      assign (r, b, A[(size_t) (4 + vo[(j + 1) % 4])], c);
    }
#else
    // bottom, top, front, back, right, left, each seen from outside
    static const int fo[6] = {4, 5, 2, 3, 1, 0};
    static const int cyc[6][4] = {{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {3, 2, 6, 7}, {0, 2, 3, 1}, {4, 5, 7, 6}};
    for (int j = 0; j < 6; ++j) {
      int f = fo[j], v[4], q = cone[j];
      assign (r, q, A[(size_t) f], c);
      face_cycle (o, of, q, v);
      if (ori[j] < -4 || ori[j] > 3) wrong ("rank %d: orientation %d in the cone of cell %zu", r, ori[j], i);
      for (int k = 0; k < 4; ++k) {
        // vertex k and the edge from there to the next one
        int s = ori[j] >= 0 ? (ori[j] + k) % 4 : (-ori[j] - k + 4) % 4, es = ori[j] >= 0 ? s : (s + 3) % 4;
        int c0 = cyc[f][k], c1 = cyc[f][(k + 1) % 4], e = -1;
        assign (r, v[s], A[(size_t) (18 + c0)], c);
        for (int x = 0; x < 12; ++x) { int fx[3]; edge_fix (x, fx); bool on = true; for (int d = 0; d < 3; ++d) for (int w : {c0, c1}) if (fx[d] >= 0 && fx[d] != (w >> d & 1)) on = false; if (on) e = x; }
        assign (r, o.cones[(size_t) (of[(size_t) q] + es)], A[(size_t) (6 + e)], c);
      }
    }
#endif
  }
  // the points of every process
  for (int r = 0; r < P; ++r) {
    std::set<Key> want, have;
    for (int c : cells[(size_t) r]) for (auto &k : X.ref[(size_t) c]) {
      want.insert (k);
      if (X.parents.count (k)) for (auto &x : X.kids.at (k)) want.insert (x);
    }
    for (size_t p = cells[(size_t) r].size (); p < gid[(size_t) r].size (); ++p) {
      auto it = key.find (gid[(size_t) r][p]);
      if (it == key.end ()) wrong ("rank %d: point %zu (owner's (%d,%d)) of dimension %d is no point of any cell", r, p, gid[(size_t) r][p].first, gid[(size_t) r][p].second, dimo[(size_t) r][p]);
      if (it->second.first != dimo[(size_t) r][p]) wrong ("rank %d: point %zu has dimension %d but is the %s", r, p, dimo[(size_t) r][p], str (it->second).c_str ());
      have.insert (it->second);
    }
    for (auto &k : want) if (!have.count (k)) wrong ("rank %d: the %s is missing", r, str (k).c_str ());
    for (auto &k : have) if (!want.count (k)) wrong ("rank %d: the %s is not needed", r, str (k).c_str ());
  }
  // cones, the same on every process
  std::map<Id, std::pair<std::vector<Id>, std::vector<int>>> cone;
  std::map<Id, V3> pos;
  auto K = [&](int r, int p) -> const Key & { return key.at (gid[(size_t) r][(size_t) p]); };
  for (int r = 0; r < P; ++r) {
    const Out &o = out[(size_t) r];
    const auto &of = off[(size_t) r];
    std::map<int, std::vector<std::pair<int, int>>> kids;
    if (o.children.size () != o.parents.size () || o.children.size () != o.ids.size ()) wrong ("rank %d: %zu children %zu parents %zu positions", r, o.children.size (), o.parents.size (), o.ids.size ());
    std::set<int> once;
    for (size_t i = 0; i < o.children.size (); ++i) {
      for (int p : {o.children[i], o.parents[i]}) if (p < 0 || p >= (int) o.sizes.size ()) wrong ("rank %d: child %d of parent %d", r, o.children[i], o.parents[i]);
      if (!once.insert (o.children[i]).second) wrong ("rank %d: %d is the child of two points", r, o.children[i]);
      if (i && o.children[i - 1] >= o.children[i]) wrong ("rank %d: children out of order", r);
      kids[o.parents[i]].push_back ({o.ids[i], o.children[i]});
    }
    for (size_t p = 0; p < o.sizes.size (); ++p) {
      int dim = dimo[(size_t) r][p];
      std::pair<std::vector<Id>, std::vector<int>> w;
      for (int j = 0; j < 2 * dim; ++j) { w.first.push_back (gid[(size_t) r][(size_t) o.cones[(size_t) (of[p] + j)]]); w.second.push_back (o.orient[(size_t) (of[p] + j)]); }
      auto it = cone.insert ({gid[(size_t) r][p], w});
      if (it.first->second != w) wrong ("rank %d: cone or orientations of point %zu (owner's (%d,%d)) differ from those on another process", r, p, gid[(size_t) r][p].first, gid[(size_t) r][p].second);
      if (dim == D) continue;
      const Key &k = K (r, (int) p);
      const Box &b = X.box.at (k);
      if (dim == 0) {
        V3 x;
        for (int d = 0; d < 3; ++d) x[(size_t) d] = o.coords[(size_t) (3 * ((int) p - ((int) o.sizes.size () - o.ppd[0])) + d)];
        auto pi = pos.insert ({gid[(size_t) r][p], x});
        if (pi.first->second != x) wrong ("rank %d: vertex %zu is at %s, but at %s on another process", r, p, str (x).c_str (), str (pi.first->second).c_str ());
        std::vector<Pt> rp;
        m.pt_reps (k.second, rp);
        bool ok = false;
        for (auto &q : rp) {
          V3 y {0, 0, 0};
          for (int c = 0; c < NC; ++c) {
            double f = 1;
            for (int d = 0; d < D; ++d) { double e = (double) q.x[d] / (double) R; f *= c >> d & 1 ? e : 1 - e; }
            for (int d = 0; d < 3; ++d) y[(size_t) d] += f * m.verts[(size_t) (3 * m.ttv[(size_t) (q.t * NC + c)] + d)];
          }
          double e = 0;
          for (int d = 0; d < 3; ++d) e = std::max (e, std::fabs (x[(size_t) d] - y[(size_t) d]) / (1 + std::fabs (y[(size_t) d])));
          ok = ok || e < 1e-13;
        }
        if (!ok) wrong ("rank %d: coordinates %s of vertex %zu, the %s", r, str (x).c_str (), p, str (k).c_str ());
        continue;
      }
      // the corners of the entity in the order of the cone: try all ways
      std::vector<int> ax;
      for (int d = 0; d < D; ++d) if (b.lo[d] < b.hi[d]) ax.push_back (d);
      int nc = 2 * dim, v[4];
      if (dim == 1) for (int j = 0; j < 2; ++j) { v[j] = o.cones[(size_t) (of[p] + j)]; if (o.orient[(size_t) (of[p] + j)]) wrong ("rank %d: orientation of a vertex of edge %zu", r, p); }
      else face_cycle (o, of, (int) p, v);
      auto corner = [&](int c) { I3 x {0, 0, 0}; for (int d = 0; d < D; ++d) x[(size_t) d] = b.lo[d]; for (size_t a = 0; a < ax.size (); ++a) if (c >> a & 1) x[(size_t) ax[a]] = b.hi[ax[a]]; return x; };
      auto mid = [](const I3 &a, const I3 &c) { I3 x; for (size_t d = 0; d < 3; ++d) x[d] = (a[d] + c[d]) / 2; return x; };
      auto pk = [&](int dm, const I3 &x) { return X.key (dm, b.t, x); };
      static const int order[4] = {0, 1, 3, 2};
      bool found = false;
      std::string why = "its cone";
      for (int w2 = 0; w2 < (dim == 1 ? 2 : 8) && !found; ++w2) {
        I3 x[4];
        for (int j = 0; j < nc; ++j) x[j] = dim == 1 ? corner (j ^ w2) : corner (order[(w2 < 4 ? w2 + j : w2 - j + 4) % 4]);
        bool ok = true;
        for (int j = 0; j < nc; ++j) ok = ok && K (r, v[j]) == pk (0, x[j]);
        if (dim == 2) for (int j = 0; j < 4; ++j) ok = ok && K (r, o.cones[(size_t) (of[p] + j)]) == pk (1, mid (x[j], x[(j + 1) % 4]));
        if (!ok) continue;
        if (!X.parents.count (k)) { if (kids.count ((int) p)) wrong ("rank %d: the %s has children", r, str (k).c_str ()); found = true; continue; }
        auto &kv = kids[(int) p];
        std::sort (kv.begin (), kv.end ());
        // expected children by position
        std::map<int, int> ch (kv.begin (), kv.end ());
        std::vector<int> ids = dim == 1 ? (D == 2 ? std::vector<int> {9, 10, 25} : std::vector<int> {63, 64, 125}) : std::vector<int> {15, 16, 17, 18, 87, 88, 89, 90, 137};
        if (ch.size () != kv.size () || ch.size () != ids.size ()) wrong ("rank %d: the %s has %zu children", r, str (k).c_str (), kv.size ());
        for (int id : ids) if (!ch.count (id)) wrong ("rank %d: the %s has no child at position %d", r, str (k).c_str (), id);
        auto cv = [&](int q, int j) { return o.cones[(size_t) (of[(size_t) q] + j)]; };
        auto test = [&](bool t, const char *s) { if (!t && ok) { ok = false; why = s; } };
        if (dim == 1) {
          I3 c = mid (x[0], x[1]);
          int a = ch[ids[0]], bb = ch[ids[1]], z = ch[ids[2]];
          test (K (r, a) == pk (1, mid (x[0], c)) && K (r, bb) == pk (1, mid (c, x[1])) && K (r, z) == pk (0, c), "positions of the halves of an edge");
          test (cv (a, 0) == v[0] && cv (a, 1) == z && cv (bb, 0) == z && cv (bb, 1) == v[1], "directions of the halves of an edge");
        }
        else {
          static const int cid[4] = {0, 1, 3, 2}, eid[4] = {2, 1, 3, 0};
          I3 c = mid (x[0], x[2]);
          int z = ch[137];
          test (K (r, z) == pk (0, c), "position of the center of a face");
          for (int j = 0; j < 4; ++j) {
            I3 em = mid (x[j], x[(j + 1) % 4]);
            int q = ch[15 + (custom ? cid[j] : j)], e = ch[87 + (custom ? eid[j] : j)];
            test (K (r, q) == pk (2, mid (x[j], c)), "position of a quarter of a face");
            test (K (r, e) == pk (1, mid (em, c)), "position of an edge inside a face");
            bool rev = custom && (eid[j] & 1);
            test (cv (e, rev) != z && cv (e, !rev) == z && K (r, cv (e, rev)) == pk (0, em), "direction of an edge inside a face");
            int y[4];
            face_cycle (o, of, q, y);
            for (int s = 0; s < 4; ++s) test (K (r, y[s]) == pk (0, mid (x[j], x[s])), "vertices of a quarter of a face");
          }
        }
        found = ok;
      }
      if (!found) {
        std::string s;
        for (int j = 0; j < nc; ++j) s += " [" + str (K (r, v[j])) + "]";
        wrong ("rank %d: the %s (point %zu) does not fit: %s; vertices%s", r, str (k).c_str (), p, why.c_str (), s.c_str ());
      }
    }
    for (auto &c : kids) if (dimo[(size_t) r][(size_t) c.first] == D || !X.parents.count (K (r, c.first))) wrong ("rank %d: point %d has children", r, c.first);
  }
}

static void plex_case (HostConn &hc, const Cells &L, const std::vector<int> &g, const Adj &A, int k, bool huge = false)
{
  if (!E.sub ()) return;
  auto m = hc.m;
  int P = (int) g.size () - 1, custom = k & 1, overlap = huge ? k / 2 % 2 : k / 2 % 4, kind = k / 3 % 4;
  if (overlap == 3) overlap = 1;
  auto bt = btypes ()[btypes ().size () - 1 - (kind == 3 && !huge ? (size_t) (1 + k / 12) % btypes ().size () : 0)];
  E.describe ([=, &hc] { return strf ("%s cuts %s leaves {%s}: plex with overlap %d type %d, %s, %s%s", m->name.c_str (), str (g).c_str (), L.size () > 100 ? "many" : str (L).c_str (), overlap, (int) bt.first, custom ? "custom numbering" : "standard numbering", kind == 0 ? "twice with the same ghosts and nodes" : kind == 1 ? "extended and plain calls" : "one call", huge ? ", shifted node numbers" : ""); });
  E.transition ();
  E.validated ();
  Plex X = make_plex (m, L, g);
  out.assign ((size_t) P, Out ());
  static std::vector<Out> other;
  other.assign ((size_t) P, Out ());
  E.run (P, vp::Options (), [&](int) {
    rank_begin ();
    int r = me ();
    p4est_t *p = make_p4est (&hc.c, L, g, 0, NULL);
    long live = vp::live_blocks (r);
    {
      p4est_ghost_t *gh = NULL;
      p4est_lnodes_t *ln = NULL;
      if (huge) {
        // as if the first process had very many nodes
        gh = p4est_ghost_new (p, full_type ());
        ln = p4est_lnodes_new (p, gh, -D);
        p4est_ghost_support_lnodes (p, ln, gh);
        int64_t s = (k / 4 % 2 ? (int64_t) 1 << 32 : ((int64_t) 1 << 31) - 3);
        ln->global_offset += s;
        for (p4est_locidx_t i = 0; i < ln->num_local_nodes - ln->owned_count; ++i) ln->nonlocal_nodes[i] += s;
        if (ln->global_owned_count[0] != 0) fail ("the first process has nodes");
        // more than one process of that kind
        int z = 0;
        while (ln->global_owned_count[z] == 0 && g[(size_t) z + 1] == 0) { ln->global_owned_count[z] = (p4est_locidx_t) std::min (s, (int64_t) INT32_MAX); s -= ln->global_owned_count[z]; ++z; }
        if (s != 0) fail ("not enough empty processes");
        if (r < z) { ln->owned_count = 0; ln->global_offset = 0; }
      }
      Out o = call (p, &gh, &ln, bt.first, overlap, custom);
      if (kind == 0) other[(size_t) r] = call (p, &gh, &ln, bt.first, overlap, custom);
      if (kind == 1 && !huge) {
        Arrays B;
        p4est_locidx_t first = -7;
        p4est_get_plex_data (p, bt.first, overlap, &first, B.a[0], B.a[1], B.a[2], B.a[3], B.a[4], B.a[5], B.a[6], B.a[7], B.a[8], B.a[9]);
        other[(size_t) r] = B.get ((int) first);
        if (custom) { p4est_lnodes_destroy (ln); p4est_ghost_destroy (gh); gh = NULL; ln = NULL; o = call (p, &gh, &ln, bt.first, overlap, 0); }
      }
      out[(size_t) r] = o;
      p4est_lnodes_destroy (ln);
      p4est_ghost_destroy (gh);
    }
    if (vp::live_blocks (r) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (r) - live);
    check_p4est (p, L, g, 0, "after plex");
    free_p4est (p);
    rank_end ();
  }, nullptr, [&] {
    try {
      for (int r = 0; r < P; ++r) if ((kind == 0 || (kind == 1 && !huge)) && !(other[(size_t) r] == out[(size_t) r])) wrong ("rank %d: %s", r, kind ? "plain and extended calls differ" : "a second call with the same ghosts and nodes differs");
      // the overlap contains as many layers as requested
      if (overlap > 0) {
        GhostSets S = ghost_sets (A, g, bt.second);
        for (int j = 1; j < overlap && bt.second == 0; ++j) S = ghost_grow (A, g, 0, S);
        for (int r = 0; r < P; ++r) for (int i : S[(size_t) r]) if (!std::count (out[(size_t) r].ghosts.begin (), out[(size_t) r].ghosts.end (), L[(size_t) i])) wrong ("rank %d: %s is missing in an overlap of %d layers", r, str (L[(size_t) i]).c_str (), overlap);
      }
      verify (X, g, overlap, kind == 1 && !huge ? 0 : custom, bt.first);
    }
    catch (Wrong &w) { E.bad ("%s", w.s.c_str ()); }
  });
}

void enumerate ()
{
  bool th = E.thorough;
  int rot = 0;
  SpaceOpt o;
  o.bal = 0;
  o.cap = th ? 400 : D == 2 ? 60 : 12;
  o.K1 = D == 2 ? 4 : 2;
  o.K4 = o.Kn = D == 2 ? 2 : 1;
  o.twoK = D == 2 ? 2 : 1;
  o.twocap = th ? 60 : D == 2 ? 8 : 3;
  o.Lmax = 4;
  o.chains = false;
  o.glue = 0;
  spaces (o, [&](HostConn &hc, const Cells &L) {
    if (hc.m->verts.empty ()) return;
    Adj A = adjacency ({hc.m, L});
    parts (L, 1, 4, th ? 30 : D == 2 ? 4 : 3, [&](int, const std::vector<int> &g) { plex_case (hc, L, g, A, rot++); });
  });
  rot = 0;
  self_glued (0, th || D == 2 ? 1 : 2, [&](HostConn &hc, const Cells &L) {
    Adj A = adjacency ({hc.m, L});
    parts (L, 1, 3, 2, [&](int, const std::vector<int> &g) { plex_case (hc, L, g, A, rot++); });
  });
  rot = 0;
  for (auto nm : {"unit", "periodic", "moebius", "pillow", "rotwrap", "rotcubes"}) {
    auto m = named (nm);
    if (!m) continue;
    E.stage ("%s: all combinations of options", nm);
    HostConn hc (m);
    auto fs = reachable (uniform (m->nt, 0), D == 2 ? 3 : 2, 3, 40);
    for (size_t i = fs.size () > 3 ? fs.size () - 3 : 0; i < fs.size (); ++i) {
      Cells L = balance (*m, fs[i], 0);
      Adj A = adjacency ({m, L});
      for (int k = 0; k < 48; ++k) {
        if (!E.take ()) continue;
        E.state ();
        int n = (int) L.size ();
        plex_case (hc, L, k % 5 == 0 ? std::vector<int> {0, n} : k % 5 == 1 ? std::vector<int> {0, n / 2, n} : k % 5 == 2 ? std::vector<int> {0, 1, 1, n} : k % 5 == 3 ? std::vector<int> {0, n / 3, n / 2, n} : std::vector<int> {0, 0, n, n}, A, k);
      }
    }
  }
  E.stage ("more than 2^31 nodes");
  for (auto nm : {"unit", "periodic"}) {
    auto m = named (nm);
    HostConn hc (m);
    Cells L = balance (*m, reachable (uniform (m->nt, 0), 2, 3, 40).back (), 0);
    Adj A = adjacency ({m, L});
    int n = (int) L.size ();
    for (int k = 0; k < 16; ++k) {
      if (!E.take ()) continue;
      E.state ();
      plex_case (hc, L, k & 8 ? std::vector<int> {0, 0, 0, 0, n / 2, n} : std::vector<int> {0, 0, 0, 0, n / 3, n / 2 + 1, n}, A, k, true);
    }
  }
}
