// Enumeration of forests shared by the checks.
#pragma once
#include "ref/bridge.hh"
namespace br
{
struct SpaceOpt
{
  int K1 = D == 2 ? 4 : 2, K4 = D == 2 ? 3 : 2, Kn = 2;         // refinements by number of trees
  int Lmax = D == 2 ? 5 : 4;
  size_t cap = 300;                     // forests per mesh
  bool names = true, touch = true, shapes = false, chains = true;
  int twoK = D == 2 ? 2 : 1;            // refinements for joined trees; -1: none
  size_t twocap = 60;
  int glue = D == 2 ? 1 : 20;           // take every so many ways to glue one tree to itself; 0: none
  int bal = -1;                         // balance by contacts of this dimension; -1: none
  std::vector<std::string> only;        // restrict named meshes
};
typedef std::function<void(HostConn &, const Cells &)> ForestFn;

// One tree glued to itself along pairs of its faces: all sets of k pairs in
// all orientations, without those that glue an edge to itself backwards.
struct Gluing { std::vector<std::array<int, 3>> v; };
inline std::vector<Gluing> gluings (int k)
{
  std::vector<Gluing> out, todo {Gluing ()};
  while (!todo.empty ()) {
    Gluing g = todo.back ();
    todo.pop_back ();
    if ((int) g.v.size () == k) { out.push_back (g); continue; }
    std::vector<char> used (NF, 0);
    for (auto &x : g.v) used[(size_t) x[0]] = used[(size_t) x[1]] = 1;
    for (int a = g.v.empty () ? 0 : g.v.back ()[0] + 1; a < NF; ++a) if (!used[(size_t) a]) for (int b = a + 1; b < NF; ++b) if (!used[(size_t) b])
      for (int o = 0; o < NC / 2; ++o) { Gluing h = g; h.v.push_back ({a, b, o}); todo.push_back (h); }
  }
  std::reverse (out.begin (), out.end ());
  return out;
}
inline std::shared_ptr<Conn> glued (const Gluing &g)
{
  auto w = std::make_shared<Conn> ();
  w->nt = 1;
  std::string name = "glued";
  for (int f = 0; f < NF; ++f) { w->ttt.push_back (0); w->ttf.push_back (f); }
  for (auto &x : g.v) { w->ttf[(size_t) x[0]] = x[1] + NF * x[2]; w->ttf[(size_t) x[1]] = x[0] + NF * x[2]; name += strf (":%d-%d/%d", x[0], x[1], x[2]); }
#ifdef P4_TO_P8
  // signed classes of edges
  for (int e = 0; e < 12; ++e) {
    std::set<std::pair<int, bool>> s {{e, false}};
    std::vector<std::pair<int, bool>> todo {{e, false}};
    while (!todo.empty ()) {
      auto x = todo.back ();
      todo.pop_back ();
      int fx[3];
      edge_fix (x.first, fx);
      int ax = edge_axis (x.first);
      for (int f = 0; f < NF; ++f) if (fx[f / 2] == (f & 1)) {
        std::vector<Map> v;
        w->face_maps (0, f, v);
        for (auto &m : v) {
          Box b, c;
          b.t = c.t = 0;
          for (int d = 0; d < 3; ++d) { b.lo[d] = fx[d] == 1 ? R : 0; b.hi[d] = fx[d] == 0 ? 0 : R; }
          c = b;
          c.hi[ax] = R / 2;
          Box q = m.apply (b), h = m.apply (c);
          for (int y = 0; y < 12; ++y) { int fy[3]; edge_fix (y, fy); bool eq = true; for (int d = 0; d < 3; ++d) eq = eq && q.lo[d] == (fy[d] == 1 ? R : 0) && q.hi[d] == (fy[d] == 0 ? 0 : R); if (eq) { std::pair<int, bool> z {y, x.second ^ (h.lo[edge_axis (y)] != 0)}; if (s.insert (z).second) todo.push_back (z); } }
        }
      }
    }
    for (auto &x : s) if (s.count ({x.first, !x.second})) return nullptr;
  }
#endif
  return get_conn (name, [=]() -> p4est_connectivity_t * {
#ifdef P4_TO_P8
    p4est_connectivity_t *c = p8est_connectivity_new_unitcube ();
#else
    p4est_connectivity_t *c = p4est_connectivity_new_unitsquare ();
#endif
    for (auto &x : g.v) p4est_connectivity_join_faces (c, 0, 0, x[0], x[1], x[2]);
    return c;
  });
}
// The same mesh without the edge groups whose members all meet across faces.
inline std::shared_ptr<Conn> unlisted (const Conn &in)
{
  if (D != 3 || in.tte.empty ()) return nullptr;
  auto m = std::make_shared<Conn> (in);
  m->name += " without redundant edge groups";
  m->cache.clear ();
  m->ett_off = {0};
  m->ett.clear ();
  m->ete.clear ();
  m->tte.assign (in.tte.size (), -1);
  bool dropped = false;
  for (size_t g = 0; g + 1 < in.ett_off.size (); ++g) {
    std::set<std::pair<int, int>> all;
    for (int i = in.ett_off[g]; i < in.ett_off[g + 1]; ++i) all.insert ({in.ett[(size_t) i], in.ete[(size_t) i] % 12});
    bool need = false;
    for (auto &x : all) {
      std::set<std::pair<int, int>> near {x};
      int fx[3];
      edge_fix (x.second, fx);
      for (int f = 0; f < NF; ++f) if (fx[f / 2] == (f & 1)) {
        std::vector<Map> v;
        in.face_maps (x.first, f, v);
        for (auto &mp : v) {
          Box b;
          b.t = x.first;
          for (int d = 0; d < 3; ++d) { b.lo[d] = fx[d] == 1 ? R : 0; b.hi[d] = fx[d] == 0 ? 0 : R; }
          Box q = mp.apply (b);
          for (int y = 0; y < 12; ++y) { int fy[3]; edge_fix (y, fy); bool eq = true; for (int d = 0; d < 3; ++d) eq = eq && q.lo[d] == (fy[d] == 1 ? R : 0) && q.hi[d] == (fy[d] == 0 ? 0 : R); if (eq) near.insert ({q.t, y}); }
        }
      }
      need = need || near != all;
    }
    if (!need) { dropped = true; continue; }
    for (int i = in.ett_off[g]; i < in.ett_off[g + 1]; ++i) { m->ett.push_back (in.ett[(size_t) i]); m->ete.push_back (in.ete[(size_t) i]); m->tte[(size_t) (12 * m->ett.back () + m->ete.back () % 12)] = (int) m->ett_off.size () - 1; }
    m->ett_off.push_back ((int) m->ett.size ());
  }
  if (!dropped) return nullptr;
  if (m->ett.empty ()) m->tte.clear ();
  return m;
}
inline void self_glued (int bal, int every, const ForestFn &f)
{
  for (int k = 1; k <= D; ++k) {
    E.stage ("one tree with %d pairs of faces glued%s", k, every > 1 ? strf (", every %d-th way", every).c_str () : "");
    int i = 0;
    for (auto &g : gluings (k)) {
      if (i++ % every) continue;
      auto m0 = glued (g);
      if (!m0) continue;
      for (auto &m : {m0, unlisted (*m0)}) {
      if (!m) continue;
      HostConn hc (m);
      std::set<Cells> seen;
      for (auto &L : reachable (uniform (1, 0), 2, 4, 3)) {
        Cells b = bal >= 0 ? balance (*m, L, bal) : L;
        if (!seen.insert (b).second || !E.take ()) continue;
        E.state ();
        f (hc, b);
        if (!hc.intact ()) E.bad ("coarse mesh modified");
      }
      }
    }
  }
}

inline void forests_of (std::shared_ptr<Conn> m, const std::vector<Cells> &in, int bal, const std::string &what, bool newstage, const ForestFn &f)
{
  HostConn hc (m);
  std::vector<Cells> fs;
  if (bal >= 0) {
    std::set<Cells> seen;
    for (auto &L : in) { Cells b = balance (*m, L, bal); if (seen.insert (b).second) fs.push_back (b); }
  }
  else fs = in;
  if (newstage) E.stage ("%s: %s (%zu forests%s)", m->name.c_str (), what.c_str (), fs.size (), bal < 0 ? "" : bal == 0 ? ", corner balanced" : bal == D - 1 ? ", face balanced" : ", edge balanced");
  for (auto &L : fs) if (E.take ()) { E.state (); f (hc, L); if (!hc.intact ()) E.bad ("coarse mesh modified"); }
}
inline void spaces (const SpaceOpt &o, const ForestFn &f)
{
  if (o.names) for (auto nm : o.only.empty () ? conn_names () : o.only) {
    auto m = named (nm);
    if (!m) { E.stage ("%s", nm.c_str ()); if (E.take ()) E.bad ("cannot create mesh %s", nm.c_str ()); continue; }
    int K = m->nt == 1 ? o.K1 : m->nt <= 4 ? o.K4 : o.Kn;
    forests_of (m, reachable (uniform (m->nt, 0), K, o.Lmax, o.cap), o.bal, strf ("all forests by <= %d refinements", K), true, f);
  }
  if (o.touch) for (int k = 0; k < (D == 3 ? 4 : 2); ++k) {
    auto m = touching (k);
    forests_of (m, reachable (uniform (2, 0), o.K4, o.Lmax, o.cap), o.bal, strf ("all forests by <= %d refinements", o.K4), true, f);
  }
  if (o.twoK >= 0) {
    E.stage ("all ways to join two trees: all forests by <= %d refinements", o.twoK);
    for (int l = 0; l < NF; ++l) for (int r = 0; r < NF; ++r) for (int k = 0; k < (D == 3 ? 4 : 2); ++k) {
      auto m = twotrees (l, r, k);
      if (!m) { if (E.take ()) E.bad ("cannot create twotrees %d %d %d", l, r, k); continue; }
      forests_of (m, reachable (uniform (2, 0), o.twoK, o.Lmax, o.twocap), o.bal, "", false, f);
    }
  }
  if (o.glue) self_glued (o.bal, E.thorough ? std::max (1, o.glue / 6) : o.glue, f);
  if (o.chains) for (auto nm : {"unit", "periodic", "pillow", "rotwrap"}) {
    auto m = named (nm);
    std::vector<Cells> v;
    int nch = D == 2 ? NC : 2;
    bool unit = !strcmp (nm, "unit");
    for (int c = 0; c < NC; ++c) if (D == 2 || unit || c == 0 || c == NC - 1) v.push_back (chain (m->nt, m->nt - 1, c, QMAX));
    v.push_back (chain (m->nt, m->nt - 1, NC - 1, QMAX - 1));
    // in 3D interior chains are long after balancing
    if (D == 2 || o.bal < 0) for (int a = 0; a < nch; ++a) for (int b = 0; b < nch; ++b) v.push_back (chain2 (m->nt, m->nt - 1, a, NC - 1 - b, QMAX - ((a + b) % 3 == 2)));
    forests_of (m, v, o.bal, strf ("chains to level %d", QMAX), true, f);
  }
  if (o.shapes) for (auto nm : {"unit", "periodic"}) {
    auto m = named (nm);
    std::vector<Cells> fs;
    shapes_rec (root (0), 2, fs);
    forests_of (m, fs, o.bal, "all subdivisions of depth <= 2", true, f);
  }
}
// All partitions on 1..maxP ranks.  If there are more than cap for some number
// of ranks, the cuts are restricted to the positions of a coarser grid
// (always with both ends and their neighbors); all combinations of these.
inline void parts (int n, int minP, int maxP, long cap, const std::function<void(int, const std::vector<int> &)> &f, const std::vector<int> &must = {})
{
  for (int P = minP; P <= maxP; ++P) {
    int m = n;
    auto count = [&](int k) { double c = 1; for (int i = 1; i < P; ++i) c = c * (k + i) / i; return c; };
    while (m > 1 && count (m) > cap) --m;
    if (m == n) { partitions (n, P, [&](const std::vector<int> &g) { f (P, g); }); continue; }
    std::set<int> s {0, n};
    if (m >= 3) { s.insert (1); s.insert (n - 1); }
    for (int i : must) if (i > 0 && i < n) s.insert (i);
    for (int i = 1; (int) s.size () < m + 1 && i < m; ++i) s.insert ((int) ((long) n * i / m));
    std::vector<int> pos (s.begin (), s.end ());
    partitions ((int) pos.size () - 1, P, [&](const std::vector<int> &g) {
      std::vector<int> h;
      for (int x : g) h.push_back (pos[x]);
      f (P, h);
    });
  }
}
// as above, where both sides of the deepest leaf are always among the cuts
inline void parts (const Cells &L, int minP, int maxP, long cap, const std::function<void(int, const std::vector<int> &)> &f)
{
  int k = 0;
  for (size_t i = 0; i < L.size (); ++i) if (L[i].l > L[k].l) k = (int) i;
  // beyond the first one if there are several
  if (k + 1 < (int) L.size () && L[k + 1].l == L[k].l) ++k;
  parts ((int) L.size (), minP, maxP, cap, f, {k, k + 1});
}
inline std::vector<std::pair<p4est_connect_type_t, int>> btypes ()
{
#ifdef P4_TO_P8
  return {{P8EST_CONNECT_FACE, 2}, {P8EST_CONNECT_EDGE, 1}, {P8EST_CONNECT_FULL, 0}};
#else
  return {{P4EST_CONNECT_FACE, 1}, {P4EST_CONNECT_FULL, 0}};
#endif
}
inline p4est_connect_type_t full_type () { return btypes ().back ().first; }
// indices of leaves by owner
inline std::vector<int> owners (const std::vector<int> &g)
{
  std::vector<int> o (g.back ());
  for (size_t p = 0; p + 1 < g.size (); ++p) for (int i = g[p]; i < g[p + 1]; ++i) o[i] = (int) p;
  return o;
}
}
