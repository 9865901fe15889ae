// Edge and corner groups of a coarse mesh against expected classes.
#pragma once
#include "ref/bridge.hh"
namespace br
{
struct Side { int t, e, flip; bool operator< (const Side &o) const { return std::tie (t, e, flip) < std::tie (o.t, o.e, o.flip); } bool operator== (const Side &o) const { return !(*this < o) && !(o < *this); } };
static std::string str (const std::set<Side> &s) { std::string r; for (auto &x : s) r += strf (" %d:%d%s", x.t, x.e, x.flip ? "'" : ""); return r; }
static std::string str (const std::multiset<Side> &s) { std::string r; for (auto &x : s) r += strf (" %d:%d%s", x.t, x.e, x.flip ? "'" : ""); return r; }

static Box corner_box (int t, int c) { Box b; b.t = t; for (int d = 0; d < 3; ++d) b.lo[d] = b.hi[d] = d < D && (c >> d & 1) ? R : 0; return b; }
static Box edge_box (int t, int e) { Box b; int s[3]; edge_fix (e, s); b.t = t; for (int d = 0; d < 3; ++d) { b.lo[d] = s[d] == 1 ? R : 0; b.hi[d] = s[d] == 0 ? 0 : R; } return b; }
static Box face_box (int t, int f) { Box b; b.t = t; for (int d = 0; d < 3; ++d) { b.lo[d] = 0; b.hi[d] = d < D ? R : 0; } b.lo[f / 2] = b.hi[f / 2] = f & 1 ? R : 0; return b; }
static int corner_at (const Box &b) { int c = 0; for (int d = 0; d < D; ++d) if (b.lo[d]) c |= 1 << d; return c; }
#ifdef P4_TO_P8
static int edge_at (const Box &b)
{
  for (int e = 0; e < 12; ++e) if (edge_box (b.t, e) == b) return e;
  return -1;
}
// edge e of tree t as seen from across the faces at it
static std::set<Side> edge_by_face (const Conn &C, int t, int e)
{
  std::set<Side> r;
  Box b = edge_box (t, e), h = b;
  h.hi[edge_axis (e)] = R / 2;
  for (int f = 0; f < NF; ++f) if (box_in (b, face_box (t, f))) {
    std::vector<Map> v;
    C.face_maps (t, f, v);
    for (auto &m : v) { Box o = m.apply (b), q = m.apply (h); int e2 = edge_at (o); r.insert (Side {m.t2, e2, q.lo[edge_axis (e2)] != 0}); }
  }
  return r;
}
#endif
static std::set<Side> corner_by_face (const Conn &C, int t, int c)
{
  std::set<Side> r;
  Box b = corner_box (t, c);
  for (int f = 0; f < NF; ++f) if (box_in (b, face_box (t, f))) {
    std::vector<Map> v;
    C.face_maps (t, f, v);
    for (auto &m : v) r.insert (Side {m.t2, corner_at (m.apply (b)), 0});
  }
  return r;
}
static std::set<Side> corner_by_edge (const Conn &C, int t, int c)
{
  std::set<Side> r;
#ifdef P4_TO_P8
  Box b = corner_box (t, c);
  for (int e = 0; e < 12; ++e) if (box_in (b, edge_box (t, e))) {
    std::vector<Map> v;
    C.edge_maps (t, e, v);
    for (auto &m : v) r.insert (Side {m.t2, corner_at (m.apply (b)), 0});
  }
#endif
  return r;
}

// ---- the groups of edges and corners of a mesh against the expected classes
static long nchecks;
static void check_groups (const Conn &C, const std::function<std::set<Side> (int, int)> &eclass, const std::function<std::set<Side> (int, int)> &cclass, bool unused = false)
{
#ifdef P4_TO_P8
  std::set<int> eu;
  for (int t = 0; t < C.nt; ++t) for (int e = 0; e < 12; ++e) {
    std::set<Side> want = eclass (t, e), near = edge_by_face (C, t, e);
    ++nchecks;
    near.insert (Side {t, e, 0});
    bool need = false;
    for (auto &s : want) need = need || !near.count (s);
    for (auto &s : near) if (!want.count (s)) fail ("edge %d of tree %d is glued through its faces to %d:%d but they do not coincide", e, t, s.t, s.e);
    int g = C.tte.empty () ? -1 : C.tte[12 * t + e];
    if (need && g < 0) fail ("edge %d of tree %d: group %d, but the sides there are%s and those across faces%s", e, t, g, str (want).c_str (), str (near).c_str ());
    if (g < 0) continue;
    eu.insert (g);
    std::multiset<Side> got;
    int o = -1, n = 0;
    for (int i = C.ett_off[g]; i < C.ett_off[g + 1]; ++i) if (C.ett[i] == t && C.ete[i] % 12 == e) { o = C.ete[i] / 12; ++n; }
    if (n != 1) fail ("edge %d of tree %d occurs %d times in its group %d", e, t, n, g);
    for (int i = C.ett_off[g]; i < C.ett_off[g + 1]; ++i) got.insert (Side {C.ett[i], C.ete[i] % 12, (C.ete[i] / 12) ^ o});
    std::multiset<Side> w (want.begin (), want.end ());
    if (got != w) fail ("edge %d of tree %d: group%s, expected%s", e, t, str (got).c_str (), str (w).c_str ());
  }
  if (!unused && (int) eu.size () != (int) C.ett_off.size () - 1) fail ("%zu edge groups are referenced of %zu", eu.size (), C.ett_off.size () - 1);
#endif
  std::set<int> cu;
  for (int t = 0; t < C.nt; ++t) for (int c = 0; c < NC; ++c) {
    std::set<Side> want = cclass (t, c), near = corner_by_face (C, t, c);
    for (auto &s : corner_by_edge (C, t, c)) near.insert (s);
    ++nchecks;
    near.insert (Side {t, c, 0});
    bool need = false;
    for (auto &s : want) need = need || !near.count (s);
    for (auto &s : near) if (!want.count (s)) fail ("corner %d of tree %d is glued through faces or edges to %d:%d but they do not coincide", c, t, s.t, s.e);
    int g = C.ttc.empty () ? -1 : C.ttc[NC * t + c];
    if (need && g < 0) fail ("corner %d of tree %d: group %d, but the sides there are%s and those across faces and edges%s", c, t, g, str (want).c_str (), str (near).c_str ());
    if (g < 0) continue;
    cu.insert (g);
    std::multiset<Side> got, w (want.begin (), want.end ());
    for (int i = C.ctt_off[g]; i < C.ctt_off[g + 1]; ++i) got.insert (Side {C.ctt[i], C.ctc[i], 0});
    if (got != w) fail ("corner %d of tree %d: group%s, expected%s", c, t, str (got).c_str (), str (w).c_str ());
  }
  if (!unused && (int) cu.size () != (int) C.ctt_off.size () - 1) fail ("%zu corner groups are referenced of %zu", cu.size (), C.ctt_off.size () - 1);
}
}
