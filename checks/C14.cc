// C14 Mesh iteration visits every volume, face, edge and corner exactly once
#include "ref/iter.hh"
#if VP_DIM == 3
#include <p8est_iterate.h>
#else
#include <p4est_iterate.h>
#endif
using namespace br;

struct Ev { int kind; std::string text; };
struct Rec
{
  p4est_t *p; p4est_ghost_t *g;
  std::vector<Ev> ev;
  std::vector<std::string> extra;       // orientation and common faces of edges
};
static std::string quad_text (Rec *r, int t, int ghost, p4est_quadrant_t *q, p4est_locidx_t id)
{
  if (q == NULL) {
    if (!ghost || id != -1) fail ("iterate: missing leaf has is_ghost %d quadid %d", ghost, (int) id);
    return "-";
  }
  if (!ghost) {
    p4est_tree_t *tr = p4est_tree_array_index (r->p->trees, t);
    if (id < 0 || (size_t) id >= tr->quadrants.elem_count || q != p4est_quadrant_array_index (&tr->quadrants, id)) fail ("iterate: local leaf number %d of tree %d does not match the pointer", (int) id, t);
    return strf ("L%d", (int) id);
  }
  if (!r->g || id < 0 || (size_t) id >= r->g->ghosts.elem_count || q != p4est_quadrant_array_index (&r->g->ghosts, id)) fail ("iterate: ghost number %d does not match the pointer", (int) id);
  return strf ("G%d", (int) id);
}
// a side of which nothing is known may be given either as full or as hanging
static std::string missing (std::string t)
{
  size_t h = t.find ('h');
  if (h != std::string::npos && t.find_first_of ("LG", h) == std::string::npos) t = t.substr (0, h) + "-";
  return t;
}
static std::string join (int kind, int boundary, std::vector<std::string> v, bool sort)
{
  // interior: the first side has to be the lowest one
  if (sort && v.size () > 1) std::sort (v.begin () + (boundary ? 0 : 1), v.end ());
  std::string s = strf ("%s b%d:", kind == 0 ? "volume" : kind == 1 ? "face" : kind == 2 ? "edge" : "corner", boundary);
  for (auto &x : v) s += " " + x;
  return s;
}
static void on_volume (p4est_iter_volume_info_t *i, void *u)
{
  Rec *r = (Rec *) u;
  if (i->p4est != r->p || i->ghost_layer != r->g) { if (i->p4est != r->p || r->g) fail ("iterate: volume info"); }
  r->ev.push_back ({0, join (0, 0, {strf ("t%d %s", (int) i->treeid, quad_text (r, i->treeid, 0, i->quad, i->quadid).c_str ())}, false)});
}
static void on_face (p4est_iter_face_info_t *i, void *u)
{
  Rec *r = (Rec *) u;
  std::vector<std::string> v;
  for (size_t k = 0; k < i->sides.elem_count; ++k) {
    p4est_iter_face_side_t *s = p4est_iter_fside_array_index (&i->sides, k);
    std::string t = strf ("t%d/%d", (int) s->treeid, s->face);
    if (s->is_hanging) for (int j = 0; j < NC / 2; ++j) t += (j ? "," : "h") + quad_text (r, s->treeid, s->is.hanging.is_ghost[j], s->is.hanging.quad[j], s->is.hanging.quadid[j]);
    else t += quad_text (r, s->treeid, s->is.full.is_ghost, s->is.full.quad, s->is.full.quadid);
    v.push_back (missing (t));
  }
  r->ev.push_back ({1, strf ("o%d ", i->orientation) + join (1, i->tree_boundary, v, true)});
}
#ifdef P4_TO_P8
static void on_edge (p8est_iter_edge_info_t *i, void *u)
{
  Rec *r = (Rec *) u;
  std::vector<std::string> v;
  std::string ex;
  std::vector<std::tuple<std::string, int, int, int>> so;
  for (size_t k = 0; k < i->sides.elem_count; ++k) {
    p8est_iter_edge_side_t *s = p8est_iter_eside_array_index (&i->sides, k);
    std::string t = strf ("t%d/%d", (int) s->treeid, s->edge);
    if (s->is_hanging) for (int j = 0; j < 2; ++j) t += (j ? "," : "h") + quad_text (r, s->treeid, s->is.hanging.is_ghost[j], s->is.hanging.quad[j], s->is.hanging.quadid[j]);
    else t += quad_text (r, s->treeid, s->is.full.is_ghost, s->is.full.quad, s->is.full.quadid);
    t = missing (t);
    v.push_back (t);
    so.push_back ({t, s->orientation, s->faces[0], s->faces[1]});
  }
  std::sort (so.begin (), so.end ());
  int o0 = -1;
  std::map<int, int> nm;
  for (auto &x : so) {
    if (o0 < 0) o0 = std::get<1> (x);
    if (!i->tree_boundary && std::get<1> (x)) fail ("iterate: edge orientation %d inside a tree", std::get<1> (x));
    ex += strf (" %d", std::get<1> (x) ^ o0);
    for (int f : {std::get<2> (x), std::get<3> (x)}) ex += strf ("%c", 'a' + nm.insert ({f, (int) nm.size ()}).first->second);
  }
  r->ev.push_back ({2, join (2, i->tree_boundary, v, true)});
  r->extra.push_back (r->ev.back ().text + " |" + ex);
}
#endif
static void on_corner (p4est_iter_corner_info_t *i, void *u)
{
  Rec *r = (Rec *) u;
  std::vector<std::string> v;
  for (size_t k = 0; k < i->sides.elem_count; ++k) {
    p4est_iter_corner_side_t *s = p4est_iter_cside_array_index (&i->sides, k);
    v.push_back (strf ("t%d/%d", (int) s->treeid, s->corner) + quad_text (r, s->treeid, s->is_ghost, s->quad, s->quadid));
  }
  r->ev.push_back ({3, join (3, i->tree_boundary, v, true)});
}

struct Exp { std::vector<Ev> ev; std::vector<Entity> ent; std::vector<std::string> extra; int nvol = 0; };
// reference events of one rank
static Exp expect (const Conn &C, const Cells &L, const Tree &T, const std::vector<int> &g, int me, const std::vector<int> &gh, bool remote)
{
  Exp x;
  std::vector<char> known (L.size (), 0);
  std::map<int, std::string> nm;
  int off = 0;
  for (int i = g[me]; i < g[me + 1]; ++i) {
    if (i == g[me] || L[i].t != L[i - 1].t) off = i;
    known[i] = 1;
    nm[i] = strf ("L%d", i - off);
    x.ev.push_back ({0, strf ("volume b0: t%d L%d", L[i].t, i - off)});
  }
  for (size_t k = 0; k < gh.size (); ++k) { known[gh[k]] = 1; nm[gh[k]] = strf ("G%zu", k); }
  nm[-1] = "-";
  x.nvol = (int) x.ev.size ();
  for (auto &e : entities (C, L, T, known, g[me], g[me + 1], remote)) {
    int kind = e.dim == D - 1 ? 1 : e.dim == 0 ? 3 : 2;
    static const int bt2[] = {0, P4EST_CONNECT_FACE, P4EST_CONNECT_CORNER};
#ifdef P4_TO_P8
    static const int bt[] = {0, P8EST_CONNECT_FACE, P8EST_CONNECT_EDGE, P8EST_CONNECT_CORNER};
#else
    const int *bt = bt2;
#endif
    std::vector<std::string> v;
    std::vector<std::pair<std::string, int>> ord;
    int first = 0;
    for (auto &s : e.sides) {
      std::string t = strf ("t%d/%d", s.t, s.num);
      for (size_t j = 0; j < s.q.size (); ++j) t += (s.hang ? (j ? "," : "h") : "") + nm[s.q[j]];
      bool low = true;
      for (int d = 0; d < D; ++d) low = low && s.sg[d] <= 0;
      if (low) first = (int) v.size ();
      ord.push_back ({t, (int) v.size ()});
      v.push_back (t);
    }
    if (!e.codim) std::swap (v[0], v[first]);
    std::string text = join (kind, bt[e.codim], v, true);
    if (kind == 1) {
      int o = 0;
      if (e.codim) o = C.ttf[e.sides[0].t * NF + e.sides[0].num] / NF;
      text = strf ("o%d ", o) + text;
    }
    x.ev.push_back ({kind, text});
    x.ent.push_back (e);
    if (kind == 2) {
      // relative orientation and common faces of the sides
      std::sort (ord.begin (), ord.end ());
      std::string ex;
      bool self = false;
      std::map<Box, int> fm;
      int o0 = -1;
      int64_t h = 0;
      for (int d = 0; d < D; ++d) h = std::max (h, e.key.hi[d] - e.key.lo[d]);
      std::vector<Pt> pr;
      Pt q;
      q.t = e.key.t;
      for (int d = 0; d < D; ++d) q.x[d] = e.key.lo[d] + (e.key.hi[d] > e.key.lo[d] ? h / 4 : 0);
      C.pt_reps (q, pr);
      for (size_t k = 1; k < ord.size (); ++k) if (ord[k].first == ord[k - 1].first) self = true;     // not told apart
      for (auto &od : ord) {
        const Side &s = e.sides[od.second];
        int o = 0;
        for (auto &y : pr) if (y.t == s.t) {
          bool on = true;
          int ax = -1;
          for (int d = 0; d < D; ++d) { if (s.rep.lo[d] == s.rep.hi[d]) on = on && y.x[d] == s.rep.lo[d]; else ax = d; }
          if (on && y.x[ax] == s.rep.lo[ax] + h / 4) o = 0;
          else if (on && y.x[ax] == s.rep.hi[ax] - h / 4) o = 1;
        }
        if (o0 < 0) o0 = o;
        ex += strf (" %d", o ^ o0);
        for (int d = 0; d < D; ++d) if (s.rep.lo[d] == s.rep.hi[d]) {
          // face normal to d
          Box f = s.rep;
          for (int k = 0; k < D; ++k) if (k != d && s.rep.lo[k] == s.rep.hi[k]) { if (s.sg[k] > 0) f.hi[k] += std::max<int64_t> (1, h / 4); else f.lo[k] -= std::max<int64_t> (1, h / 4); }
          std::vector<Box> rp;
          C.reps (f, rp);
          Box m = f;
          for (auto &b : rp) if (box_dim (b) == 2 && b < m) m = b;
          // nothing is promised where a face is glued to the next face of the same side
          int id = fm.insert ({m, (int) fm.size ()}).first->second;
          if (ex.back () == 'a' + id) self = true;
          ex += strf ("%c", 'a' + fm.insert ({m, (int) fm.size ()}).first->second);
        }
      }
      x.extra.push_back (text + " |" + (self ? "*" : ex));
    }
  }
  return x;
}
static void compare (Rec &r, const Exp &x, int mask, bool extra, const Conn &C, const Cells &L, const std::vector<int> &g, int me, bool order)
{
  std::map<std::string, std::pair<int, int>> pos;       // text -> expected index, position
  for (size_t i = 0; i < x.ev.size (); ++i) if (mask >> x.ev[i].kind & 1) {
    if (!pos.insert ({x.ev[i].text, {(int) i, -1}}).second) fail ("reference: event twice: %s", x.ev[i].text.c_str ());
  }
  int nv = 0;
  for (size_t k = 0; k < r.ev.size (); ++k) {
    auto it = pos.find (r.ev[k].text);
    if (it == pos.end ()) {
      std::string w;
      for (auto &e : x.ev) if (e.kind == r.ev[k].kind) w += "\n   " + e.text;
      fail ("iterate: unexpected call %s; expected are%s", r.ev[k].text.c_str (), w.c_str ());
    }
    if (it->second.second >= 0) fail ("iterate: called twice: %s", r.ev[k].text.c_str ());
    it->second.second = (int) k;
    if (r.ev[k].kind == 0 && it->second.first != nv++) fail ("iterate: volume callbacks are out of order at %s", r.ev[k].text.c_str ());
  }
  for (auto &p : pos) if (p.second.second < 0) fail ("iterate: not called: %s", p.first.c_str ());
  if (extra) {
    std::set<std::string> es (x.extra.begin (), x.extra.end ());
    for (auto &t : r.extra) if (!es.count (t) && !es.count (t.substr (0, t.find ('|') + 1) + "*")) {
      std::string w;
      for (auto &e : x.extra) if (e.substr (0, e.find ('|')) == t.substr (0, t.find ('|'))) w = e;
      fail ("iterate: orientations or common faces of %s, expected %s", t.c_str (), w.c_str ());
    }
  }
  // order of the callbacks
  if (order) {
    std::vector<int> at (x.ev.size (), -1);
    for (auto &p : pos) at[p.second.first] = p.second.second;
    for (size_t k = 0; k < x.ent.size (); ++k) {
      int i = x.nvol + (int) k;
      if (at[i] < 0) continue;
      if (x.ent[k].dim == D - 1) for (auto &s : x.ent[k].sides) for (int q : s.q) if (q >= g[me] && q < g[me + 1] && at[q - g[me]] > at[i]) fail ("iterate: %s is called before the volume of %s", x.ev[i].text.c_str (), str (L[q]).c_str ());
      // every entity of the next higher dimension that touches this one
      int up = x.ent[k].dim + 1;
      if (up >= D) continue;
      std::vector<Box> rp;
      C.reps (x.ent[k].key, rp);
      for (size_t m = 0; m < x.ent.size (); ++m) if (x.ent[m].dim == up) {
        int j = x.nvol + (int) m;
        if (at[j] < 0 || at[j] < at[i]) continue;
        for (auto &a : rp) for (auto &s : x.ent[m].sides) { Box o; if (box_dim (a) == x.ent[k].dim && box_cap (a, s.rep, o) && box_dim (o) == x.ent[k].dim) fail ("iterate: %s is called before %s", x.ev[i].text.c_str (), x.ev[j].text.c_str ()); }
      }
    }
  }
}
static void body (HostConn &hc, const Cells &L, const Tree &T, const std::vector<int> &g, const GhostSets &S, int gtype, int layers, const std::vector<int> &masks, int remote)
{
  rank_begin ();
  int me = vp::me ();
  auto bts = btypes ();
  p4est_t *p = make_p4est (&hc.c, L, g, 2, NULL);
  p4est_ghost_t *gl = NULL;
  std::vector<int> none;
  if (gtype >= 0) {
    gl = p4est_ghost_new (p, bts[gtype].first);
    for (int k = 1; k < layers; ++k) p4est_ghost_expand (p, gl);
  }
  const auto &gh = gtype >= 0 ? S[me] : none;
  if (gl && gl->ghosts.elem_count != gh.size ()) fail ("number of ghosts");
  Exp x = expect (*hc.m, L, T, g, me, gh, remote);
  for (int m : masks) {
    Rec r;
    r.p = p;
    r.g = gl;
#ifdef P4_TO_P8
    if (remote) p8est_iterate_ext (p, gl, &r, m & 1 ? on_volume : NULL, m & 2 ? on_face : NULL, m & 4 ? on_edge : NULL, m & 8 ? on_corner : NULL, remote);
    else p8est_iterate (p, gl, &r, m & 1 ? on_volume : NULL, m & 2 ? on_face : NULL, m & 4 ? on_edge : NULL, m & 8 ? on_corner : NULL);
#else
    if (remote) p4est_iterate_ext (p, gl, &r, m & 1 ? on_volume : NULL, m & 2 ? on_face : NULL, m & 8 ? on_corner : NULL, remote);
    else p4est_iterate (p, gl, &r, m & 1 ? on_volume : NULL, m & 2 ? on_face : NULL, m & 8 ? on_corner : NULL);
#endif
    int mm = (m & 1) | (m & 2) | (D == 3 ? m & 4 : 0) | (m & 8);
    compare (r, x, mm, true, *hc.m, L, g, me, L.size () < 60);
  }
  check_p4est (p, L, g, 1, "after iterate");
  if (gl) { if (layers == 1) check_ghost (gl, me, L, g, S, hc.m->nt, bts[gtype].first, "after iterate"); p4est_ghost_destroy (gl); }
  p4est_destroy (p);
  rank_end ();
}

void enumerate ()
{
  bool th = E.thorough;
  for (int bal = 1; bal >= 0; --bal) {
    SpaceOpt o;
    o.bal = bal;
    if (bal) o.glue *= 3;
    o.shapes = D == 2 && bal;
    o.cap = D == 2 ? (bal ? 40 : 150) : (bal ? 15 : 40);
    o.twocap = D == 2 ? 20 : 10;
    o.K1 = D == 2 ? 4 : 3;
    if (D == 3) o.Lmax = 3;
    if (th) { o.K1++; o.K4++; o.cap *= 8; o.twoK++; o.twocap *= 8; }
    spaces (o, [&](HostConn &hc, const Cells &L) {
      if (L.size () > 700) return;
      Adj A = adjacency ({hc.m, L});
      Tree T = make_tree (hc.m->nt, L);
      T.leaves ();
      int rot = (int) L.size () + 3 * bal;
      auto bts = btypes ();
      int nt = (int) bts.size ();
      parts (L, 1, 3, th ? 100 : L.size () > 60 ? 4 : 20, [&](int P, const std::vector<int> &g) {
        // ghost types in turn, every second time the full one
        ++rot;
        if (!E.sub ()) return;
        int gt = rot % 2 ? nt - 1 : (rot / 2) % (nt + 1) - 1;
        int layers = gt >= 0 && rot % 7 == 0 ? 2 : 1;
        int remote = gt == nt - 1 && rot % 3 == 0;
        GhostSets S = ghost_sets (A, g, gt < 0 ? 0 : bts[gt].second);
        if (layers == 2) S = ghost_grow (A, g, bts[gt].second, S);
        std::vector<int> masks {15, 1 + rot % 14, 15 & (rot * 5)};
        E.describe ([=, &hc, &L] { return strf ("%s ghosts %d layers %d remote %d callbacks %s cuts %s leaves {%s}", hc.m->name.c_str (), gt, layers, remote, str (masks).c_str (), str (g).c_str (), str (L).c_str ()); });
        E.transition (3);
        E.validated ();
        vp::Options op;
        op.leak_mpi = true;
        E.run (P, op, [&](int) { body (hc, L, T, g, S, gt, layers, masks, remote); });
      });
    });
  }
}
