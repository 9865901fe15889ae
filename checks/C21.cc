// C21 Validity, balance and checksum queries tell the truth on every process
#include "ref/spaces.hh"
#ifdef P4_TO_P8
#include <p8est_algorithms.h>
#else
#include <p4est_algorithms.h>
#endif
using namespace br;
typedef std::vector<Cells> Held;                // leaves by process, in the order of storage

static bool covers (const Cells &v, size_t &i, const Cell &c)
{
  if (i >= v.size ()) return false;
  if (v[i] == c) { ++i; return true; }
  if (c.l >= QMAX || v[i].l <= c.l || v[i].t != c.t || !(ancestor (v[i], c.l) == c)) return false;
  for (int k = 0; k < NC; ++k) if (!covers (v, i, child (c, k))) return false;
  return true;
}
static bool well_formed (int nt, const Cells &v)
{
  for (auto &c : v) {
    if (c.l < 0 || c.l > QMAX || c.t < 0 || c.t >= nt) return false;
    for (int d = 0; d < D; ++d) if (c.x[d] < 0 || c.x[d] >= R || c.x[d] % len (c.l)) return false;
  }
  size_t i = 0;
  for (int t = 0; t < nt; ++t) if (!covers (v, i, root (t))) return false;
  return i == v.size ();
}
struct Mark { int t; int64_t x[3]; bool operator== (const Mark &o) const { return t == o.t && x[0] == o.x[0] && x[1] == o.x[1] && x[2] == o.x[2]; } };
static std::vector<Mark> markers (const Held &M, int nt)
{
  std::vector<Mark> v (M.size () + 1);
  v.back () = Mark {nt, {0, 0, 0}};
  for (int p = (int) M.size () - 1; p >= 0; --p) v[p] = M[p].empty () ? v[p + 1] : Mark {M[p][0].t, {M[p][0].x[0], M[p][0].x[1], D == 3 ? M[p][0].x[2] : 0}};
  return v;
}
static Held grouped (Held M) { for (auto &v : M) std::stable_sort (v.begin (), v.end (), [](const Cell &a, const Cell &b) { return a.t < b.t; }); return M; }
// a forest that holds these leaves, with counters that agree
static p4est_t *hold (p4est_connectivity_t *c, const Held &M, const std::vector<Mark> &mk)
{
  int me = vp::me (), P = (int) M.size ();
  Cells flat;
  std::vector<int> g {0};
  for (auto &v : M) { flat.insert (flat.end (), v.begin (), v.end ()); g.push_back ((int) flat.size ()); }
  p4est_t *p = make_p4est (c, flat, g, 0, NULL);
  for (int i = 0; i <= P; ++i) {
    p4est_quadrant_t *q = &p->global_first_position[i];
    q->x = (p4est_qcoord_t) mk[i].x[0]; q->y = (p4est_qcoord_t) mk[i].x[1];
#ifdef P4_TO_P8
    q->z = (p4est_qcoord_t) mk[i].x[2];
#endif
    q->p.which_tree = mk[i].t;
    q->level = P4EST_QMAXLEVEL;
  }
  (void) me;
  return p;
}
static long nval;
static void verdict (p4est_t *p, bool want, const std::function<std::string ()> &what)
{
  int r = p4est_is_valid (p);
  if (vp::me () == 0) ++nval;
  if ((r != 0) != want) fail ("is_valid returns %d for %s", r, what ().c_str ());
}

// ---- wrong leaves
static std::vector<std::pair<std::string, Held>> leaf_changes (const Held &H, int nt)
{
  std::vector<std::pair<std::string, Held>> out;
  auto put = [&](const std::string &s, const Held &m) { out.push_back ({s, grouped (m)}); };
  int P = (int) H.size ();
  for (int p = 0; p < P; ++p) {
    int n = (int) H[p].size ();
    std::set<int> at;
    for (int i = 0; i < n; ++i) if (n <= 12 || i < 3 || i >= n - 3 || i % (n / 6) == 0 || (i && H[p][i].t != H[p][i - 1].t) || (i + 1 < n && H[p][i].t != H[p][i + 1].t)) at.insert (i);
    for (int i : at) {
      Cell c = H[p][i];
      auto with = [&](const Cells &r) { Held m = H; m[p].erase (m[p].begin () + i); m[p].insert (m[p].begin () + i, r.begin (), r.end ()); return m; };
      std::string s = strf ("process %d leaf %d %s ", p, i, str (c).c_str ());
      put (s + "missing", with ({}));
      put (s + "twice", with ({c, c}));
      if (c.l > 0) {
        put (s + "with its parent before", with ({parent (c), c}));
        put (s + "replaced by its parent", with ({parent (c)}));
        Cell u = c; u.l--; put (s + "one level up in place", with ({u}));
      }
      if (c.l < QMAX) {
        Cells all, ch;
        for (int k = 0; k < NC; ++k) ch.push_back (child (c, k));
        put (s + "replaced by its first child", with ({ch[0]}));
        put (s + "replaced by its last child", with ({ch[NC - 1]}));
        put (s + "without its first child", with (Cells (ch.begin () + 1, ch.end ())));
        put (s + "without its last child", with (Cells (ch.begin (), ch.end () - 1)));
        put (s + "refined", with (ch));
        all = ch; std::swap (all[1], all[2]);
        put (s + "refined in wrong order", with (all));
        all = ch; all.insert (all.begin (), c);
        put (s + "and its children", with (all));
        Cell u = c; u.l = QMAX; put (s + "as its first descendant", with ({u}));
      }
      for (int d = 0; d < D; ++d) for (int sg = -1; sg <= 1; sg += 2) {
        Cell u = c;
        u.x[d] += sg * len (c.l);
        put (s + strf ("moved along axis %d", d), with ({u}));
        if (c.l < QMAX) { u = c; u.x[d] += sg * len (c.l) / 2; put (s + strf ("moved by half along axis %d", d), with ({u})); }
      }
      for (int t : {c.t - 1, c.t + 1}) if (t >= 0 && t < nt) { Cell u = c; u.t = t; put (s + "in another tree", with ({u})); }
      if (i + 1 < n) { Held m = H; std::swap (m[p][i], m[p][i + 1]); put (s + "swapped with the next", m); }
      if (i + 2 < n) { Held m = H; std::swap (m[p][i], m[p][i + 2]); put (s + "swapped with the second next", m); }
    }
    if (n) { Held m = H; m[p].clear (); put (strf ("process %d without leaves", p), m); }
    std::set<int> ts;
    for (auto &c : H[p]) ts.insert (c.t);
    if (ts.size () > 1) for (int t : ts) {
      Held m = H;
      m[p].erase (std::remove_if (m[p].begin (), m[p].end (), [&](const Cell &c) { return c.t == t; }), m[p].end ());
      put (strf ("process %d without tree %d", p, t), m);
    }
    // leaves at home on another process
    for (int o = 0; o < P; ++o) if (o != p && n && !H[o].empty ()) {
      Held m = H;
      m[o].insert (o < p ? m[o].end () : m[o].begin (), o < p ? H[p].front () : H[p].back ());
      put (strf ("process %d also holds a leaf of process %d", o, p), m);
      m = H;
      if (o < p) { m[o].push_back (H[p].front ()); m[p].erase (m[p].begin ()); }
      else { m[o].insert (m[o].begin (), H[p].back ()); m[p].pop_back (); }
      put (strf ("process %d has taken a leaf of process %d", o, p), m);
      if (o > p) { m = H; std::swap (m[o], m[p]); put (strf ("processes %d and %d exchanged", p, o), m); }
    }
  }
  return out;
}
// ---- wrong counters and markers on one process
static void counter_changes (p4est_t *p, const Held &H)
{
  int me = vp::me (), P = (int) H.size ();
  int nt = (int) p->trees->elem_count;
  for (int r = 0; r < P; ++r) {
    auto flip = [&](auto &field, auto value, const char *what, int a = 0, int b = 0) {
      auto old = field;
      if (me == r) { if ((decltype (old)) value == old) vp::fail ("no change"); field = (decltype (old)) value; }
      verdict (p, false, [=] { return strf ("a forest where on process %d ", r) + strf (what, a, b) + " is wrong"; });
      if (me == r) field = old;
    };
    for (int s : {-1, 1}) {
      flip (p->local_num_quadrants, p->local_num_quadrants + s, "local_num_quadrants");
      flip (p->global_num_quadrants, p->global_num_quadrants + s, "global_num_quadrants");
      for (int i = 0; i <= P; ++i) {
        flip (p->global_first_quadrant[i], p->global_first_quadrant[i] + s, "global_first_quadrant[%d]", i);
        auto &q = p->global_first_position[i];
        flip (q.x, q.x + s * len (QMAX), "x of global_first_position[%d]", i);
        flip (q.y, q.y ^ (p4est_qcoord_t) (R / 2), "y of global_first_position[%d]", i);
#ifdef P4_TO_P8
        flip (q.z, q.z ^ (p4est_qcoord_t) len (QMAX), "z of global_first_position[%d]", i);
#endif
        flip (q.p.which_tree, q.p.which_tree + s, "tree of global_first_position[%d]", i);
        flip (q.level, q.level + s, "level of global_first_position[%d]", i);
      }
      flip (p->first_local_tree, p->first_local_tree + s, "first_local_tree");
      flip (p->last_local_tree, p->last_local_tree + s, "last_local_tree");
      for (int t = 0; t < nt; ++t) {
        p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
        flip (tr->quadrants_offset, tr->quadrants_offset + s, "quadrants_offset of tree %d", t);
        flip (tr->maxlevel, tr->maxlevel + s, "maxlevel of tree %d", t);
        for (int l = 0; l <= P4EST_MAXLEVEL; ++l) flip (tr->quadrants_per_level[l], tr->quadrants_per_level[l] + s, "quadrants_per_level[%d] of tree %d", l, t);
        flip (tr->first_desc.level, tr->first_desc.level + s, "level of first_desc of tree %d", t);
        flip (tr->last_desc.level, tr->last_desc.level + s, "level of last_desc of tree %d", t);
      }
    }
    flip (p->revision, -1, "revision");
    for (int t = 0; t < nt; ++t) {
      p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
      bool has = false;
      for (auto &c : H[r]) has = has || c.t == t;
      if (has) {
        flip (tr->first_desc.x, tr->first_desc.x ^ (p4est_qcoord_t) len (QMAX), "x of first_desc of tree %d", t);
        flip (tr->first_desc.y, tr->first_desc.y ^ (p4est_qcoord_t) (R / 2), "y of first_desc of tree %d", t);
        flip (tr->last_desc.x, tr->last_desc.x ^ (p4est_qcoord_t) (R / 2), "x of last_desc of tree %d", t);
        flip (tr->last_desc.y, tr->last_desc.y ^ (p4est_qcoord_t) len (QMAX), "y of last_desc of tree %d", t);
#ifdef P4_TO_P8
        flip (tr->first_desc.z, tr->first_desc.z ^ (p4est_qcoord_t) (R / 4), "z of first_desc of tree %d", t);
        flip (tr->last_desc.z, tr->last_desc.z ^ (p4est_qcoord_t) (R / 4), "z of last_desc of tree %d", t);
#endif
      }
      // one leaf counted for another level that does not exceed the largest
      std::map<int, int> num;
      int ml = 0;
      for (auto &c : H[r]) if (c.t == t) { ++num[c.l]; ml = std::max (ml, c.l); }
      for (auto &x : num) for (int k = 0; k <= ml; ++k) if (k != x.first) {
        int l = x.first;
        if (me == r) { tr->quadrants_per_level[l]--; tr->quadrants_per_level[k]++; }
        verdict (p, false, [=] { return strf ("a forest where on process %d tree %d counts a leaf of level %d for level %d", r, t, l, k); });
        if (me == r) { tr->quadrants_per_level[l]++; tr->quadrants_per_level[k]--; }
      }
    }
  }
}

void enumerate ()
{
  // ---- truth on good forests
  SpaceOpt o;
  o.cap = E.thorough ? 600 : D == 2 ? 120 : 60;
  o.twocap = E.thorough ? 200 : 12;
  o.shapes = true;
  int maxP = E.thorough ? 4 : 3;
  long rot = 0;
  spaces (o, [&](HostConn &hc, const Cells &L) {
    std::vector<int> bal;
    Adj A = adjacency ({hc.m, L});
    for (auto &b : btypes ()) bal.push_back (is_balanced (Forest {hc.m, L}, A, b.second));
    unsigned sum0 = 0;
    bool have = false;
    std::map<std::vector<int>, unsigned> psum;
    parts ((int) L.size (), 1, maxP, E.thorough ? 200 : 10, [&](int P, const std::vector<int> &g) {
      ++rot;
      if (!E.sub ()) return;
      static unsigned s[8], t[8];
      E.describe ([=, m = hc.m->name] { return strf ("queries on %s, leaves %s, %s", m.c_str (), str (L).c_str (), str (g).c_str ()); });
      E.run (P, vp::Options {}, [&](int r) {
        rank_begin ();
        p4est_t *p = make_p4est (&hc.c, L, g, 0, NULL);
        if (!p4est_is_valid (p)) fail ("valid forest is rejected");
        int k = 0;
        for (auto &b : btypes ()) {
          int v = p4est_is_balanced (p, b.first);
          if ((v != 0) != (bal[k] != 0)) fail ("is_balanced returns %d for contacts of dimension >= %d", v, b.second);
          ++k;
        }
        s[r] = p4est_checksum (p);
        t[r] = p4est_checksum_partition (p);
        check_p4est (p, L, g, 0, "after the queries");
        p4est_destroy (p);
        rank_end ();
      }, [&] { std::fill (s, s + 8, 0); std::fill (t, t + 8, 0); }, [&] {
        for (int r = 1; r < P; ++r) if (s[r] != s[0] || t[r] != t[0]) fail ("checksums differ between processes 0 and %d: %x %x, %x %x", r, s[0], s[r], t[0], t[r]);
        if (have && s[0] != sum0) fail ("checksum %x, but %x on another partition", s[0], sum0);
        sum0 = s[0]; have = true;
        if (P == 1 && t[0] != s[0]) { /* nothing is promised */ }
        auto it = psum.find (g);
        if (it != psum.end () && it->second != t[0]) fail ("partition checksum %x, but was %x", t[0], it->second);
        psum[g] = t[0];
      });
    });
  });
  // ---- the checksums depend on the mesh, on the data of every process, and one of them on the partition
  for (auto nm : conn_names ()) {
    auto m = named (nm);
    E.stage ("%s: checksums of all pairs of forests", nm.c_str ());
    if (!m || m->nt > 8 || !E.take () || !E.sub ()) continue;
    HostConn hc (m);
    auto fs = reachable (uniform (m->nt, 0), m->nt == 1 ? (D == 2 ? 5 : 3) : 2, D == 2 ? 6 : 4, E.thorough ? 3000 : 500);
    E.describe ([=] { return nm; });
    static long same, pairs, psame, ppairs;
    same = pairs = psame = ppairs = 0;
    for (int P = 1; P <= 3; P += 2) {
      static unsigned s, t;
      std::vector<unsigned> v;
      std::vector<std::vector<unsigned>> pv;
      for (size_t i = 0; i < fs.size (); i += P == 1 ? 1 : 10) {
        const Cells &L = fs[i];
        int n = (int) L.size ();
        std::vector<unsigned> w;
        std::set<std::vector<int>> gs;
        if (P == 1) gs.insert ({0, n});
        else for (int a : {0, 1, n / 3, n / 2, n}) for (int b : {0, 1, n / 3, n / 2, n - 1, n}) if (a <= b) gs.insert ({0, a, b, n});
        for (auto &g : gs) {
          if (E.once (P, vp::Options (), [&](int r) {
            rank_begin ();
            p4est_t *p = make_p4est (&hc.c, L, g, 0, NULL);
            unsigned a = p4est_checksum (p), b = p4est_checksum_partition (p);
            if (r == P - 1) { s = a; t = b; }
            p4est_destroy (p);
            rank_end ();
          }).kind != vp::OK) { E.bad ("checksum fails"); break; }
          v.push_back (s);
          w.push_back (t);
          E.state ();
        }
        pv.push_back (w);
      }
      if (P == 1) for (size_t i = 0; i < v.size (); ++i) for (size_t j = 0; j < i; ++j) { ++pairs; same += v[i] == v[j]; }
      for (auto &w : pv) for (size_t i = 0; i < w.size (); ++i) for (size_t j = 0; j < i; ++j) { ++ppairs; psame += w[i] == w[j]; }
    }
    E.transition (pairs + ppairs);
    // accidental collisions are possible
    if (same * 20 > pairs) E.bad ("%ld of %ld pairs of forests have equal checksums", same, pairs);
    if (psame * 5 > ppairs) E.bad ("%ld of %ld pairs of partitions have equal partition checksums", psame, ppairs);
    if (getenv ("C21V")) fprintf (stderr, "%s: %ld of %ld pairs, %ld of %ld partitions\n", nm.c_str (), same, pairs, psame, ppairs);
  }
#ifndef P4EST_ENABLE_DEBUG
  // ---- wrong forests; assertions may catch these first in a debug build
  SpaceOpt w;
  w.K1 = 2; w.K4 = w.Kn = 1; w.Lmax = 3;
  w.cap = E.thorough ? 40 : 4;
  w.touch = true; w.twoK = -1; w.shapes = false; w.chains = true;
  if (!E.thorough) w.only = D == 2 ? std::vector<std::string> {"unit", "periodic", "corner", "brick23", "moebius"} : std::vector<std::string> {"unit", "rotwrap", "twocubes", "rotcubes", "periodic"};
  spaces (w, [&](HostConn &hc, const Cells &L) {
    int nt = hc.m->nt;
    if (L.size () > 120) return;
    parts (L, 1, maxP, E.thorough ? 60 : 5, [&](int P, const std::vector<int> &g) {
      if (!E.sub ()) return;
      Held H (P);
      for (int p = 0; p < P; ++p) H[p].assign (L.begin () + g[p], L.begin () + g[p + 1]);
      auto ch = leaf_changes (H, nt);
      auto mk = markers (H, nt);
      E.describe ([=, m = hc.m->name] { return strf ("damaged forests from %s, leaves %s, %s", m.c_str (), str (L).c_str (), str (g).c_str ()); });
      nval = 0;
      E.run (P, vp::Options {}, [&](int r) {
        rank_begin ();
        p4est_t *p = hold (&hc.c, H, mk);
        verdict (p, true, [] { return std::string ("a good forest"); });
        counter_changes (p, H);
        verdict (p, true, [] { return std::string ("a good forest"); });
        p4est_destroy (p);
        for (auto &c : ch) {
          Cells flat;
          for (auto &v : c.second) flat.insert (flat.end (), v.begin (), v.end ());
          bool ok = well_formed (nt, flat);
          auto m2 = markers (c.second, nt);
          for (int k = 0; k < 2; ++k) {
            p = hold (&hc.c, c.second, k ? m2 : mk);
            verdict (p, ok && (k || m2 == mk), [&] { return c.first + (k ? ", markers adjusted" : ", markers as before"); });
            p4est_destroy (p);
          }
          // everybody else still counts as before, without the change
          (void) r;
        }
        rank_end ();
      });
      E.transition (nval);
      E.state ((long) ch.size ());
    });
  });
#endif
}
