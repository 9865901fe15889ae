// C20 Ownership and position lookups return the true owner and position
#include "ref/ghost.hh"
#ifdef P4_TO_P8
#include <p8est_search.h>
#else
#include <p4est_search.h>
#endif
using namespace br;

static long nq = 0;
struct Facts
{
  const Conn &m;
  const Cells &L;
  const std::vector<int> &g;
  Cells Q;                      // cells to ask about
  std::set<Cell> leaf;
  int pos (const Cell &c) const { auto it = std::upper_bound (L.begin (), L.end (), c); return (int) (it - L.begin ()) - 1; }
  // owner of the first descendant: the leaf that holds it
  int owner (const Cell &c) const { return owner_of (g, pos (first_desc (c, QMAX))); }
  int last_owner (const Cell &c) const { return owner_of (g, pos (last_desc (c, QMAX))); }
  int find (const Cell &c) const { int i = pos (c); return i >= 0 && L[i] == c ? i : -1; }
};
// a cell outside its tree across face f as seen from the neighbor tree
static Cell across_face (const Conn &m, const Cell &c, int f)
{
  int code = m.ttf[c.t * NF + f], nf = code % NF;
  Map mp = face_map (f, m.ttt[c.t * NF + f], nf, code / NF);
  Box b = box_of (c), o = mp.apply (b);
  int64_t d = f & 1 ? c.x[f / 2] - R : -c.x[f / 2] - c.h ();
  Cell n;
  n.t = mp.t2;
  n.l = c.l;
  for (int k = 0; k < D; ++k) n.x[k] = o.lo[k];
  n.x[nf / 2] = nf & 1 ? R - d - c.h () : d;
  return n;
}
static Cell shifted (const Cell &c, const int *s) { Cell n = c; for (int d = 0; d < D; ++d) n.x[d] += s[d] * c.h (); return n; }
// regions by which a cell lies outside: per axis 0 low 1 high 2 inside
static int outside (const Cell &c, int *r) { int k = 0; for (int d = 0; d < 3; ++d) { r[d] = d >= D ? 2 : c.x[d] < 0 ? 0 : c.x[d] >= R ? 1 : 2; k += r[d] < 2; } return k; }
// the cells that lie opposite across a tree edge or corner, without those across faces (and edges)
static std::vector<Cell> opposite (const Conn &m, const Cell &c, const int *r)
{
  std::vector<Cell> v;
  int k = 0;
  Box s;
  s.t = c.t;
  for (int d = 0; d < 3; ++d) {
    if (d >= D) s.lo[d] = s.hi[d] = 0;
    else if (r[d] < 2) { s.lo[d] = s.hi[d] = r[d] ? R : 0; ++k; }
    else { s.lo[d] = c.x[d]; s.hi[d] = c.x[d] + c.h (); }
  }
  // images of the common edge or corner across lower codimension
  std::set<Box> skip;
  for (int u = 1; u < NC; ++u) {
    int q[3] = {2, 2, 2}, n = 0;
    for (int d = 0; d < D; ++d) if ((u >> d & 1) && r[d] < 2) { q[d] = r[d]; ++n; }
    if (n == 0 || n >= k) continue;
    for (auto &mp : m.region_maps (c.t, q)) skip.insert (mp.apply (s));
  }
  for (auto &mp : m.region_maps (c.t, r)) {
    Box o = mp.apply (s);
    if (skip.count (o)) continue;
    Cell n;
    n.t = mp.t2;
    n.l = c.l;
    for (int d = 0; d < D; ++d) n.x[d] = o.lo[d] < o.hi[d] ? o.lo[d] : o.lo[d] == R ? R - c.h () : 0;
    v.push_back (n);
  }
  return v;
}
static int face_corner_index (int f, int corner) { for (int i = 0; i < NC / 2; ++i) if (face_corner (f, i) == corner) return i; return -1; }

static void owners_check (p4est_t *p, const Facts &F)
{
  int P = p->mpisize, me = p->mpirank, nt = F.m.nt;
  for (int r = 0; r < P; ++r) {
    int e = F.g[r] == F.g[r + 1];
    if (!!p4est_comm_is_empty (p, r) != e || !!p4est_comm_is_empty_gfq (p->global_first_quadrant, P, r) != e || !!p4est_comm_is_empty_gfp (p->global_first_position, P, r) != e) fail ("emptiness of process %d", r);
  }
  for (auto &c : F.Q) {
    p4est_quadrant_t q = to_quad (c);
    int o = F.owner (c), l = F.last_owner (c);
    for (int s = 0; s < P; ++s) {
      ++nq;
      int a = p4est_comm_find_owner (p, c.t, &q, s);
      if (a != o) fail ("p4est_comm_find_owner %s guess %d: %d expected %d", str (c).c_str (), s, a, o);
      if (!!p4est_comm_is_owner (p, c.t, &q, s) != (o == s)) fail ("p4est_comm_is_owner %s rank %d, owner is %d", str (c).c_str (), s, o);
      if (!!p4est_comm_is_owner_gfp (p->global_first_position, P, nt, c.t, &q, s) != (o == s)) fail ("p4est_comm_is_owner_gfp %s rank %d, owner is %d", str (c).c_str (), s, o);
      if (!!p4est_comm_is_contained (p, c.t, &q, s) != (o == s && l == s)) fail ("p4est_comm_is_contained %s rank %d, owners are %d..%d", str (c).c_str (), s, o, l);
    }
    for (int f = -1; f < NF; ++f) {
      int a = p4est_quadrant_find_owner (p, c.t, f, &q);
      if (a != o) fail ("p4est_quadrant_find_owner %s face %d: %d expected %d", str (c).c_str (), f, a, o);
    }
    for (int f = 0; f < NF; ++f) {
      // one and several cells outside of the tree
      bool at = f & 1 ? c.x[f / 2] + c.h () == R : c.x[f / 2] == 0;
      if (!!p4est_quadrant_on_face_boundary (p, c.t, f, &q) != (at && F.m.boundary (c.t, f))) fail ("p4est_quadrant_on_face_boundary %s face %d", str (c).c_str (), f);
      Cell n = c;
      n.x[f / 2] += f & 1 ? R : -R;
      for (int k = 0; k < 2; ++k) {
        if (k == 1) { if (!at) break; n = c; n.x[f / 2] += f & 1 ? c.h () : -c.h (); }
        p4est_quadrant_t nqd = to_quad (n);
        int e = F.m.boundary (c.t, f) ? -1 : F.owner (across_face (F.m, n, f));
        for (int ff = -1; ff <= f; ff += f + 1) {
          ++nq;
          int a = p4est_quadrant_find_owner (p, c.t, ff, &nqd);
          if (a != e) fail ("p4est_quadrant_find_owner %s outside face %d (given %d): %d expected %d", str (n).c_str (), f, ff, a, e);
        }
      }
    }
  }
  for (int r = 0; r < P; ++r) {
    std::vector<p4est_locidx_t> n;
    for (int i = 0; i < P; ++i) n.push_back (F.g[i + 1] - F.g[i]);
    int e = r;
    while (e < P && n[e] == 0) ++e;
    if (e < P && p4est_next_nonempty_process (r, P, n.data ()) != e) fail ("p4est_next_nonempty_process from %d", r);
  }
  (void) me;
}
static void trees_check (p4est_t *p, const Facts &F, const Adj &A)
{
  int me = p->mpirank, lo = F.g[me], hi = F.g[me + 1];
  if (lo == hi) return;
  for (int t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    int full[2], contact[NF];
    const p4est_quadrant_t *fp = NULL, *np = NULL;
    p4est_comm_tree_info (p, t, full, contact, &fp, &np);
    if (!!full[0] != (F.owner (root (t)) == me) || !!full[1] != (F.last_owner (root (t)) == me)) fail ("p4est_comm_tree_info: ownership of tree %d", t);
    for (int f = 0; f < NF; ++f) if (!!contact[f] == F.m.boundary (t, f)) fail ("p4est_comm_tree_info: tree %d face %d", t, f);
    if (fp != &p->global_first_position[me] || np != &p->global_first_position[me + 1]) fail ("p4est_comm_tree_info: positions");
    for (int i = lo; i < hi; ++i) if (F.L[i].t == t) {
      p4est_quadrant_t q = to_quad (F.L[i]);
      bool a = p4est_comm_neighborhood_owned (p, t, full, contact, &q);
      int s[3], r[3];
      // true only if all neighbors are local; inside of a tree also the converse
      if (a) for (auto &n : A[i]) if (n.j < lo || n.j >= hi) fail ("p4est_comm_neighborhood_owned is true for %s, but %s is remote", str (F.L[i]).c_str (), str (F.L[n.j]).c_str ());
      bool inside = true, own = true;
      for (s[0] = -1; s[0] <= 1; ++s[0]) for (s[1] = -1; s[1] <= 1; ++s[1]) for (s[2] = D == 3 ? -1 : 0; s[2] <= (D == 3 ? 1 : 0); ++s[2]) {
        Cell n = shifted (F.L[i], s);
        if (outside (n, r)) inside = false;
        else own = own && F.owner (n) == me && F.last_owner (n) == me;
      }
      if (inside && a != own) fail ("p4est_comm_neighborhood_owned %s is %d expected %d", str (F.L[i]).c_str (), a, own);
    }
  }
  // by number
  for (int i = lo; i < hi; ++i) for (int guess = -2; guess <= p->last_local_tree; ++guess) {
    if (guess >= 0) {
      if (guess < p->first_local_tree || p4est_tree_array_index (p->trees, guess)->quadrants.elem_count == 0) continue;
    }
    p4est_topidx_t wt = guess;
    p4est_locidx_t id = -9;
    ++nq;
    p4est_quadrant_t *q = guess == -2 ? p4est_find_quadrant_cumulative (p, i - lo, NULL, NULL) : p4est_find_quadrant_cumulative (p, i - lo, &wt, &id);
    if (q != local_quad (p, i - lo)) fail ("p4est_find_quadrant_cumulative %d guess %d returns a different leaf", i - lo, guess);
    if (guess != -2 && (wt != F.L[i].t || q != p4est_quadrant_array_index (&p4est_tree_array_index (p->trees, wt)->quadrants, (size_t) id))) fail ("p4est_find_quadrant_cumulative %d guess %d: tree %d number %d", i - lo, guess, (int) wt, (int) id);
  }
}
static void arrays_check (p4est_t *p, const Facts &F)
{
  for (int t = 0; t < F.m.nt; ++t) {
    sc_array_t *a = &p4est_tree_array_index (p->trees, t)->quadrants;
    int n = (int) a->elem_count;
    Cells v;
    for (int i = 0; i < n; ++i) v.push_back (to_cell (*p4est_quadrant_array_index (a, (size_t) i), t));
    for (auto c : F.Q) {
      if (c.t != t && n) { if (F.m.nt > 3) continue; c.t = t; }
      p4est_quadrant_t q = to_quad (c);
      int lb = -1, hb = -1;
      for (int i = n - 1; i >= 0; --i) if (!(v[i] < c)) lb = i;
      for (int i = 0; i < n; ++i) if (!(c < v[i])) hb = i;
      int step = std::max (1, n / 12);
      for (int s = 0; s < std::max (n, 1); s += s + step < n ? step : 1) {
        ++nq;
        int x = (int) p4est_find_lower_bound (a, &q, (size_t) s), y = (int) p4est_find_higher_bound (a, &q, (size_t) s);
        if (x != lb) fail ("p4est_find_lower_bound %s guess %d of %d: %d expected %d", str (c).c_str (), s, n, x, lb);
        if (y != hb) fail ("p4est_find_higher_bound %s guess %d of %d: %d expected %d", str (c).c_str (), s, n, y, hb);
      }
      // the leaves strictly inside c
      int b = 0;
      while (b < n && !(contains (c, v[b]) && v[b].l > c.l)) ++b;
      int e = b;
      while (e < n && contains (c, v[e])) ++e;
      if (c.l < QMAX && (b < e || c.l < 3)) {
        sc_array_t w;
        sc_array_init_view (&w, a, b < n ? (size_t) b : 0, (size_t) (e - b));
        size_t ind[NC + 1];
        p4est_split_array (&w, c.l, ind);
        for (int k = 0; k <= NC; ++k) {
          int cnt = 0;
          for (int i = b; i < e; ++i) { int id = child_id (ancestor (v[i], c.l + 1)); cnt += id < k; }
          if ((int) ind[k] != cnt) fail ("p4est_split_array %s: index %d is %zu expected %d", str (c).c_str (), k, ind[k], cnt);
        }
        // boundaries touched by ranges of leaves
        int st = std::max (1, (e - b) / 10);
        for (int i = b; i < e; i += st) for (int j = i; j < e; j += st) for (int nul = 0; nul < 4; ++nul) {
          if ((nul & 1) && !(first_desc (v[i], QMAX) == first_desc (c, QMAX))) continue;
          if ((nul & 2) && !(last_desc (v[j], QMAX) == last_desc (c, QMAX))) continue;
          p4est_quadrant_t lq = to_quad (first_desc (v[i], QMAX)), uq = to_quad (last_desc (v[j], QMAX));
          int want = 0, faces[NF], corners[NC];
          for (int k = i; k <= j; ++k) {
            int side[3][2];
            for (int d = 0; d < D; ++d) { side[d][0] = v[k].x[d] == c.x[d]; side[d][1] = v[k].x[d] + v[k].h () == c.x[d] + c.h (); }
            for (int f = 0; f < NF; ++f) if (side[f / 2][f & 1]) want |= 1 << f;
            for (int ed = 0; ed < NE; ++ed) { int s[3]; edge_fix (ed, s); bool ok = true; for (int d = 0; d < 3; ++d) if (s[d] >= 0) ok = ok && side[d][s[d]]; if (ok) want |= 1 << (NF + ed); }
            for (int q2 = 0; q2 < NC; ++q2) { bool ok = true; for (int d = 0; d < D; ++d) ok = ok && side[d][q2 >> d & 1]; if (ok) want |= 1 << (NF + NE + q2); }
          }
          ++nq;
#ifdef P4_TO_P8
          int edges[12];
          int32_t got = p8est_find_range_boundaries (nul & 1 ? NULL : &lq, nul & 2 ? NULL : &uq, c.l, faces, edges, corners);
          for (int k = 0; k < 12; ++k) if (!!edges[k] != (want >> (NF + k) & 1)) got = -1;
#else
          int32_t got = p4est_find_range_boundaries (nul & 1 ? NULL : &lq, nul & 2 ? NULL : &uq, c.l, faces, corners);
#endif
          for (int k = 0; k < NF; ++k) if (!!faces[k] != (want >> k & 1)) got = -1;
          for (int k = 0; k < NC; ++k) if (!!corners[k] != (want >> (NF + NE + k) & 1)) got = -1;
          if (got != want) fail ("p4est_find_range_boundaries in %s from %s to %s nul %d: %x expected %x", str (c).c_str (), str (v[i]).c_str (), str (v[j]).c_str (), nul, got, want);
        }
      }
    }
  }
}
static void exist_check (p4est_t *p, const Facts &F, p4est_ghost_t *gl, const std::vector<int> &gs, long turn)
{
  int me = p->mpirank, lo = F.g[me], hi = F.g[me + 1];
  std::map<int, int> gpos;
  for (size_t i = 0; i < gs.size (); ++i) gpos[gs[i]] = (int) i;
  auto known = [&](const Cell &c, int &k) { k = F.find (c); return k >= 0 && ((k >= lo && k < hi) || gpos.count (k)); };
  sc_array_t *ea = sc_array_new (sizeof (int)), *pa = sc_array_new (sizeof (int)), *qa = sc_array_new (sizeof (p4est_quadrant_t));
  for (int i = lo; i < hi; ++i) {
    const Cell &c = F.L[i];
    // cells in all directions, of same, double and half size
    for (int size = -1; size <= 1; ++size) {
      if (c.l + size < 0 || c.l + size > QMAX) continue;
      std::set<Cell> seen;
      Cells orig;
      if (size == 1) for (int k = 0; k < NC; ++k) orig.push_back (child (c, k));
      else orig.push_back (size == 0 ? c : parent (c));
      for (auto &oc : orig) {
        int s[3];
        for (s[0] = -1; s[0] <= 1; ++s[0]) for (s[1] = -1; s[1] <= 1; ++s[1]) for (s[2] = D == 3 ? -1 : 0; s[2] <= (D == 3 ? 1 : 0); ++s[2]) {
          Cell n = shifted (oc, s);
          if (!seen.insert (n).second) continue;
          int r[3], k, codim = outside (n, r);
          p4est_quadrant_t q = to_quad (n);
          ++turn;
          bool haveE = turn % 3 || codim > 1, haveP = turn % 2, haveQ = turn % 5 != 0;
          ++nq;
          int got = p4est_quadrant_exists (p, gl, n.t, &q, haveE ? ea : NULL, haveP ? pa : NULL, haveQ ? qa : NULL);
          // expected queries
          std::vector<Cell> qs;
          if (codim == 0) qs.push_back (n);
          else if (codim == 1) { int f = 0; for (int d = 0; d < D; ++d) if (r[d] < 2) f = 2 * d + r[d]; if (!F.m.boundary (n.t, f)) qs.push_back (across_face (F.m, n, f)); }
          else qs = opposite (F.m, n, r);
          bool any = false;
          std::multiset<std::string> want, have;
          for (auto &w : qs) {
            bool e = known (w, k);
            any = any || e;
            int ln = -1;
            if (e) { if (k >= lo && k < hi) { ln = k; while (ln > 0 && F.L[ln - 1].t == w.t) --ln; ln = k - std::max (ln, lo); } else ln = gpos[k]; }
            want.insert (strf ("%s %d %d %d", haveQ ? str (w).c_str () : "", codim > 1 ? e : -1, haveP ? F.owner (w) : -1, haveQ ? ln : -1));
          }
          size_t cnt = haveP ? pa->elem_count : haveQ ? qa->elem_count : qs.size ();
          if (haveP && haveQ && pa->elem_count != qa->elem_count) fail ("p4est_quadrant_exists %s: array lengths differ", str (n).c_str ());
          if (codim > 1 && ea->elem_count != qs.size ()) fail ("p4est_quadrant_exists %s: %zu queries expected %zu", str (n).c_str (), ea->elem_count, qs.size ());
          if (haveP || haveQ) for (size_t j = 0; j < cnt; ++j) {
            p4est_quadrant_t *w = haveQ ? p4est_quadrant_array_index (qa, j) : NULL;
            have.insert (strf ("%s %d %d %d", haveQ ? str (to_cell (*w, w->p.piggy3.which_tree)).c_str () : "", codim > 1 ? *(int *) sc_array_index (ea, j) != 0 : -1, haveP ? *(int *) sc_array_index (pa, j) : -1, haveQ ? (int) w->p.piggy3.local_num : -1));
          }
          if (!!got != any) fail ("p4est_quadrant_exists %s: %d expected %d", str (n).c_str (), got, any);
          if ((haveP || haveQ) && have != want) {
            std::string a, b;
            for (auto &x : have) a += " (" + x + ")";
            for (auto &x : want) b += " (" + x + ")";
            fail ("p4est_quadrant_exists %s: queries are%s expected%s", str (n).c_str (), a.c_str (), b.c_str ());
          }
        }
      }
      // across faces
      for (int f = 0; f < NF; ++f) for (auto &oc : orig) {
        int s[3] = {0, 0, 0};
        s[f / 2] = f & 1 ? 1 : -1;
        // it must be a neighbor of the leaf itself
        if (size == 1 && (child_id (oc) >> (f / 2) & 1) != (f & 1)) continue;
        if (size == -1 && (child_id (c) >> (f / 2) & 1) != (f & 1)) continue;
        Cell n = shifted (oc, s), w = n;
        int r[3], k, wantf = f ^ 1, codim = outside (n, r), ln, rank = -7, ff = f;
        bool bnd = codim && F.m.boundary (c.t, f);
        if (codim && !bnd) { w = across_face (F.m, n, f); wantf = F.m.ttf[c.t * NF + f]; }
        int e = bnd ? -2 : known (w, k) ? k - F.g[owner_of (F.g, k)] : -1;
        int hang = c.l ? child_id (c) : 0;
        bool useh = size == -1;
        p4est_quadrant_t q = to_quad (n);
        ++nq;
        ln = p4est_face_quadrant_exists (p, gl, c.t, &q, &ff, useh ? &hang : NULL, &rank);
        if (ln != e) fail ("p4est_face_quadrant_exists %s across face %d of %s: %d expected %d", str (n).c_str (), f, str (c).c_str (), ln, e);
        if (e >= 0 && rank != F.owner (w)) fail ("p4est_face_quadrant_exists %s: owner %d expected %d", str (n).c_str (), rank, F.owner (w));
        if (!bnd && ff != wantf) fail ("p4est_face_quadrant_exists %s across face %d of %s: face %d expected %d", str (n).c_str (), f, str (c).c_str (), ff, wantf);
        if (useh && !bnd) {
          // the part of w's face that touches c
          Cell img = c;
          int nf = codim ? wantf % NF : f ^ 1;
          Cell mir = shifted (c, s);    // equal size neighbor of c
          if (codim) img = across_face (F.m, mir, f); else img = mir;
          int want = face_corner_index (nf, child_id (img));
          if (!(contains (w, img)) || hang != want) fail ("p4est_face_quadrant_exists %s across face %d of %s: hanging number %d expected %d", str (n).c_str (), f, str (c).c_str (), hang, want);
        }
      }
    }
  }
  sc_array_destroy (ea);
  sc_array_destroy (pa);
  sc_array_destroy (qa);
}

static void body (HostConn &hc, const Facts &F, const Adj &A, const GhostSets &S, p4est_connect_type_t bt, bool heavy, long turn)
{
  rank_begin ();
  int me = vp::me ();
  p4est_t *p = make_p4est (&hc.c, F.L, F.g, 0, NULL);
  p4est_ghost_t *gl = p4est_ghost_new (p, bt);
  std::vector<p4est_gloidx_t> per (F.m.nt + 2, -3);
  p4est_comm_count_pertree (p, per.data ());
  for (int t = 0; t <= F.m.nt; ++t) {
    int n = 0;
    for (auto &c : F.L) n += c.t < t;
    if (per[t] != n) fail ("p4est_comm_count_pertree: %d is %lld expected %d", t, (long long) per[t], n);
  }
  if (per[F.m.nt + 1] != -3) fail ("p4est_comm_count_pertree writes behind the end");
  // what does not depend on the process is asked on one of them
  if (me == turn % p->mpisize) owners_check (p, F);
  trees_check (p, F, A);
  if (heavy) arrays_check (p, F);
  exist_check (p, F, gl, S[me], turn);
  check_p4est (p, F.L, F.g, 0, "after lookups");
  p4est_ghost_destroy (gl);
  p4est_destroy (p);
  rank_end ();
}

void enumerate ()
{
  bool th = E.thorough;
  SpaceOpt o;
  o.K1 = 3; o.K4 = 2; o.Kn = 1; o.cap = th ? 300 : D == 2 ? 40 : 12;
  o.twoK = 1; o.twocap = th ? 20 : 3; o.touch = true;
  o.Lmax = 4;
  if (!th) o.only = D == 2 ? std::vector<std::string> {"unit", "periodic", "corner", "moebius", "star", "bowtie", "brick321p", "icosahedron", "disk_p"} : std::vector<std::string> {"unit", "periodic", "twocubes", "rotcubes", "rotwrap", "brick321p", "shell"};
  spaces (o, [&](HostConn &hc, const Cells &L) {
    Adj A = adjacency ({hc.m, L});
    int rot = (int) L.size ();
    // cells to ask about
    std::set<Cell> Q;
    size_t st = std::max<size_t> (1, L.size () / 40);
    for (size_t i = rot % st; i < L.size (); i += st) {
      const Cell &c = L[i];
      for (int l = 0; l <= c.l; l += c.l > 6 && l > 2 && l < c.l - 3 ? 5 : 1) Q.insert (ancestor (c, l));
      Q.insert (c);
      if (c.l < QMAX) { Q.insert (child (c, 0)); Q.insert (child (c, NC - 1)); Q.insert (child (c, (int) i % NC)); }
      Q.insert (first_desc (c, QMAX)); Q.insert (last_desc (c, QMAX));
    }
    int k = 0;
    parts (L, 1, 3, th ? 60 : 12, [&](int P, const std::vector<int> &g) {
      ++rot; ++k;
      if (!E.sub ()) return;
      auto types = btypes ();
      auto bt = types[rot % types.size ()];
      GhostSets S = ghost_sets (A, g, bt.second);
      Facts F {*hc.m, L, g, Cells (Q.begin (), Q.end ()), {}};
      bool heavy = k % 3 == 1;
      E.describe ([=, &hc, &L] { return strf ("%s ghost type %d cuts %s leaves {%s}", hc.m->name.c_str (), bt.second, str (g).c_str (), str (L).c_str ()); });
      nq = 0;
      vp::Options op;
      op.leak_mpi = true;
      E.run (P, op, [&](int) { body (hc, F, A, S, bt.first, heavy, rot); });
      E.transition (nq);
      E.validated ();
    });
  });
  E.stage ("uniform partition of wide element numbers");
  for (int P = 1; P <= 40; ++P) if (E.take ()) for (p4est_gloidx_t n : {0LL, 1LL, 5LL, 39LL, 40LL, 41LL, 1000003LL, (1LL << 31) - 1, (1LL << 31) + 7, (1LL << 53) + 1, (1LL << 57) + 12345}) {
    if (!E.sub ()) continue;
    E.transition ();
    E.describe ([=] { return strf ("%d processes %lld elements", P, (long long) n); });
    E.run (1, vp::Options (), [&](int) {
      rank_begin ();
      std::vector<p4est_gloidx_t> v (P + 2, -3);
      p4est_comm_global_first_quadrant (n, P, v.data ());
      for (int i = 0; i <= P; ++i) if (v[i] != (p4est_gloidx_t) ((__int128) n * i / P)) fail ("p4est_comm_global_first_quadrant: %d is %lld", i, (long long) v[i]);
      if (v[P + 1] != -3) fail ("p4est_comm_global_first_quadrant writes behind the end");
    });
  }
}
