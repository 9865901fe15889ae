// C19 Top-down searches visit exactly the relevant branches, leaves and processes
#include "ref/spaces.hh"
#ifdef P4_TO_P8
#include <p8est_search.h>
#else
#include <p4est_search.h>
#endif
using namespace br;

enum { PRE = 0, POINT = 1, POST = 2, REORDER = 3 };
enum Kind { LOCAL, OLD, REORD, PART, GFX, GFP, ALL };
static const char *kname[] = {"search_local", "search", "search_reorder", "search_partition", "search_partition_gfx", "search_partition_gfp", "search_all"};
// identity of a question asked to a callback
struct Id
{
  Cell c;
  int role, point;
  bool operator< (const Id &o) const { int k = cmp (c, o.c); if (k) return k < 0; return role != o.role ? role < o.role : point < o.point; }
};
static std::string str (const Id &i) { return strf ("%s %s %d", i.role == PRE ? "pre" : i.role == POST ? "post" : i.role == POINT ? "point" : "reorder", str (i.c).c_str (), i.point); }
struct Ev
{
  Id id;
  int pf, pl, num;
  bool inforest;                // quadrant is the stored leaf
  std::vector<int> kids;        // reorder: indices seen
  std::vector<int> give;        // reorder: indices returned
  bool ans;
};
// what the callbacks answer
struct Answers
{
  std::set<Id> no;              // these are answered false
  bool geo = false;             // points stand for leaves: point i matches ancestors of target[i]
  Cells target;
  int order = 0;                // reorder: 0 none 1 reverse 2 rotate 3 drop one
  bool says (const Id &i) const
  {
    if (no.count (i)) return false;
    if (i.role == POINT && geo) return contains (i.c, target[i.point]) || contains (target[i.point], i.c);
    return true;
  }
  std::vector<int> permute (const Cell &c, const std::vector<int> &k) const
  {
    std::vector<int> r = k;
    size_t h = (size_t) (c.l + c.t + c.x[0] / len (c.l) + c.x[1] / len (c.l));
    if (order == 1) std::reverse (r.begin (), r.end ());
    if (order == 2 && !r.empty ()) std::rotate (r.begin (), r.begin () + h % r.size (), r.end ());
    if (order == 3 && !r.empty ()) r.erase (r.begin () + h % r.size ());
    if (order == 4 && !r.empty ()) { std::reverse (r.begin (), r.end ()); r.resize ((r.size () + 1) / 2); }
    return r;
  }
};
// one search under observation; found through the user pointer
struct Ctx
{
  const Answers *A;
  std::vector<Ev> log;
  p4est_t *p;
  std::vector<int> *points;
  std::string wrong;
};
static Ctx *ctx_of (p4est_t *p) { return (Ctx *) p->user_pointer; }
static int question (p4est_t *p, int t, p4est_quadrant_t *q, int pf, int pl, int num, void *point, int role)
{
  Ctx *x = ctx_of (p);
  Ev e;
  e.id.c = to_cell (*q, t);
  e.id.role = role;
  e.id.point = -1;
  if (point) {
    long k = (int *) point - x->points->data ();
    if (k < 0 || k >= (long) x->points->size () || (*x->points)[k] != 1000 + k) fail ("callback receives a pointer that is no point");
    e.id.role = POINT;
    e.id.point = (int) k;
  }
  e.pf = pf; e.pl = pl; e.num = num;
  e.inforest = x->p && num >= 0 && local_quad (x->p, num) == q;
  e.ans = x->A->says (e.id);
  x->log.push_back (e);
  if (x->log.size () > 200000) fail ("search does not end");
  return e.ans;
}
// the quadrant callback is the same function before and after the points
static bool last_was_points (Ctx *x, const Cell &c) { return !x->log.empty () && x->log.back ().id.c == c; }
static int quad_fn (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q, p4est_locidx_t num, void *point)
{
  Ctx *x = ctx_of (p);
  return question (p, t, q, -1, -1, num, point, point ? POINT : last_was_points (x, to_cell (*q, t)) ? POST : PRE);
}
static int pre_fn (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q, p4est_locidx_t num, void *point) { if (point) fail ("quadrant callback with a point"); return question (p, t, q, -1, -1, num, point, PRE); }
static int post_fn (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q, p4est_locidx_t num, void *point) { if (point) fail ("quadrant callback with a point"); return question (p, t, q, -1, -1, num, point, POST); }
static int point_fn (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q, p4est_locidx_t num, void *point) { if (!point) fail ("point callback without a point"); return question (p, t, q, -1, -1, num, point, POINT); }
static int reorder_fn (p4est_t *p, sc_array_t *quads, sc_array_t *ind)
{
  Ctx *x = ctx_of (p);
  Ev e;
  e.pf = e.pl = e.num = -1;
  e.inforest = false;
  e.id.role = REORDER;
  e.id.point = -1;
  p4est_quadrant_t *q0 = (p4est_quadrant_t *) sc_array_index (quads, 0);
  if (ind->elem_size != sizeof (p4est_topidx_t)) fail ("reorder: element size of the indices");
  for (size_t i = 0; i < ind->elem_count; ++i) e.kids.push_back (*(p4est_topidx_t *) sc_array_index (ind, i));
  if (q0->level == 0) {
    // the local trees
    for (size_t i = 0; i < quads->elem_count; ++i) {
      p4est_quadrant_t *q = (p4est_quadrant_t *) sc_array_index (quads, i);
      if (q->level != 0 || q->p.piggy1.which_tree != p->first_local_tree + (int) i) fail ("reorder: tree root %zu", i);
    }
    if ((int) quads->elem_count != p->last_local_tree - p->first_local_tree + 1) fail ("reorder: number of trees");
    e.id.c.t = -1;
  }
  else {
    if (quads->elem_count != NC) fail ("reorder: %zu children", quads->elem_count);
    e.id.c = parent (to_cell (*q0, q0->p.piggy1.which_tree));
    for (int i = 0; i < NC; ++i) {
      p4est_quadrant_t *q = (p4est_quadrant_t *) sc_array_index (quads, (size_t) i);
      if (to_cell (*q, q->p.piggy1.which_tree) != child (e.id.c, i)) fail ("reorder: child %d", i);
    }
  }
  e.ans = x->A->says (e.id);
  e.give = x->A->permute (e.id.c, e.kids);
  // permute first, resize after
  for (size_t i = 0; i < e.give.size (); ++i) *(p4est_topidx_t *) sc_array_index (ind, i) = e.give[i];
  if (e.give.size () < ind->elem_count) sc_array_resize (ind, e.give.size ());
  x->log.push_back (e);
  return e.ans;
}
static int part_fn (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q, int pf, int pl, void *point)
{
  return question (p, t, q, pf, pl, -1, point, point ? POINT : last_was_points (ctx_of (p), to_cell (*q, t)) ? POST : PRE);
}
static int all_fn (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q, int pf, int pl, p4est_locidx_t num, void *point)
{
  return question (p, t, q, pf, pl, num, point, point ? POINT : last_was_points (ctx_of (p), to_cell (*q, t)) ? POST : PRE);
}

// ---- reference: reads the log and complains where it differs
struct Ref
{
  const Cells &L;
  const std::vector<int> &g;
  int me;
  Kind kind;
  bool call_post, qfn, pfn, skip;
  int np;                       // points; -1: none
  const Answers &A;
  const std::vector<Ev> &log;
  size_t at = 0;
  std::string msg;
  bool bad (const std::string &m) { if (msg.empty ()) msg = strf ("event %zu of %zu: ", at, log.size ()) + m + (at < log.size () ? " but the callback was: " + str (log[at].id) : " but the search ended"); return false; }
  // consume the events of one visit of cell c; returns false on mismatch
  bool visit (const Cell &c, int num, int pf, int pl, std::vector<int> &act, bool leaf, bool &go)
  {
    go = true;
    auto expect = [&](const Id &id) {
      if (at >= log.size () || id < log[at].id || log[at].id < id) return bad ("expected " + str (id));
      const Ev &e = log[at];
      if (kind == LOCAL || kind == OLD || kind == REORD || kind == ALL) {
        if (leaf ? e.num != num : e.num >= 0) return bad (strf ("local number %d expected %d", e.num, num));
        if (leaf && !e.inforest) return bad ("the leaf is not the stored one");
      }
      if (kind >= PART && (e.pf != pf || e.pl != pl)) return bad (strf ("processes %d..%d expected %d..%d", e.pf, e.pl, pf, pl));
      ++at;
      return true;
    };
    if (qfn) {
      if (!expect ({c, PRE, -1})) return false;
      if (!log[at - 1].ans) { go = false; return true; }
    }
    if (np >= 0) {
      // points in any order
      std::set<int> todo (act.begin (), act.end ());
      std::vector<int> next;
      while (!todo.empty ()) {
        if (at >= log.size () || log[at].id.role != POINT || log[at].id.c != c || !todo.count (log[at].id.point)) return bad (strf ("expected %zu more points at %s", todo.size (), str (c).c_str ()));
        int k = log[at].id.point;
        if (!expect ({c, POINT, k})) return false;
        todo.erase (k);
        if (log[at - 1].ans) next.push_back (k);
      }
      std::sort (next.begin (), next.end ());
      act = next;
      if (kind != REORD && call_post && qfn) {
        if (!expect ({c, POST, -1})) return false;
        if (!log[at - 1].ans) go = false;
      }
      if (act.empty ()) go = false;
    }
    return true;
  }
  // local leaves a..b inside q
  bool local (int a, int b, const Cell &q, std::vector<int> act)
  {
    if (a >= b || (np >= 0 && act.empty ())) return true;
    // the smallest cell that contains all leaves of the window
    Cell n = L[a];
    while (!contains (n, L[b - 1])) n = parent (n);
    Cell c = q;
    // search_local may skip intermediate levels
    if (kind == REORD && skip) c = n;
    if (kind == LOCAL || kind == OLD) {
      if (at >= log.size ()) return bad ("expected " + str (q));
      c = log[at].id.c;
      if (!contains (q, c) || !contains (c, n)) return bad ("expected a cell from " + str (q) + " to " + str (n));
    }
    if (c == q && false) return true;
    bool leaf = b - a == 1 && c == L[a], go;
    if (!visit (c, a - g[me], -1, -1, act, leaf, go)) return false;
    if (go && !leaf) {
      if (kind == REORD && pfn && b - a > 1) {
        // the children that contain leaves
        std::vector<int> kids;
        for (int i = 0; i < NC; ++i) for (int k = a; k < b; ++k) if (contains (child (c, i), L[k])) { kids.push_back (i); break; }
        Id id {c, REORDER, -1};
        if (at >= log.size () || id < log[at].id || log[at].id < id) return bad ("expected " + str (id));
        if (log[at].kids != kids) return bad ("reorder sees " + str (log[at].kids) + " expected " + str (kids));
        const Ev &e = log[at++];
        if (e.ans) for (int i : e.give) if (!sub (a, b, child (c, i), act)) return false;
      }
      else for (int i = 0; i < NC; ++i) if (!sub (a, b, child (c, i), act)) return false;
    }
    if (kind == REORD && call_post && (!qfn || A.says ({c, PRE, -1}))) {
      Id id {c, POST, -1};
      if (at >= log.size () || id < log[at].id || log[at].id < id) return bad ("expected " + str (id));
      if (leaf ? log[at].num != a - g[me] || !log[at].inforest : log[at].num >= 0) return bad ("local number after recursion");
      ++at;
    }
    return true;
  }
  bool sub (int a, int b, const Cell &q, const std::vector<int> &act)
  {
    while (a < b && !contains (q, L[a])) ++a;
    int e = a;
    while (e < b && contains (q, L[e])) ++e;
    return local (a, e, q, act);
  }
  int owner (const Cell &c) const { int i = 0; while (i + 1 < (int) L.size () && !(c < L[i + 1])) ++i; return owner_of (g, i); }
  bool part (const Cell &c, std::vector<int> act)
  {
    if (np >= 0 && act.empty ()) return true;
    int pf = owner (first_desc (c, QMAX)), pl = owner (last_desc (c, QMAX));
    bool leaf = false, go;
    int num = -1;
    if (kind == ALL && pf == me && pl == me) for (int k = g[me]; k < g[me + 1]; ++k) if (L[k] == c) { leaf = true; num = k - g[me]; }
    if (!visit (c, num, pf, pl, act, leaf, go)) return false;
    if (!go || leaf) return true;
    if (pf == pl && !(kind == ALL && pf == me)) return true;
    for (int i = 0; i < NC; ++i) if (!part (child (c, i), act)) return false;
    return true;
  }
  bool check (int nt)
  {
    std::vector<int> act;
    for (int i = 0; i < np; ++i) act.push_back (i);
    if (!qfn && np < 0 && !(kind == REORD && call_post)) { if (!log.empty ()) return bad ("expected no callback"); return true; }
    if (kind >= PART) for (int t = 0; t < nt; ++t) { if (!part (root (t), act)) return false; }
    else if (g[me] < g[me + 1]) {
      int ft = L[g[me]].t, lt = L[g[me + 1] - 1].t;
      std::vector<int> order;
      for (int t = ft; t <= lt; ++t) order.push_back (t - ft);
      if (kind == REORD && pfn) {
        Cell c;
        c.t = -1;
        Id id {c, REORDER, -1};
        if (at >= log.size () || id < log[at].id || log[at].id < id) return bad ("expected reorder of trees");
        if (log[at].kids != order) return bad ("reorder sees trees " + str (log[at].kids));
        order = log[at].give;
        if (!log[at++].ans) order.clear ();
      }
      for (int t : order) if (!sub (g[me], g[me + 1], root (ft + t), act)) return false;
    }
    if (at != log.size ()) return bad ("expected the end");
    return true;
  }
};

struct Cfg { Kind kind; bool call_post, qfn, pfn, skip; int np; bool geo; int order; };
static std::string str (const Cfg &c) { return strf ("%s call_post %d quadrant_fn %d reorder_fn %d skip %d points %d%s order %d", kname[c.kind], c.call_post, c.qfn, c.pfn, c.skip, c.np, c.geo ? " geometric" : "", c.order); }

static long nsearch = 0;
static size_t maxsingle = 150;
static void search (p4est_t *p, const Cells &L, const std::vector<int> &g, const Cfg &c, const Answers &A, Ctx &x)
{
  int nt = p->connectivity->num_trees;
  std::vector<int> pts;
  for (int i = 0; i < c.np; ++i) pts.push_back (1000 + i);
  pts.reserve (1);
  sc_array_t arr, *ap = NULL;
  if (c.np >= 0) { sc_array_init_data (&arr, pts.data (), sizeof (int), (size_t) c.np); ap = &arr; }
  x.A = &A;
  x.p = c.kind == LOCAL || c.kind == OLD || c.kind == REORD || c.kind == ALL ? p : nullptr;
  x.points = &pts;
  x.log.clear ();
  ++nsearch;
  p->user_pointer = &x;
  auto lf = c.qfn ? quad_fn : NULL;
  auto pt = ap ? point_fn : NULL;
  if (c.kind == LOCAL) p4est_search_local (p, c.call_post, lf, pt, ap);
  else if (c.kind == OLD) p4est_search (p, lf, pt, ap);
  else if (c.kind == REORD) p4est_search_reorder (p, c.skip, c.pfn ? reorder_fn : NULL, c.qfn ? pre_fn : NULL, c.call_post ? post_fn : NULL, pt, ap);
  else if (c.kind == PART) p4est_search_partition (p, c.call_post, c.qfn ? part_fn : NULL, ap ? part_fn : NULL, ap);
  else if (c.kind == GFX) p4est_search_partition_gfx (p->global_first_quadrant, p->global_first_position, p->mpisize, nt, c.call_post, &x, c.qfn ? part_fn : NULL, ap ? part_fn : NULL, ap);
  else if (c.kind == GFP) p4est_search_partition_gfp (p->global_first_position, p->mpisize, nt, c.call_post, &x, c.qfn ? part_fn : NULL, ap ? part_fn : NULL, ap);
  else p4est_search_all (p, c.call_post, c.qfn ? all_fn : NULL, ap ? all_fn : NULL, ap);
  p->user_pointer = NULL;
  Ref r {L, g, vp::me (), c.kind, c.call_post && c.kind != OLD, c.qfn, c.pfn, c.skip, c.np, A, x.log};
  if (!r.check (nt)) {
    std::string no;
    for (auto &i : A.no) no += " [" + str (i) + "]";
    fail ("%s: %s; answered false:%s", str (c).c_str (), r.msg.c_str (), no.c_str ());
  }
}
static void body (HostConn &hc, const Cells &L, const std::vector<int> &g, const std::vector<Cfg> &cs, int only, long pairs)
{
  rank_begin ();
  int me = vp::me ();
  p4est_t *p = make_p4est (&hc.c, L, g, 0, NULL);
  // nothing here communicates: one process may search while the others do not
  if (only < 0 || only == me) for (auto &c : cs) {
    Answers A;
    A.geo = c.geo;
    A.order = c.order;
    for (int i = 0; i < c.np; ++i) A.target.push_back (i == 0 ? L[L.size () / 2] : i == 1 ? first_desc (L[g[me] % (int) L.size ()], QMAX) : last_desc (L.back (), QMAX));
    Ctx x;
    search (p, L, g, c, A, x);
    std::vector<Ev> base = x.log;
    size_t n = base.size ();
    size_t st = std::max<size_t> (1, n / maxsingle);
    for (size_t i = nsearch % st; i < n; i += st) if (base[i].ans) {
      A.no = {base[i].id};
      search (p, L, g, c, A, x);
    }
    if ((long) (n * n / 2) <= pairs) for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (base[i].ans && base[j].ans) {
      A.no = {base[i].id, base[j].id};
      search (p, L, g, c, A, x);
    }
    // everything but one branch
    A.no.clear ();
    for (size_t i = 0; i < n; ++i) if (base[i].id.role == POINT && (base[i].id.point + base[i].id.c.l) % 2) A.no.insert (base[i].id);
    search (p, L, g, c, A, x);
  }
  check_p4est (p, L, g, 0, "after searches");
  p4est_destroy (p);
  rank_end ();
}

void enumerate ()
{
  bool th = E.thorough;
  SpaceOpt o;
  o.K1 = D == 2 ? 3 : 2; o.K4 = 2; o.Kn = 1; o.cap = th ? 300 : D == 2 ? 60 : 25;
  o.touch = false; o.twoK = -1;
  if (!th) o.only = D == 2 ? std::vector<std::string> {"unit", "corner", "moebius", "brick321p", "star"} : std::vector<std::string> {"unit", "twocubes", "rotcubes", "brick221"};
  std::vector<Cfg> all;
  for (int k = LOCAL; k <= ALL; ++k) for (int cp = 0; cp < 2; ++cp) for (int q = 0; q < 2; ++q) for (int np = -1; np <= 3; ++np) {
    if (np == 0 && q == 0) continue;
    for (int geo = 0; geo < (np > 0 ? 2 : 1); ++geo) {
      if (k == REORD) { for (int ord = 0; ord <= 5; ++ord) for (int sk = 0; sk < 2; ++sk) all.push_back ({REORD, cp != 0, q != 0, ord > 0, sk != 0, np, geo != 0, ord == 5 ? 0 : ord}); }
      else all.push_back ({(Kind) k, cp != 0, q != 0, false, false, np, geo != 0, 0});
    }
  }
  spaces (o, [&](HostConn &hc, const Cells &L) {
    int rot = (int) L.size () * 7;
    parts (L, 1, th ? 5 : 4, th ? 100 : 20, [&](int P, const std::vector<int> &g) {
      ++rot;
      if (!E.sub ()) return;
      std::vector<Cfg> cs;
      int stride = th ? 5 : L.size () > 40 ? 211 : 83;
      maxsingle = th ? 150 : 30;
      for (size_t i = (size_t) (rot % stride); i < all.size (); i += (size_t) stride) cs.push_back (all[i]);
      int only = P > 1 && rot % 3 == 0 ? rot / 3 % P : -1;
      E.describe ([=, &hc, &L] { return strf ("%s cuts %s only rank %d leaves {%s}", hc.m->name.c_str (), str (g).c_str (), only, str (L).c_str ()); });
      nsearch = 0;
      vp::Options op;
      op.leak_mpi = true;
      E.run (P, op, [&](int) { body (hc, L, g, cs, only, th ? 2000 : 60); });
      E.transition (nsearch);
      E.validated ();
    });
  });
}
