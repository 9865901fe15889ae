// C06 Refinement and coarsening do exactly what the callbacks ask for
#include "ref/spaces.hh"
using namespace br;

struct Ctx
{
  const Cells *L, *out;
  std::vector<int> g, h;
  size_t ds;
  bool refine, recursive, orphans, init, replace, plain;
  int maxlevel;
  std::function<bool(const Cell &)> ans;        // of the cell / of the parent of the family
};
static Ctx X;
struct Rk
{
  std::set<Cell> cur;
  std::map<Cell, int> asked, orph, inits;
  Cell pending;                                 // last positive answer not yet carried out
  bool have = false;
  long nrep = 0;
};
static std::vector<Rk> R_;
static int token;

static void put (p4est_quadrant_t *q, const Cell &c)
{
  if (X.ds) data_fill ((unsigned char *) q->p.user_data, X.ds, c);
  else { uint64_t v; data_fill ((unsigned char *) &v, 8, c); q->p.user_long = (long) v; }
}
static bool get (const p4est_quadrant_t *q, const Cell &c)
{
  if (X.ds) return data_ok (q->p.user_data, X.ds, c);
  uint64_t v;
  data_fill ((unsigned char *) &v, 8, c);
  return q->p.user_long == (long) v;
}
// did the harness write data to this element?
static bool known (const Rk &r, const Cell &c)
{
  if (X.init || X.replace) return true;
  return std::binary_search (X.L->begin (), X.L->end (), c);
}
static void see (p4est_t *p, Rk &r, const p4est_quadrant_t *q, const Cell &c, const char *who)
{
  if (p->user_pointer != &token) fail ("%s: user pointer", who);
  if (!r.cur.count (c)) fail ("%s: %s is not an element", who, str (c).c_str ());
  if (known (r, c) && !get (q, c)) fail ("%s: data of %s is wrong", who, str (c).c_str ());
}
static void init_cb (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q)
{
  Rk &r = R_[vp::me ()];
  if (p->user_pointer != &token) fail ("init: user pointer");
  Cell c = to_cell (*q, t);
  if (++r.inits[c] > 1) fail ("init callback ran twice for %s", str (c).c_str ());
  put (q, c);
  if (!X.replace) {
    // without replacement callback the creation itself is the event
    if (X.refine) { r.cur.insert (c); if (c.l > 0) r.cur.erase (parent (c)); }
    else { for (int i = 0; i < NC; ++i) r.cur.erase (child (c, i)); r.cur.insert (c); }
  }
}
static void replace_cb (p4est_t *p, p4est_topidx_t t, int no, p4est_quadrant_t *out[], int ni, p4est_quadrant_t *in[])
{
  Rk &r = R_[vp::me ()];
  ++r.nrep;
  if (X.refine ? no != 1 || ni != NC : no != NC || ni != 1) fail ("replace callback: %d outgoing %d incoming", no, ni);
  Cell pc = to_cell (X.refine ? *out[0] : *in[0], t);
  for (int i = 0; i < no; ++i) {
    Cell c = X.refine ? pc : child (pc, i);
    if (to_cell (*out[i], t) != c) fail ("replace callback: outgoing %d of %s is %s", i, str (pc).c_str (), str (to_cell (*out[i], t)).c_str ());
    see (p, r, out[i], c, "replace callback");
    r.cur.erase (c);
  }
  for (int i = 0; i < ni; ++i) {
    Cell c = X.refine ? child (pc, i) : pc;
    if (to_cell (*in[i], t) != c) fail ("replace callback: incoming %d of %s is %s", i, str (pc).c_str (), str (to_cell (*in[i], t)).c_str ());
    if (X.init && (r.inits[c] != 1 || !get (in[i], c))) fail ("replace callback: incoming %s not initialised", str (c).c_str ());
    put (in[i], c);
    r.cur.insert (c);
  }
}
static int refine_cb (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q)
{
  Rk &r = R_[vp::me ()];
  Cell c = to_cell (*q, t);
  if (X.init || X.replace) see (p, r, q, c, "refine callback");
  if (++r.asked[c] > 1) fail ("refine callback ran twice for %s", str (c).c_str ());
  return X.ans (c) ? 7 : 0;
}
static int coarsen_cb (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q[])
{
  Rk &r = R_[vp::me ()];
  Cell c = to_cell (*q[0], t);
  if (q[1] == NULL) {
    if (!X.orphans) fail ("coarsen callback called with an orphan");
    if (X.init || X.replace) see (p, r, q[0], c, "coarsen callback");
    r.orph[c]++;
    return 1;                   // must be ignored
  }
  Cell pc = c.l > 0 ? parent (c) : c;
  for (int i = 0; i < NC; ++i) {
    Cell k = to_cell (*q[i], t);
    if (c.l == 0 || k != child (pc, i)) fail ("coarsen callback: element %d of family is %s", i, str (k).c_str ());
    if (X.init || X.replace) see (p, r, q[i], k, "coarsen callback");
  }
  if (++r.asked[pc] > 1) fail ("coarsen callback ran twice for the family of %s", str (pc).c_str ());
  return X.ans (pc) ? 1 : 0;
}

// reference: apply the answers one by one; also the expected questions
struct Expect { Cells out; std::set<Cell> asked, created; };
static Expect ref_refine (const Cells &in)
{
  Expect e;
  std::function<void(const Cell &, bool)> go = [&](const Cell &c, bool ask) {
    if (ask) {
      e.asked.insert (c);
      if (X.ans (c) && c.l < (X.maxlevel < 0 ? QMAX : X.maxlevel)) {
        for (int i = 0; i < NC; ++i) { e.created.insert (child (c, i)); go (child (c, i), X.recursive); }
        return;
      }
    }
    e.out.push_back (c);
  };
  for (auto &c : in) go (c, true);
  return e;
}
static Expect ref_coarsen (const Cells &in)
{
  Expect e;
  e.out = in;
  for (bool first = true;; first = false) {
    std::set<Cell> todo;
    for (size_t i = 0; i + NC <= e.out.size (); ++i) {
      const Cell &c = e.out[i];
      if (c.l == 0 || child_id (c) != 0) continue;
      Cell pc = parent (c);
      bool fam = true;
      for (int k = 0; k < NC; ++k) fam = fam && e.out[i + k] == child (pc, k);
      if (fam && e.asked.insert (pc).second && X.ans (pc)) todo.insert (pc);
    }
    if (todo.empty ()) return e;
    Cells nx;
    for (auto &c : e.out) {
      if (c.l > 0 && todo.count (parent (c))) { if (child_id (c) == 0) { nx.push_back (parent (c)); e.created.insert (parent (c)); } }
      else nx.push_back (c);
    }
    e.out = nx;
    if (!X.recursive) return e;
  }
}

static void body (HostConn &hc)
{
  rank_begin ();
  int me = vp::me ();
  Rk &r = R_[me];
  Cells in (X.L->begin () + X.g[me], X.L->begin () + X.g[me + 1]);
  r.cur.insert (in.begin (), in.end ());
  p4est_t *p = make_p4est (&hc.c, *X.L, X.g, X.ds, &token);
  for (size_t i = 0; i < in.size (); ++i) put (local_quad (p, (int) i), in[i]);
  p->revision = 3;
  p4est_init_t ini = X.init ? init_cb : NULL;
  p4est_replace_t rep = X.replace ? replace_cb : NULL;
  if (X.refine) {
    if (X.plain) p4est_refine (p, X.recursive, refine_cb, ini);
    else p4est_refine_ext (p, X.recursive, X.maxlevel, refine_cb, ini, rep);
  }
  else {
    if (X.plain) p4est_coarsen (p, X.recursive, coarsen_cb, ini);
    else p4est_coarsen_ext (p, X.recursive, X.orphans, coarsen_cb, ini, rep);
  }
  const char *what = X.refine ? "refine" : "coarsen";
  check_p4est (p, *X.out, X.h, 0, what);
  bool changed = *X.out != *X.L;
  if (p->revision != 3 + changed) fail ("revision 3 -> %ld although the mesh %s", (long) p->revision, changed ? "changed" : "did not change");
  if (p->user_pointer != &token || p->data_size != X.ds || p->connectivity != &hc.c || p->mpicomm != sc_MPI_COMM_WORLD) fail ("fields of the forest changed");
  for (int i = X.h[me]; i < X.h[me + 1]; ++i) if (known (r, (*X.out)[i]) && !get (local_quad (p, i - X.h[me]), (*X.out)[i])) fail ("data of %s lost", str ((*X.out)[i]).c_str ());
  Expect e = X.refine ? ref_refine (in) : ref_coarsen (in);
  std::set<Cell> asked;
  for (auto &k : r.asked) asked.insert (k.first);
  if (asked != e.asked) fail ("%s callback was asked about {%s}, expected {%s}", what, str (Cells (asked.begin (), asked.end ())).c_str (), str (Cells (e.asked.begin (), e.asked.end ())).c_str ());
  if (X.init) {
    std::set<Cell> ini;
    for (auto &k : r.inits) ini.insert (k.first);
    if (ini != e.created) fail ("init callback ran for {%s}, expected {%s}", str (Cells (ini.begin (), ini.end ())).c_str (), str (Cells (e.created.begin (), e.created.end ())).c_str ());
  }
  if (X.replace && r.nrep != (long) (X.refine ? e.created.size () / NC : e.created.size ())) fail ("replace callback ran %ld times for %zu created elements", r.nrep, e.created.size ());
  if (!X.refine && X.orphans) {
    // every element comes first exactly once, unless its family is coarsened
    // (with recursion: at least once)
    for (auto &c : in) {
      bool first = c.l > 0 && child_id (c) == 0 && r.asked.count (parent (c));
      bool gone = c.l > 0 && e.created.count (parent (c));
      int n = (r.orph.count (c) ? r.orph[c] : 0) + (gone ? 1 : first);
      if (n < 1 || (!X.recursive && n != 1)) fail ("element %s came first in the coarsen callback %d times", str (c).c_str (), n);
    }
    if (!X.recursive) for (auto &c : e.created) if (r.orph.count (c)) fail ("new element %s passed as orphan", str (c).c_str ());
  }
  p4est_destroy (p);
  rank_end ();
}
static long rot;
static void one (HostConn &hc, const Cells &L, const std::vector<int> &g, bool refine, bool recursive, int maxlevel, const std::function<bool(const Cell &)> &ans, const char *an)
{
  ++rot;
  if (!E.sub ()) return;
  int P = (int) g.size () - 1;
  X.L = &L; X.g = g; X.refine = refine; X.recursive = recursive; X.maxlevel = maxlevel; X.ans = ans;
  X.orphans = rot / 2 % 2;
  X.replace = rot % 3 != 0;
  X.init = rot % 5 != 0;
  X.ds = rot % 7 < 3 ? 0 : rot % 7 < 5 ? 8 : 13;
  X.plain = !X.replace && maxlevel < 0 && rot % 2 == 0;
  if (X.plain) X.orphans = false;
  Cells out;
  std::vector<int> h {0};
  for (int q = 0; q < P; ++q) {
    Cells in (L.begin () + g[q], L.begin () + g[q + 1]);
    Expect e = refine ? ref_refine (in) : ref_coarsen (in);
    out.insert (out.end (), e.out.begin (), e.out.end ());
    h.push_back ((int) out.size ());
  }
  X.out = &out;
  X.h = h;
  std::string as = an;
  auto x = X;
  E.describe ([=, &hc, &L] { return strf ("%s %s%s maxlevel %d %s cuts %s data %zu%s%s%s leaves {%s}", hc.m->name.c_str (), refine ? "refine" : "coarsen", recursive ? " recursively" : "", maxlevel, as.c_str (), str (g).c_str (), x.ds, x.init ? " init" : "", x.replace ? " replace" : "", x.orphans ? " orphans" : "", str (L).c_str ()); });
  vp::Options op;
  op.leak_mpi = true;
  E.transition (); E.validated ();
  E.run (P, op, [&](int) { body (hc); }, [&] { R_.assign (P, Rk ()); });
}
static std::vector<int> masks (int n, int full, bool th)
{
  std::vector<int> v;
  if (n <= full) { for (int m = 0; m < 1 << n; ++m) v.push_back (m); return v; }
  return v;
}

void enumerate ()
{
  bool th = E.thorough;
  SpaceOpt o;
  o.K1 = D == 2 ? 4 : 3; o.K4 = 2; o.Kn = 1; o.cap = th ? 3000 : D == 2 ? 60 : 40;
  o.twoK = -1; o.touch = false; o.shapes = true;
  o.only = D == 2 ? std::vector<std::string> {"unit", "corner", "pillow", "brick221"} : std::vector<std::string> {"unit", "twocubes"};
  if (th) { o.K1++; o.K4++; }
  spaces (o, [&](HostConn &hc, const Cells &L) {
    rot = 0;
    int n = (int) L.size ();
    std::set<Cell> inner;
    for (auto &c : L) for (int l = 0; l < c.l; ++l) inner.insert (ancestor (c, l));
    Cells in (inner.begin (), inner.end ());
    auto hash = [](const Cell &c, int k) { unsigned char b[8]; data_fill (b, 8, c); return b[k % 8]; };
    parts (n, 1, 3, th ? 60 : D == 2 ? 24 : 12, [&](int P, const std::vector<int> &g) {
      // coarsen: all sets of agreeing families
      if ((int) in.size () <= (th ? 9 : 5)) {
        for (int m = 0; m < 1 << in.size (); ++m) for (int rec = 0; rec < 2; ++rec)
          one (hc, L, g, false, rec, -1, [&](const Cell &c) { auto i = std::lower_bound (in.begin (), in.end (), c) - in.begin (); return (bool) (m >> i & 1); }, strf ("answers %d", m).c_str ());
      }
      else for (int k = 0; k < 8; ++k) for (int rec = 0; rec < 2; ++rec)
        one (hc, L, g, false, rec, -1, [&](const Cell &c) { return k == 0 || (k == 1 ? c.l > 1 : k == 2 ? c.l % 2 : (hash (c, k) & 3)) != 0; }, strf ("pattern %d", k).c_str ());
      // refine: all sets of leaves
      if (n <= (th ? 10 : P == 1 ? 10 : 5)) {
        for (int m = 0; m < 1 << n; ++m)
          one (hc, L, g, true, false, m % 4 == 3 ? m / 4 % 3 + 1 : -1, [&](const Cell &c) { auto i = std::lower_bound (L.begin (), L.end (), c) - L.begin (); return i < n && L[i] == c && (m >> i & 1); }, strf ("answers %d", m).c_str ());
      }
      for (int k = 0; k < 6; ++k) {
        int ml = 0;
        for (auto &c : L) ml = std::max (ml, c.l);
        int mx = std::min (QMAX, ml + (D == 2 ? 2 : 1) - k % 3 / 2);
        for (int rec = 0; rec < 2; ++rec)
          one (hc, L, g, true, rec, ml > 20 ? (k % 2 ? -1 : QMAX) : mx, [&](const Cell &c) { return ml > 20 && !(std::binary_search (L.begin (), L.end (), c) || std::binary_search (L.begin (), L.end (), parent (c))) ? false : k == 0 ? n < 40 || c.l > 5 : (hash (c, k) & 7) < (k == 1 ? 4 : k); }, strf ("pattern %d", k).c_str ());
      }
      // recursive refinement towards each single cell below a leaf
      if (P < 3 || th) for (int i = 0; i < n && i < 12; ++i) {
        Cell t = last_desc (L[i], std::min (QMAX, L[i].l + 3 - (i & 1)));
        if (i & 2) t = first_desc (L[i], std::min (QMAX, L[i].l + 2));
        one (hc, L, g, true, true, -1, [&](const Cell &c) { return contains (c, t) && c != t; }, "towards one cell");
      }
    });
  });
  // many elements per tree, so that the work list is refilled
  auto big = [&](const char *nm, int l) {
    auto m = named (nm);
    HostConn hc (m);
    Cells U = uniform (m->nt, l);
    E.stage ("%s: uniform level %d, single and pairwise changes", nm, l);
    int n = (int) U.size ();
    for (int i = 0; i < n; i += 4) {
      if (!E.take ()) continue;
      E.state ();
      rot = i;
      for (int j = i; j < n; j += std::max (1, n / 24)) for (int P = 1; P <= 2; ++P) {
        std::vector<int> g {0};
        if (P == 2) g.push_back ((i + j) / 2);
        g.push_back (n);
        Cell a = U[i], b = U[j];
        for (int rec = 0; rec < 2; ++rec) {
          one (hc, U, g, true, rec, l + 2 - (rec + j) % 2, [&](const Cell &c) { return contains (a, c) || c == b; }, "two cells");
          one (hc, U, g, false, rec, -1, [&](const Cell &c) { return c.l < l - 1 ? rec : c == parent (a) || c == parent (b) || (j & 1); }, "two families");
          one (hc, U, g, true, rec, -1, [&](const Cell &c) { return c.l <= l && (contains (a, c) || contains (b, c) || (c.l == l && !(c < b))); }, "cell and tail");
        }
      }
    }
  };
  big ("unit", D == 2 ? 3 : 2);
  big (D == 2 ? "corner" : "twocubes", D == 2 ? 3 : 2);
}
