// C07 Deep copies and data resets are faithful and independent of the original
#include "ref/spaces.hh"
using namespace br;

static int tok1, tok2;
static const Cells *L;
static std::vector<int> g;
static std::vector<std::vector<Cell>> seq;
static size_t newds;

static void put (p4est_quadrant_t *q, size_t n, const Cell &c)
{
  if (n) data_fill ((unsigned char *) q->p.user_data, n, c);
  else { uint64_t v; data_fill ((unsigned char *) &v, 8, c); q->p.user_long = (long) v; }
}
static bool get (const p4est_quadrant_t *q, size_t n, const Cell &c)
{
  if (n) return data_ok (q->p.user_data, n, c);
  uint64_t v;
  data_fill ((unsigned char *) &v, 8, c);
  return q->p.user_long == (long) v;
}
static void init_reset (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q)
{
  if (p->user_pointer != &tok2) fail ("reset: init callback sees the old user pointer");
  if (p->data_size != newds) fail ("reset: init callback sees data size %zu", p->data_size);
  seq[vp::me ()].push_back (to_cell (*q, t));
  put (q, newds, to_cell (*q, t));
}
static void init_put (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q) { if (p->data_size) put (q, p->data_size, to_cell (*q, t)); }
static int refine_odd (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q) { return to_cell (*q, t).l < QMAX && (child_id (to_cell (*q, t)) % 3 == 0); }
static int coarsen_all (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q[]) { return 1; }
static void data_is (p4est_t *p, size_t ds, const char *what)
{
  int me = vp::me ();
  for (int i = g[me]; i < g[me + 1]; ++i) if (!get (local_quad (p, i - g[me]), ds, (*L)[i])) fail ("%s: data of %s differs", what, str ((*L)[i]).c_str ());
}
// use a forest heavily; its own consistency is checked by the code under test
static void use (p4est_t *p)
{
  p4est_refine (p, 0, refine_odd, init_put);
  p4est_partition (p, 0, NULL);
  p4est_coarsen (p, 0, coarsen_all, init_put);
  if (!p4est_is_valid (p)) fail ("forest is invalid after refine, partition and coarsen");
  Cells now = leaves_of (p);
  for (size_t i = 0; p->data_size && i < now.size (); ++i) if (!get (local_quad (p, (int) i), p->data_size, now[i])) fail ("data after refine, partition and coarsen");
}
static void same_state (p4est_t *p, const HostConn &hc, size_t ds, const char *what)
{
  check_p4est (p, *L, g, 0, what);
  if (p->data_size != ds) fail ("%s: data_size %zu expected %zu", what, p->data_size, ds);
  if (p->connectivity != &hc.c) fail ("%s: connectivity", what);
}
static void body (HostConn &hc, size_t ds, int kind, int dup, int cpdata)
{
  rank_begin ();
  int me = vp::me ();
  p4est_t *p = make_p4est (&hc.c, *L, g, ds, &tok1);
  for (int i = g[me]; i < g[me + 1]; ++i) put (local_quad (p, i - g[me]), ds, (*L)[i]);
  p->revision = 12;
  p4est_inspect_t ins;
  memset (&ins, 0, sizeof ins);
  p->inspect = &ins;
  if (kind <= 2) {
    p4est_t *c = dup < 0 ? p4est_copy (p, cpdata) : p4est_copy_ext (p, cpdata, dup);
    size_t cds = cpdata ? ds : 0;
    if (c->revision != 0) fail ("copy: revision %ld", (long) c->revision);
    if (c->inspect != NULL) fail ("copy: inspect is not NULL");
    if (c->user_pointer != &tok1) fail ("copy: user pointer");
    p->inspect = NULL;
    same_state (c, hc, cds, "copy");
    if (cpdata || ds == 0) data_is (c, cds, "copy");
    int rz;
    sc_MPI_Comm_compare (c->mpicomm, p->mpicomm, &rz);
    if (dup > 0 ? rz != sc_MPI_CONGRUENT : c->mpicomm != p->mpicomm) fail ("copy: communicator (compare gives %d)", rz);
    if (!p4est_is_equal (p, c, 0) || !p4est_is_equal (c, p, 0)) fail ("copy is reported as different");
    if (p4est_is_equal (p, c, 1) != (cds == ds)) fail ("comparison with data returns %d", p4est_is_equal (p, c, 1));
    same_state (p, hc, ds, "original after copy");
    data_is (p, ds, "original after copy");
    if (p->revision != 12 || p->user_pointer != &tok1) fail ("original changed by copy");
    // change one, the other stays
    if (kind == 0) {
      use (p);
      same_state (c, hc, cds, "copy after changing the original");
      if (cpdata || ds == 0) data_is (c, cds, "copy after changing the original");
      p4est_destroy (p);
      same_state (c, hc, cds, "copy after destroying the original");
      if (cpdata || ds == 0) data_is (c, cds, "copy after destroying the original");
      use (c);
      p4est_destroy (c);
    }
    else {
      use (c);
      same_state (p, hc, ds, "original after changing the copy");
      data_is (p, ds, "original after changing the copy");
      p4est_destroy (c);
      same_state (p, hc, ds, "original after destroying the copy");
      data_is (p, ds, "original after destroying the copy");
      use (p);
      p4est_destroy (p);
    }
  }
  else if (kind == 3) {
    p->inspect = NULL;
    size_t n = newds;
    p4est_reset_data (p, n, cpdata ? init_reset : NULL, &tok2);
    same_state (p, hc, n, "reset");
    if (p->user_pointer != &tok2) fail ("reset: user pointer");
    if (p->revision != 12) fail ("reset: revision changed");
    if (cpdata) {
      if (seq[me] != Cells (L->begin () + g[me], L->begin () + g[me + 1])) fail ("reset: init callback ran for {%s}", str (seq[me]).c_str ());
      data_is (p, n, "reset");
    }
    else if (n) for (int i = g[me]; i < g[me + 1]; ++i) put (local_quad (p, i - g[me]), n, (*L)[i]);
    // without callback data of the same size may be disregarded, but is there
    if (cpdata || n) data_is (p, n, "reset");
    use (p);
    p4est_destroy (p);
  }
  rank_end ();
}
// forests a and b compared on every rank
static void body_eq (HostConn &ha, const Cells &A, const std::vector<int> &ga, HostConn &hb, const Cells &B, const std::vector<int> &gb, int diffdata)
{
  rank_begin ();
  int me = vp::me ();
  size_t ds = 6;
  p4est_t *a = make_p4est (&ha.c, A, ga, ds, NULL), *b = make_p4est (&hb.c, B, gb, ds, &tok2);
  bool data = true;
  if (diffdata >= gb[me] && diffdata < gb[me + 1]) {
    ((unsigned char *) local_quad (b, diffdata - gb[me])->p.user_data)[diffdata % ds] ^= 1;
    data = false;
  }
  // local comparison: equal iff nothing a rank knows differs
  bool eq = ga == gb && A.size () == B.size () && conn_equal (*ha.m, *hb.m);
  for (int i = ga[me]; eq && i < ga[me + 1]; ++i) eq = A[i] == B[i];
  for (size_t r = 0; eq && r < ga.size (); ++r) { int i = ga[r]; if (i < (int) A.size () && (A[i].t != B[i].t || zcmp_pt (A[i].x, B[i].x))) eq = false; }
  int r = p4est_is_equal (a, b, 0);
  if (!!r != eq) fail ("p4est_is_equal returns %d for %s forests", r, eq ? "equal" : "different");
  r = p4est_is_equal (a, b, 1);
  if (!!r != (eq && data)) fail ("p4est_is_equal with data returns %d for %s forests", r, eq && data ? "equal" : "different");
  p4est_destroy (a);
  p4est_destroy (b);
  rank_end ();
}
// equality does not depend on how a forest came about
static Cells target_;
static int ref_to (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q)
{
  Cell c = to_cell (*q, t);
  for (auto &l : target_) if (contains (c, l) && c != l) return 1;
  return 0;
}
static void body_hist (HostConn &hc)
{
  rank_begin ();
  p4est_t *a = make_p4est (&hc.c, *L, g, 6, NULL);
  p4est_t *b = p4est_new (sc_MPI_COMM_WORLD, &hc.c, 6, init_put, NULL);
  p4est_refine (b, 1, ref_to, init_put);
  std::vector<p4est_locidx_t> cnt;
  for (size_t i = 0; i + 1 < g.size (); ++i) cnt.push_back (g[i + 1] - g[i]);
  p4est_partition_given (b, cnt.data ());
  if (!p4est_is_equal (a, b, 1) || !p4est_is_equal (b, a, 1)) fail ("equal forest made by new, refine and partition is reported as different");
  p4est_partition (a, 0, NULL);
  p4est_partition (b, 0, NULL);
  if (!p4est_is_equal (a, b, 1)) fail ("equal forest made by new, refine and two partitions is reported as different");
  p4est_destroy (a);
  p4est_destroy (b);
  rank_end ();
}

void enumerate ()
{
  bool th = E.thorough;
  SpaceOpt o;
  o.K1 = D == 2 ? 3 : 2; o.K4 = 2; o.Kn = 1; o.cap = th ? 600 : 30;
  o.twoK = -1; o.touch = true; o.shapes = false;
  const size_t sizes[] = {0, 1, 8, 13, 200};
  spaces (o, [&](HostConn &hc, const Cells &F) {
    int rot = 0;
    vp::Options op;
    op.leak_mpi = true;
    auto go = [&](int P, const std::vector<int> &gg, size_t ds, int kind, int dup, int cp, size_t nd) {
      if (!E.sub ()) return;
      L = &F; g = gg; newds = nd;
      E.describe ([=, &hc, &F] { return strf ("%s %s data %zu -> %zu dup %d copy/init %d cuts %s leaves {%s}", hc.m->name.c_str (), kind == 0 ? "copy, change original" : kind == 1 ? "copy, change copy" : "reset", ds, nd, dup, cp, str (gg).c_str (), str (F).c_str ()); });
      E.transition (); E.validated ();
      E.run (P, op, [&](int) { body (hc, ds, kind, dup, cp); }, [&] { seq.assign (P, {}); });
    };
    parts ((int) F.size (), 1, 3, th ? 60 : 10, [&](int P, const std::vector<int> &gg) {
      ++rot;
      for (int k = 0; k < 2; ++k) for (int cp = 0; cp < 2; ++cp) for (int dup = -1; dup < 2; ++dup) if (th || (dup + 1 + rot) % 3 == 0 || rot < 4)
        go (P, gg, sizes[(rot + 2 * cp + dup + 1) % 5], k, dup, cp, 0);
      for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) if (th || rot < 3 || (a + b + rot) % 5 == 0) go (P, gg, sizes[a], 3, 0, rot % 4 != 3, sizes[b]);
      if (E.sub ()) {
        L = &F; g = gg; target_ = F;
        E.describe ([=, &hc, &F] { return strf ("%s history cuts %s leaves {%s}", hc.m->name.c_str (), str (gg).c_str (), str (F).c_str ()); });
        E.transition (4); E.validated ();
        E.run (P, op, [&](int) { body_hist (hc); });
      }
    });
  });
  // comparison of all pairs of forests
  std::vector<std::shared_ptr<Conn>> cs;
  for (auto nm : {"unit", "periodic", "rotwrap"}) cs.push_back (named (nm));
  if (D == 3) cs.push_back (named ("twowrap"));
  std::vector<std::shared_ptr<HostConn>> hs;
  for (auto &c : cs) hs.push_back (std::make_shared<HostConn> (c));
  E.stage ("comparison of all pairs of forests with <= %d refinements on 1-2 ranks, with single data differences, equal or different coarse meshes", D == 2 ? 3 : 2);
  auto fs = reachable (uniform (1, 0), D == 2 ? 3 : 2, 4, D == 2 ? 26 : 10);
  for (size_t i = 0; i < fs.size (); ++i) for (size_t j = 0; j < fs.size (); ++j) {
    if (!E.take ()) continue;
    E.state ();
    for (int P = 1; P <= 2; ++P) parts ((int) fs[i].size (), P, P, 12, [&](int, const std::vector<int> &ga) {
      parts ((int) fs[j].size (), P, P, 12, [&](int, const std::vector<int> &gb) {
        int n = (int) fs[j].size ();
        for (int dd = -1; dd < (i == j && ga == gb ? n : 0); ++dd) {
          if (!E.sub ()) continue;
          size_t k = (i + j + 1 + dd) % hs.size ();
          if (hs[k]->m->nt != 1) k = 0;
          size_t k2 = i == j && dd == -1 ? (k + 1) % hs.size () : k;
          if (hs[k2]->m->nt != 1) k2 = 1;
          E.describe ([=] { return strf ("compare %s {%s} %s with %s {%s} %s data difference at %d", hs[k]->m->name.c_str (), str (fs[i]).c_str (), str (ga).c_str (), hs[k2]->m->name.c_str (), str (fs[j]).c_str (), str (gb).c_str (), dd); });
          E.transition (2); E.validated ();
          vp::Options op;
          E.run (P, op, [&](int) { body_eq (*hs[k], fs[i], ga, *hs[k2], fs[j], gb, dd); });
          if (k2 != k) E.run (P, op, [&](int) { body_eq (*hs[k], fs[i], ga, *hs[k], fs[j], gb, dd); });
        }
      });
    });
  }
}
