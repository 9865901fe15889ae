// C05 Forest creation yields the documented mesh and partition
#include "ref/spaces.hh"
#include <cmath>
using namespace br;

static int token;
static std::vector<std::map<Cell, int>> inits;
static std::vector<Cells> order;
static Cells L;
static std::vector<int> g;
static size_t ds;

static void init_cb (p4est_t *p, p4est_topidx_t t, p4est_quadrant_t *q)
{
  int me = vp::me ();
  if (p->user_pointer != &token) fail ("init: user pointer not set");
  if (p->data_size != ds || p->mpirank != me) fail ("init: data_size or mpirank not set");
  Cell c = to_cell (*q, t);
  if (++inits[me][c] > 1) fail ("init callback ran twice for %s", str (c).c_str ());
  if (ds) data_fill ((unsigned char *) q->p.user_data, ds, c);
  else q->p.user_long = 4711 + c.l;
}
// coarsest cells that fill the uniform positions [a,b) of one tree at level l
static void cover (int t, int l, long a, long b, Cells &out)
{
  std::function<void(const Cell &, long, long)> go = [&](const Cell &c, long lo, long n) {
    if (lo >= b || lo + n <= a) return;
    if (lo >= a && lo + n <= b) { out.push_back (c); return; }
    for (int i = 0; i < NC; ++i) go (child (c, i), lo + i * (n / NC), n / NC);
  };
  long n = 1;
  for (int i = 0; i < l; ++i) n *= NC;
  go (root (t), 0, n);
}
// kind 0: p4est_new, 1: p4est_new_ext
static void expect (const Conn &m, int P, long minq, int minl, int fill)
{
  long nt = m.nt, per = 1;
  int l = 0;
  while (per * nt < P * minq) { per *= NC; ++l; }
  while (l < minl) { per *= NC; ++l; }
  long N = per * nt;
  L.clear ();
  g.assign (1, 0);
  for (int p = 0; p < P; ++p) {
    long lo = (long) ((__int128) N * p / P), hi = (long) ((__int128) N * (p + 1) / P);
    while (lo < hi) {
      long t = lo / per, a = lo % per, b = std::min (hi - t * per, per);    // [a,b) of tree t
      if (fill) { for (long i = a; i < b; ++i) cover ((int) t, l, i, i + 1, L); }
      else {
        // first element and the last one of a tree are of the uniform level
        cover ((int) t, l, a, a + 1, L);
        if (b == per) { cover ((int) t, l, a + 1, per - 1, L); if (a < per - 1) cover ((int) t, l, per - 1, per, L); }
        else cover ((int) t, l, a + 1, b, L);
      }
      lo = t * per + b;
    }
    g.push_back ((int) L.size ());
  }
}
static void body (HostConn &hc, long minq, int minl, int fill, bool cb, bool plain)
{
  rank_begin ();
  int me = vp::me ();
  p4est_t *p = plain ? p4est_new (sc_MPI_COMM_WORLD, &hc.c, ds, cb ? init_cb : NULL, &token)
    : p4est_new_ext (sc_MPI_COMM_WORLD, &hc.c, (p4est_locidx_t) minq, minl, fill, ds, cb ? init_cb : NULL, &token);
  check_p4est (p, L, g, cb && ds ? 1 : 0, "new");
  if (p->revision != 0 || p4est_revision (p) != 0) fail ("revision is %ld", (long) p->revision);
  if (p->user_pointer != &token || p->data_size != ds || p->connectivity != &hc.c || p->inspect != NULL) fail ("fields of the forest");
  if (p->mpicomm != sc_MPI_COMM_WORLD) fail ("communicator");
  if (cb) {
    if ((int) inits[me].size () != g[me + 1] - g[me]) fail ("init callback ran for %zu of %d elements", inits[me].size (), g[me + 1] - g[me]);
    for (int i = g[me]; i < g[me + 1]; ++i) {
      if (!inits[me].count (L[i])) fail ("init callback did not run for %s", str (L[i]).c_str ());
      if (!ds && local_quad (p, i - g[me])->p.user_long != 4711 + L[i].l) fail ("value written by the init callback is lost");
    }
  }
  if (!p4est_is_valid (p)) fail ("p4est_is_valid is false");
  p4est_destroy (p);
  rank_end ();
}

void enumerate ()
{
  bool th = E.thorough;
  int rot = 0;
  auto one = [&](HostConn &hc, int P, long minq, int minl, int fill, bool plain) {
    ++rot;
    if (!E.sub ()) return;
    int r = rot;
    ds = r % 4 == 0 ? 0 : r % 4 == 1 ? 1 : r % 4 == 2 ? 24 : 100;
    bool cb = r % 5 != 0;
    expect (*hc.m, P, minq, minl, fill);
    E.describe ([=, &hc] { return strf ("%s P=%d min_quadrants %ld min_level %d uniform %d data %zu init %d plain %d", hc.m->name.c_str (), P, minq, minl, fill, ds, cb, plain); });
    vp::Options op;
    op.leak_mpi = true;
    E.state (); E.transition (); E.validated ();
    E.run (P, op, [&](int) { body (hc, minq, minl, fill, cb, plain); }, [&] { inits.assign (P, {}); });
  };
  auto names = conn_names ();
  for (auto nm : names) {
    auto m = named (nm);
    E.stage ("%s: process counts 1..%d x minimum levels x minimum elements x modes", nm.c_str (), th ? 17 : 9);
    if (!m) { if (E.take ()) E.bad ("cannot create mesh"); continue; }
    HostConn hc (m);
    for (int P = 1; P <= (th ? 17 : 9); ++P) {
      if (!E.take ()) continue;
      rot = P;
      one (hc, P, 0, 0, 1, true);
      for (int fill = 0; fill < 2; ++fill) for (int minl = -1; minl <= (D == 2 ? 4 : 3); ++minl) for (long minq : {-1L, 0L, 1L, 2L, 3L, 4L, 5L, 8L, 9L, 15L, 16L, 17L, 31L, 64L, 65L}) {
        double est = m->nt * pow ((double) NC, std::max (minl, 0));
        if (fill && !th && est > (D == 2 ? 1000 : 1100)) continue;
        if (minq > 17 && (m->nt > 4 || P > 5) && !th) continue;
        one (hc, P, minq, minl, fill, false);
      }
    }
  }
  // deep initial levels in the coarse mode
  for (auto nm : {"unit", D == 2 ? "pillow" : "twocubes"}) {
    auto m = named (nm);
    HostConn hc (m);
    int top = D == 2 ? 15 : 10;
    E.stage ("%s: coarse mode with minimum levels to %d on 1..%d processes", nm, top, th ? 64 : 24);
    for (int P = 1; P <= (th ? 64 : 24); ++P) {
      if (!E.take ()) continue;
      for (int l = 5; l + (m->nt > 1) <= top; ++l) one (hc, P, 0, l, 0, false);
      for (long q : {100L, 1000L, 12345L, 65536L}) one (hc, P, q, 0, 0, false);
    }
  }
}
