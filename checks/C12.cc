// C12 Ghost data exchange delivers each owner's data to every ghost copy
#include "ref/ghost.hh"
using namespace br;

struct Ex { int kind; size_t n; int lo, hi; bool split; };      // kind 0 data, 1 custom, 2 levels
static void payload (unsigned char *b, size_t n, int e, const Cell &c)
{
  Cell d = c;
  d.x[0] += 7 * e + 1;
  data_fill (b, n, d);
}
struct Run
{
  Ex e;
  int id;
  std::vector<unsigned char> buf, store;
  std::vector<void *> ptr;
  p4est_ghost_exchange_t *x = nullptr;
  size_t n = 0;
};
static const unsigned char PAT = 0xC3;

static void body (HostConn &hc, const Cells &L, const std::vector<int> &g, const GhostSets &S, p4est_connect_type_t bt, size_t ds, const std::vector<Ex> &es, int order, int expand)
{
  rank_begin ();
  int me = vp::me ();
  p4est_t *p = make_p4est (&hc.c, L, g, ds, NULL);
  p4est_ghost_t *gl = p4est_ghost_new (p, bt);
  if (expand) p4est_ghost_expand (p, gl);
  const auto &gs = S[me];
  if (gl->ghosts.elem_count != gs.size ()) fail ("number of ghosts");
  std::vector<int> mir;
  for (size_t i = 0; i < gl->mirrors.elem_count; ++i) mir.push_back (g[me] + ((p4est_quadrant_t *) sc_array_index (&gl->mirrors, i))->p.piggy3.local_num);
  std::vector<Run> rs (es.size ());
  auto expect_all = [&](Run &r, const char *when) {
    for (size_t i = 0; i < gs.size (); ++i) {
      const Cell &c = L[gs[i]];
      std::vector<unsigned char> w (r.n, PAT);
      bool in = r.e.kind != 2 || (std::max (r.e.lo, 0) <= c.l && c.l <= r.e.hi);
      if (in) payload (w.data (), r.n, r.e.kind == 0 ? 1000 : r.id, c);
      if (memcmp (w.data (), r.buf.data () + i * r.n, r.n)) fail ("%s: ghost %s holds wrong data (exchange %d kind %d size %zu levels %d..%d, %s)", when, str (c).c_str (), r.id, r.e.kind, r.n, r.e.lo, r.e.hi, in ? "in range" : "out of range");
    }
    for (size_t i = gs.size () * r.n; i < r.buf.size (); ++i) if (r.buf[i] != PAT) fail ("%s: data written behind the end", when);
  };
  auto fill_quads = [&](int e) {
    for (int i = g[me]; i < g[me + 1]; ++i) {
      p4est_quadrant_t *q = local_quad (p, i - g[me]);
      if (ds) payload ((unsigned char *) q->p.user_data, ds, e, L[i]);
      else payload ((unsigned char *) &q->p.user_data, sizeof (void *), e, L[i]);
    }
  };
  auto begin = [&](int k) {
    Run &r = rs[k];
    r.e = es[k];
    r.id = k + 1;
    r.n = r.e.kind == 0 ? (ds ? ds : sizeof (void *)) : r.e.n;
    r.buf.assign (gs.size () * r.n + 16, PAT);
    r.store.assign (mir.size () * r.n + 1, 0);
    r.ptr.clear ();
    if (r.e.kind == 0) fill_quads (1000);
    else for (size_t i = 0; i < mir.size (); ++i) {
      const Cell &c = L[mir[i]];
      bool in = r.e.kind != 2 || (std::max (r.e.lo, 0) <= c.l && c.l <= r.e.hi);
      payload (r.store.data () + i * r.n, r.n, r.id, c);
      r.ptr.push_back (in ? r.store.data () + i * r.n : (void *) 16);
    }
    void *gd = r.buf.data ();
    if (r.e.kind == 0) { if (r.e.split) r.x = p4est_ghost_exchange_data_begin (p, gl, gd); else p4est_ghost_exchange_data (p, gl, gd); }
    else if (r.e.kind == 1) { if (r.e.split) r.x = p4est_ghost_exchange_custom_begin (p, gl, r.n, r.ptr.data (), gd); else p4est_ghost_exchange_custom (p, gl, r.n, r.ptr.data (), gd); }
    else { if (r.e.split) r.x = p4est_ghost_exchange_custom_levels_begin (p, gl, r.e.lo, r.e.hi, r.n, r.ptr.data (), gd); else p4est_ghost_exchange_custom_levels (p, gl, r.e.lo, r.e.hi, r.n, r.ptr.data (), gd); }
    if (r.e.split) {
      if (!r.x) fail ("begin returns NULL");
      // the supplied data may be reused now
      std::fill (r.store.begin (), r.store.end (), 0x77);
      std::fill (r.ptr.begin (), r.ptr.end (), (void *) 8);
      if (r.e.kind == 0) fill_quads (2000);
    }
    else expect_all (r, "exchange");
  };
  auto end = [&](int k) {
    Run &r = rs[k];
    if (!r.e.split) return;
    if (r.e.kind == 0) p4est_ghost_exchange_data_end (r.x);
    else if (r.e.kind == 1) p4est_ghost_exchange_custom_end (r.x);
    else p4est_ghost_exchange_custom_levels_end (r.x);
    expect_all (r, "split exchange");
  };
  int n = (int) es.size ();
  if (order == 0) for (int k = 0; k < n; ++k) { begin (k); end (k); }
  else {
    for (int k = 0; k < n; ++k) begin (k);
    if (order == 1) for (int k = 0; k < n; ++k) end (k);
    else for (int k = n - 1; k >= 0; --k) end (k);
  }
  for (auto &r : rs) expect_all (r, "at the end");
  check_p4est (p, L, g, 0, "after exchange");
  p4est_ghost_destroy (gl);
  p4est_destroy (p);
  rank_end ();
}

void enumerate ()
{
  bool th = E.thorough;
  SpaceOpt o;
  o.K1 = 3; o.K4 = 2; o.Kn = 1; o.cap = th ? 400 : D == 2 ? 40 : 20;
  o.twoK = 1; o.twocap = 3; o.touch = true;
  if (!th) o.only = D == 2 ? std::vector<std::string> {"unit", "periodic", "corner", "moebius", "star", "bowtie", "brick321p"} : std::vector<std::string> {"unit", "periodic", "twocubes", "rotwrap", "brick321p"};
  static const size_t sz[] = {0, 1, 8, 13, 4};
  spaces (o, [&](HostConn &hc, const Cells &L) {
    Adj A = adjacency ({hc.m, L});
    int ml = 0;
    for (auto &c : L) ml = std::max (ml, c.l);
    int rot = (int) L.size ();
    std::vector<std::pair<int, int>> ranges;
    if (ml <= 5) for (int a = -1; a <= ml + 1; ++a) for (int b = -1; b <= ml + 1; ++b) ranges.push_back ({a, b});
    else { int Q = QMAX; ranges = {{0, Q}, {0, 3}, {2, Q - 1}, {5, Q}, {Q, Q}, {Q - 1, Q - 1}, {7, 7}}; }
    ranges.push_back ({0, QMAX}); ranges.push_back ({-3, QMAX + 2}); ranges.push_back ({1, QMAX}); ranges.push_back ({0, QMAX - 1});
    parts (L, 1, 3, th ? 60 : 14, [&](int P, const std::vector<int> &g) {
      auto types = btypes ();
      auto bt = types[rot % types.size ()];
      GhostSets S1 = ghost_sets (A, g, bt.second), S2 = ghost_grow (A, g, bt.second, S1);
      // all level ranges in groups of three, each with a random other exchange
      for (size_t i = 0; i < ranges.size (); i += 3) {
        ++rot;
        if (!E.sub ()) continue;
        std::vector<Ex> es;
        for (size_t k = i; k < std::min (i + 3, ranges.size ()); ++k) es.push_back ({2, sz[(rot + k) % 5], ranges[k].first, ranges[k].second, (rot + k) % 4 != 0});
        es.insert (es.begin () + rot % 2, {0, 0, 0, 0, rot % 5 != 0});
        es.push_back ({1, sz[rot % 5], 0, 0, rot % 3 != 0});
        int order = rot % 3, exp = rot % 7 == 0;
        size_t ds = sz[(rot / 2) % 5];
        vp::Options op;
        op.leak_mpi = true;
        op.sync_send = rot % 2;
        op.choices = P > 1 && rot % (th ? 4 : 9) == 0;
        E.maxexec = th ? 400 : 60;
        std::string d;
        for (auto &e : es) d += strf (" %s%s size %zu levels %d..%d;", e.kind == 0 ? "data" : e.kind == 1 ? "custom" : "levels", e.split ? " split" : "", e.n, e.lo, e.hi);
        E.describe ([=, &hc, &L] { return strf ("%s ghost type %d cuts %s data %zu order %d expand %d%s leaves {%s}", hc.m->name.c_str (), bt.second, str (g).c_str (), ds, order, exp, d.c_str (), str (L).c_str ()); });
        E.transition ((long) es.size ());
        E.validated ();
        E.run (P, op, [&](int) { body (hc, L, g, exp ? S2 : S1, bt.first, ds, es, order, exp); });
      }
    });
  });
}
