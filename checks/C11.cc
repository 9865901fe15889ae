// C11 The ghost layer contains exactly the remote elements touching local ones
#include "ref/ghost.hh"
using namespace br;

static void body (HostConn &hc, const Cells &L, const std::vector<int> &g, const GhostSets &S, p4est_connect_type_t bt, size_t ds)
{
  rank_begin ();
  int me = vp::me ();
  p4est_t *p = make_p4est (&hc.c, L, g, ds, NULL);
  p4est_ghost_t *gl = p4est_ghost_new (p, bt);
  check_ghost (gl, me, L, g, S, hc.m->nt, bt, "ghost_new");
  if (!p4est_ghost_is_valid (p, gl)) fail ("ghost_is_valid is false");
  check_p4est (p, L, g, 1, "after ghost_new");
  // searches: every leaf and its children, parents and all of the owner and
  // tree restrictions
  auto o = owners (g);
  auto find = [&](const Cell &c, bool exact) -> int {
    for (size_t i = 0; i < S[me].size (); ++i) {
      const Cell &q = L[S[me][i]];
      if (exact ? q == c : contains (q, c)) return (int) i;
    }
    return -1;
  };
  std::set<Cell> qs;
  for (size_t i = 0; i < L.size () && qs.size () < 60; ++i) {
    qs.insert (L[i]);
    if (L[i].l < QMAX) { qs.insert (child (L[i], 0)); qs.insert (child (L[i], NC - 1)); }
    if (L[i].l > 0) qs.insert (parent (L[i]));
    qs.insert (last_desc (L[i], QMAX));
  }
  for (auto &c : qs) {
    p4est_quadrant_t q = to_quad (c);
    for (int ex = 0; ex < 2; ++ex) {
      int w = find (c, ex);
      int ow = w >= 0 ? o[S[me][w]] : -1;
      for (int wp = -1; wp < p->mpisize; ++wp) for (int wt = -1; wt < hc.m->nt; wt += (wt < 0 ? std::max (1, c.t + 1) : hc.m->nt)) {
        // with an owner of -1 a tree restriction or none; the tree is needed
        // unless it is the only one
        if (wt < 0 && (wp < 0 ? hc.m->nt > 1 : true)) {
          if (hc.m->nt > 1) continue;
        }
        int e = (wp < 0 || wp == ow) ? w : -1;
        ssize_t r = ex ? p4est_ghost_bsearch (gl, wp, wt, &q) : p4est_ghost_contains (gl, wp, wt, &q);
        if (r != e) fail ("%s of %s proc %d tree %d returns %zd expected %d", ex ? "ghost_bsearch" : "ghost_contains", str (c).c_str (), wp, wt, r, e);
      }
    }
  }
  p4est_ghost_t *gn = p4est_ghost_new_local (p, bt);
  GhostSets none (S.size ());
  check_ghost (gn, me, L, g, none, hc.m->nt, bt, "ghost_new_local");
  p4est_ghost_destroy (gn);
  p4est_ghost_destroy (gl);
  p4est_destroy (p);
  rank_end ();
}

void enumerate ()
{
  bool th = E.thorough;
  SpaceOpt o;
  o.shapes = D == 3;
  if (th) { o.K1++; o.K4++; o.cap = 6000; o.twoK++; o.twocap = 500; }
  if (D == 3 && !th) { o.K1 = 3; o.cap = 150; }
  spaces (o, [&](HostConn &hc, const Cells &L) {
    Adj A = adjacency ({hc.m, L});
    int rot = 0;
    parts (L, 1, 3, th ? 300 : 60, [&](int P, const std::vector<int> &g) {
      for (auto bt : btypes ()) {
        if (!E.sub ()) continue;
        GhostSets S = ghost_sets (A, g, bt.second);
        size_t ds = rot++ % 2 ? 5 : 0;
        E.describe ([=, &hc, &L] { return strf ("%s ghost type %d cuts %s leaves {%s}", hc.m->name.c_str (), bt.second, str (g).c_str (), str (L).c_str ()); });
        E.transition (3);
        E.validated ();
        vp::Options op;
        op.leak_mpi = true;
        E.run (P, op, [&](int) { body (hc, L, g, S, bt.first, ds); });
      }
    });
  });
}
