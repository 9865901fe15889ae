// C13 Expanding the ghost layer adds exactly the next layer of neighbors
#include "ref/nodes.hh"
using namespace br;

// expansion by geometric adjacency
static void body (HostConn &hc, const Cells &L, const std::vector<int> &g, const std::vector<GhostSets> &S, p4est_connect_type_t bt)
{
  rank_begin ();
  int me = vp::me ();
  p4est_t *p = make_p4est (&hc.c, L, g, 0, NULL);
  p4est_ghost_t *gl = p4est_ghost_new (p, bt);
  for (size_t k = 1; k < S.size (); ++k) {
    p4est_ghost_expand (p, gl);
    check_ghost (gl, me, L, g, S[k], hc.m->nt, bt, strf ("expansion %zu", k).c_str ());
  }
  // the result works for data exchange
  std::vector<int64_t> mine (g[me + 1] - g[me] + 1), got (gl->ghosts.elem_count + 1, -1);
  std::vector<void *> mp;
  for (size_t i = 0; i < gl->mirrors.elem_count; ++i) {
    p4est_quadrant_t *q = (p4est_quadrant_t *) sc_array_index (&gl->mirrors, i);
    mine[q->p.piggy3.local_num] = g[me] + q->p.piggy3.local_num;
    mp.push_back (&mine[q->p.piggy3.local_num]);
  }
  p4est_ghost_exchange_custom (p, gl, sizeof (int64_t), mp.data (), got.data ());
  const auto &fin = S.back ()[me];
  for (size_t i = 0; i < fin.size (); ++i) if (got[i] != fin[i]) fail ("exchange after expansion: ghost %zu has data of leaf %lld expected %d", i, (long long) got[i], fin[i]);
  if (!p4est_ghost_is_valid (p, gl)) fail ("ghost_is_valid is false after expansion");
  check_p4est (p, L, g, 1, "after expansion");
  p4est_ghost_destroy (gl);
  p4est_destroy (p);
  rank_end ();
}
// expansion by the support of nodes
static void body_nodes (HostConn &hc, const Cells &L, const std::vector<int> &g, const std::vector<GhostSets> &S, int degree, p4est_connect_type_t bt)
{
  rank_begin ();
  int me = vp::me ();
  p4est_t *p = make_p4est (&hc.c, L, g, 0, NULL);
  p4est_ghost_t *gl = p4est_ghost_new (p, full_type ());
  p4est_lnodes_t *ln = p4est_lnodes_new (p, gl, degree);
  if (bt != full_type ()) { p4est_ghost_destroy (gl); gl = p4est_ghost_new (p, bt); }
  p4est_ghost_support_lnodes (p, ln, gl);
  check_ghost (gl, me, L, g, S[0], hc.m->nt, bt, "node support");
  for (size_t k = 1; k < S.size (); ++k) {
    p4est_ghost_expand_by_lnodes (p, ln, gl);
    check_ghost (gl, me, L, g, S[k], hc.m->nt, bt, strf ("node support, expansion %zu", k).c_str ());
  }
  p4est_lnodes_destroy (ln);
  p4est_ghost_destroy (gl);
  check_p4est (p, L, g, 1, "after node support");
  p4est_destroy (p);
  rank_end ();
}
static GhostSets grow_nodes (const NodeRef &N, const std::vector<int> &g, const GhostSets &s, bool local)
{
  auto o = owners (g);
  GhostSets r = s;
  for (size_t p = 0; p < s.size (); ++p) {
    std::set<int> add (s[p].begin (), s[p].end ());
    auto from = [&](int i) { for (int v : N.en[i]) for (int u : N.users[v]) if (o[u] != (int) p) add.insert (u); };
    if (local) for (int i = g[p]; i < g[p + 1]; ++i) from (i);
    else for (int i : s[p]) from (i);
    r[p].assign (add.begin (), add.end ());
  }
  return r;
}

void enumerate ()
{
  bool th = E.thorough;
  for (int nodes = 0; nodes < 2; ++nodes) {
    SpaceOpt o;
    o.chains = !nodes;
    o.bal = nodes ? D - 1 - (D == 3) : -1;
    o.cap = D == 2 ? (nodes ? 40 : 100) : (nodes ? 12 : 40);
    o.K1 = D == 2 ? 4 : 3;
    if (D == 3) o.Lmax = 3;
    o.twocap = D == 2 ? 15 : 6;
    if (th) { o.K1++; o.K4++; o.cap *= 10; o.twoK++; o.twocap *= 10; }
    spaces (o, [&](HostConn &hc, const Cells &L) {
      if (L.size () < 2 || L.size () > 500) return;
      Adj A = adjacency ({hc.m, L});
      Hang H;
      if (nodes) H = hanging (*hc.m, L);
      static const std::vector<int> degs = D == 2 ? std::vector<int> {1, -2, -1, 2} : std::vector<int> {1, -3, -2, -1};
      std::map<int, NodeRef> ref;
      int rot = (int) L.size () + (int) L.back ().l;
      parts (L, 2, 4, th ? 200 : L.size () > 60 ? 6 : 25, [&](int P, const std::vector<int> &g) {
        ++rot;
        for (auto bt : btypes ()) {
          int deg = degs[rot % degs.size ()];
          // the layer to start from matches the contacts that the nodes represent
          if (nodes && bt.second != (deg == -1 ? D - 1 : D == 3 && deg == -2 ? 1 : 0)) continue;
          if (!E.sub ()) continue;
          std::vector<GhostSets> S {ghost_sets (A, g, bt.second)};
          if (nodes) {
            if (!ref.count (deg)) ref[deg] = node_ref (*hc.m, L, H, deg);
            S[0] = grow_nodes (ref[deg], g, S[0], true);
            for (int k = 0; k < 2; ++k) S.push_back (grow_nodes (ref[deg], g, S.back (), false));
          }
          else {
            int K = th ? 40 : rot % 5 == 0 ? 12 : 3;
            for (int k = 0; k < K; ++k) {
              S.push_back (ghost_grow (A, g, bt.second, S.back ()));
              // one more expansion after everything has been reached
              if (S.size () > 2 && S.back () == S[S.size () - 2]) break;
            }
          }
          E.describe ([=, &hc, &L] { return nodes ? strf ("%s node support of degree %d cuts %s leaves {%s}", hc.m->name.c_str (), deg, str (g).c_str (), str (L).c_str ()) : strf ("%s expand %zu times type %d cuts %s leaves {%s}", hc.m->name.c_str (), S.size () - 1, bt.second, str (g).c_str (), str (L).c_str ()); });
          E.transition ((long) S.size ());
          E.validated ();
          vp::Options op;
          op.leak_mpi = true;
          op.sync_send = rot % 2;
          op.choices = rot % 16 == 0;
          E.maxexec = th ? 100 : 12;
          E.run (P, op, [&](int) { if (nodes) body_nodes (hc, L, g, S, deg, bt.first); else body (hc, L, g, S, bt.first); });
        }
      });
    });
  }

#if VP_DIM == 2 && !defined P4EST_ENABLE_DEBUG
  // the one case of the known finding: face nodes on a layer with corners
  E.stage ("expansion by face nodes of a layer that includes corners");
  if (E.take ()) {
    auto m = named ("pillow");
    HostConn hc (m);
    Cells u = uniform (2, 1);
    u = split_at (u, 2);
    u = split_at (u, 0);
    Cells L = u;
    std::vector<int> g {0, 1, 13, 14, 14};
    if (L.size () == 14 && E.sub ()) {
      Hang H = hanging (*m, L);
      NodeRef N = node_ref (*m, L, H, -1);
      Adj A = adjacency ({m, L});
      std::vector<GhostSets> S {grow_nodes (N, g, ghost_sets (A, g, 0), true)};
      for (int k = 0; k < 2; ++k) S.push_back (grow_nodes (N, g, S.back (), false));
      E.describe ([=] { return strf ("pillow face node support of a full ghost layer cuts %s leaves {%s}", str (g).c_str (), str (L).c_str ()); });
      vp::Options op;
      auto r = E.once (4, op, [&](int) { body_nodes (hc, L, g, S, -1, full_type ()); });
      if (r.kind != vp::OK) {
        if (r.kind == vp::DEADLOCK) E.key = "expand-by-face-nodes-full-layer";
        E.bad ("%s", r.why.c_str ());
        E.key.clear ();
      }
    }
  }
#endif
}
