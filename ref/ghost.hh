// Reference ghost layer and the exact comparison with a p4est_ghost_t.
#pragma once
#include "ref/spaces.hh"
#if VP_DIM == 3
#include <p8est_ghost.h>
// defined in the library but missing from this header
extern "C" ssize_t p8est_ghost_contains (p8est_ghost_t * ghost, int which_proc, p4est_topidx_t which_tree, const p8est_quadrant_t * q);
#else
#include <p4est_ghost.h>
#endif
namespace br
{
// part of a cell: r per axis 0 low 1 high 2 all
inline Box sub_box (const Cell &c, const int *r)
{
  Box b = box_of (c);
  for (int d = 0; d < D; ++d) { if (r[d] == 0) b.hi[d] = b.lo[d]; if (r[d] == 1) b.lo[d] = b.hi[d]; }
  return b;
}
inline void face_region (int f, int *r) { r[0] = r[1] = r[2] = 2; r[f / 2] = f & 1; }
inline void edge_region (int e, int *r) { int s[3]; edge_fix (e, s); for (int d = 0; d < 3; ++d) r[d] = s[d] < 0 ? 2 : s[d]; }
// For each rank the sorted global indices of its ghosts (1 layer).
typedef std::vector<std::vector<int>> GhostSets;
inline GhostSets ghost_sets (const Adj &A, const std::vector<int> &g, int k)
{
  auto o = owners (g);
  GhostSets s (g.size () - 1);
  for (size_t i = 0; i < A.size (); ++i) for (auto &n : A[i]) if (n.dim >= k && o[n.j] != o[i]) s[o[i]].push_back (n.j);
  for (auto &v : s) { std::sort (v.begin (), v.end ()); v.erase (std::unique (v.begin (), v.end ()), v.end ()); }
  return s;
}
// add to each rank's ghosts the remote leaves adjacent to local or ghost ones
inline GhostSets ghost_grow (const Adj &A, const std::vector<int> &g, int k, const GhostSets &s)
{
  auto o = owners (g);
  GhostSets r = s;
  for (size_t p = 0; p < s.size (); ++p) {
    for (int i : s[p]) for (auto &n : A[i]) if (n.dim >= k && o[n.j] != (int) p) r[p].push_back (n.j);
    std::sort (r[p].begin (), r[p].end ());
    r[p].erase (std::unique (r[p].begin (), r[p].end ()), r[p].end ());
  }
  return r;
}
// compare; S[p] must be sorted
inline void check_ghost (p4est_ghost_t *gl, int me, const Cells &L, const std::vector<int> &g, const GhostSets &S, int nt, p4est_connect_type_t bt, const char *what)
{
  int P = (int) g.size () - 1;
  auto o = owners (g);
  const auto &gs = S[me];
  if (gl->mpisize != P || gl->num_trees != nt) fail ("%s: mpisize or num_trees", what);
  if (gl->btype != bt) fail ("%s: btype %d", what, (int) gl->btype);
  std::string got;
  for (size_t i = 0; i < gl->ghosts.elem_count; ++i) { p4est_quadrant_t *q = (p4est_quadrant_t *) sc_array_index (&gl->ghosts, i); got += " " + str (to_cell (*q, q->p.piggy3.which_tree)); }
  std::string want;
  for (int i : gs) want += " " + str (L[i]);
  if (got != want) fail ("%s: ghosts are {%s }, expected {%s }", what, got.c_str (), want.c_str ());
  for (size_t i = 0; i < gs.size (); ++i) {
    p4est_quadrant_t *q = (p4est_quadrant_t *) sc_array_index (&gl->ghosts, i);
    if (q->p.piggy3.local_num != gs[i] - g[o[gs[i]]]) fail ("%s: ghost %s local_num %d expected %d", what, str (L[gs[i]]).c_str (), (int) q->p.piggy3.local_num, gs[i] - g[o[gs[i]]]);
  }
  auto offs = [&](const p4est_locidx_t *a, int n, const std::function<int(int)> &key, size_t cnt, const char *nm) {
    if (a[0] != 0 || a[n] != (p4est_locidx_t) cnt) fail ("%s: %s ends %d..%d expected 0..%zu", what, nm, (int) a[0], (int) a[n], cnt);
    for (int k = 0; k < n; ++k) {
      int c = 0;
      for (size_t i = 0; i < cnt; ++i) c += key ((int) i) < k;
      if (a[k] != c) fail ("%s: %s[%d] = %d expected %d", what, nm, k, (int) a[k], c);
    }
  };
  offs (gl->proc_offsets, P, [&](int i) { return o[gs[i]]; }, gs.size (), "proc_offsets");
  offs (gl->tree_offsets, nt, [&](int i) { return L[gs[i]].t; }, gs.size (), "tree_offsets");
  // mirrors
  std::vector<int> mir;
  for (int i = g[me]; i < g[me + 1]; ++i) for (int p = 0; p < P; ++p) if (std::binary_search (S[p].begin (), S[p].end (), i)) { mir.push_back (i); break; }
  if (gl->mirrors.elem_count != mir.size ()) {
    got.clear ();
    for (size_t i = 0; i < gl->mirrors.elem_count; ++i) { p4est_quadrant_t *q = (p4est_quadrant_t *) sc_array_index (&gl->mirrors, i); got += " " + str (to_cell (*q, q->p.piggy3.which_tree)); }
    want.clear ();
    for (int i : mir) want += " " + str (L[i]);
    fail ("%s: mirrors are {%s }, expected {%s }", what, got.c_str (), want.c_str ());
  }
  for (size_t i = 0; i < mir.size (); ++i) {
    p4est_quadrant_t *q = (p4est_quadrant_t *) sc_array_index (&gl->mirrors, i);
    if (!same (*q, L[mir[i]]) || q->p.piggy3.which_tree != L[mir[i]].t || q->p.piggy3.local_num != mir[i] - g[me]) fail ("%s: mirror %zu is %s number %d expected %s number %d", what, i, str (to_cell (*q, q->p.piggy3.which_tree)).c_str (), (int) q->p.piggy3.local_num, str (L[mir[i]]).c_str (), mir[i] - g[me]);
  }
  offs (gl->mirror_tree_offsets, nt, [&](int i) { return L[mir[i]].t; }, mir.size (), "mirror_tree_offsets");
  size_t pos = 0;
  for (int p = 0; p < P; ++p) {
    if (gl->mirror_proc_offsets[p] != (p4est_locidx_t) pos) fail ("%s: mirror_proc_offsets[%d] = %d expected %zu", what, p, (int) gl->mirror_proc_offsets[p], pos);
    for (size_t i = 0; i < mir.size (); ++i) if (p != me && std::binary_search (S[p].begin (), S[p].end (), mir[i])) {
      if (pos >= (size_t) gl->mirror_proc_offsets[P]) fail ("%s: too few mirror_proc_mirrors", what);
      if (gl->mirror_proc_mirrors[pos] != (p4est_locidx_t) i) fail ("%s: mirror_proc_mirrors[%zu] = %d expected %zu (for rank %d)", what, pos, (int) gl->mirror_proc_mirrors[pos], i, p);
      ++pos;
    }
  }
  if (gl->mirror_proc_offsets[P] != (p4est_locidx_t) pos) fail ("%s: mirror_proc_offsets end %d expected %zu", what, (int) gl->mirror_proc_offsets[P], pos);
}
}
