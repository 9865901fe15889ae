// Reference target partitions.
#pragma once
#include "ref/spaces.hh"
namespace br
{
// ---- reference
inline std::vector<int> equal_cuts (int n, int P)
{
  std::vector<int> g (P + 1);
  for (int i = 0; i <= P; ++i) g[i] = (int) ((long long) n * i / P);
  return g;
}
inline std::vector<int> weighted_cuts (const std::vector<int> &w, int P, const std::vector<int> &old)
{
  int n = (int) w.size ();
  std::vector<__int128> W (n + 1, 0);
  for (int i = 0; i < n; ++i) W[i + 1] = W[i] + w[i];
  if (W[n] == 0) return old;
  std::vector<int> g (P + 1, 0);
  for (int i = 1; i < P; ++i) {
    __int128 cut = W[n] * i / P;
    int k = 0;
    while (W[k] < cut) ++k;
    g[i] = k;
  }
  g[P] = n;
  return g;
}
inline std::vector<int> for_coarsening (const Cells &L, const std::vector<int> &g)
{
  int P = (int) g.size () - 1;
  std::vector<int> ne;
  for (int p = 0; p < P; ++p) if (g[p] < g[p + 1]) ne.push_back (p);
  std::vector<int> nb (P + 1, -1);      // corrected first element per nonempty process
  for (size_t k = 1; k < ne.size (); ++k) {
    int b = g[ne[k]];
    nb[ne[k]] = b;
    if (L[b].l == 0) continue;
    int id = child_id (L[b]);
    if (id == 0) continue;
    int lo = b - id;
    bool fam = lo >= 0 && lo + NC <= (int) L.size ();
    for (int i = 0; fam && i < NC; ++i) fam = L[lo + i] == child (parent (L[b]), i);
    if (!fam) continue;
    int win = -1, most = 0;
    for (int p = 0; p < P; ++p) {
      int c = std::min (g[p + 1], lo + NC) - std::max (g[p], lo);
      if (c > most) { most = c; win = p; }
    }
    nb[ne[k]] = win >= ne[k] ? lo : lo + NC;
  }
  std::vector<int> r (P + 1, 0);
  int cur = (int) L.size ();
  for (int p = P; p >= 0; --p) {
    if (nb[p] >= 0) cur = nb[p];
    else if (p <= ne[0]) cur = 0;
    r[p] = p == P ? (int) L.size () : cur;
  }
  return r;
}
}
