// Mesh files: ABAQUS subset and tetgen.
#include <fcntl.h>
#include <unistd.h>
static void spit (const std::string &f, const std::string &s)
{
  FILE *o = fopen (f.c_str (), "wb");
  if (!o || fwrite (s.data (), 1, s.size (), o) != s.size () || fclose (o)) fail ("harness cannot write %s", f.c_str ());
}
static int nfds ()                      // the lowest number that is free
{
  int d = open ("/dev/null", O_RDONLY);
  if (d >= 0) close (d);
  return d;
}
enum Verdict { GOOD, BAD, ANY, MULTI };
// --------------------------------------------------------------- ABAQUS
struct Inp { Verdict v = BAD; CP m; };
static const char *skip (const char *p) { while (*p && isspace ((unsigned char) *p)) ++p; return p; }
static bool get_int (const char *&p, long long &x) { char *e; const char *q = skip (p); x = strtoll (q, &e, 10); if (e == q) return false; p = e; return true; }
static bool get_dbl (const char *&p, double &x) { char *e; const char *q = skip (p); x = strtod (q, &e); if (e == q) return false; p = e; return true; }
static Inp parse_inp (const std::string &text)
{
  Inp r;
  std::vector<std::string> nodes, elems;
  int st = 0;
  size_t at = 0;
  while (at < text.size ()) {
    size_t e = text.find ('\n', at);
    std::string l = text.substr (at, e == std::string::npos ? e : e - at);
    at = e == std::string::npos ? text.size () : e + 1;
    for (auto &c : l) c = (char) toupper (c);
    if (l[0] == '*') {
      st = 0;
      if (l.find ("*NODE") != std::string::npos) st = 1;
      else if (l.find ("*ELEMENT") != std::string::npos)
        for (const char *t : {D == 3 ? "TYPE=C3D8" : "TYPE=C2D4", D == 3 ? "TYPE=C3D8" : "TYPE=CPS4", D == 3 ? "TYPE=C3D8" : "TYPE=S4"}) if (l.find (t) != std::string::npos) st = 2;
      continue;
    }
    if (st == 1) nodes.push_back (l);
    if (st == 2) elems.push_back (l);
  }
  if (nodes.empty () || elems.empty ()) return r;
  CP m = isolated ((int) elems.size ());
  size_t N = nodes.size ();
  std::vector<char> seen (N, 0);
  m->verts.resize (3 * N);
  for (auto &l : nodes) {
    const char *p = l.c_str ();
    long long id;
    double x[3];
    if (!get_int (p, id)) return r;
    for (int d = 0; d < 3; ++d) { if (*p != ',') return r; ++p; if (!get_dbl (p, x[d])) return r; }
    if (id < 1 || id > (long long) N || seen[(size_t) id - 1]) return r;
    seen[(size_t) id - 1] = 1;
    for (int d = 0; d < 3; ++d) m->verts[3 * (size_t) (id - 1) + d] = x[d];
  }
  for (auto &l : elems) {
    const char *p = l.c_str ();
    long long id, v[8];
    if (!get_int (p, id)) return r;
    for (int k = 0; k < NC; ++k) { if (*p != ',') return r; ++p; if (!get_int (p, v[k])) return r; if (v[k] < 1 || v[k] > (long long) N) return r; }
    for (int k = 0; k < NC; ++k) { int q = k & 2 ? k ^ 1 : k; m->ttv.push_back ((int) v[q] - 1); }
  }
  Conn want;
  Kind k = from_vertices (*m, want);
  r.m = m;
  r.v = k == FINE ? GOOD : k == MANY ? MULTI : ANY;
  return r;
}
static std::string show (const std::string &s) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else r += c; } return r.size () > 1500 ? r.substr (0, 1500) + "..." : r; }
static void attempt_inp (const std::string &text, const std::string &file, const std::string &what)
{
  if (!E.sub ()) return;
  Inp in = parse_inp (text);
  E.describe ([=] { return what + ": " + show (text); });
  vp::Options op;
  op.guard = true;
#ifdef P4EST_ENABLE_DEBUG
  op.allow_abort = in.v == MULTI || in.v == ANY;
#else
  op.allow_abort = false;
#endif
  if (in.v == ANY && !op.allow_abort) return;         // collapsed or twisted elements: no promise
  int f0 = nfds ();
  E.run (1, op, [&](int) {
    rank_begin ();
    spit (file, text);
    long b0 = vp::live_blocks (0);
    p4est_connectivity_t *c = p4est_connectivity_read_inp (file.c_str ());
    if (in.v == GOOD) {
      if (!c) fail ("a well-formed file is refused");
      valid (c, "read_inp");
      check_complete (c, *in.m, 0, "read_inp");
      FILE *s = fopen (file.c_str (), "rb");
      p4est_topidx_t nv = -1, nt = -1;
      int rc = p4est_connectivity_read_inp_stream (s, &nv, &nt, NULL, NULL);
      if (rc || nv != c->num_vertices || nt != c->num_trees) fail ("read_inp_stream counts %d vertices and %d trees and returns %d", (int) nv, (int) nt, rc);
      fclose (s);
    }
    else if (c && in.v != ANY) fail ("a malformed file yields a mesh of %d trees and %d vertices", (int) c->num_trees, (int) c->num_vertices);
    if (c) p4est_connectivity_destroy (c);
    if (vp::live_blocks (0) != b0) fail ("memory is not freed");
    rank_end ();
  });
  if (!op.allow_abort && nfds () != f0) E.bad ("a file remains open");
}
static std::string num (double x, int style) { return strf (style == 1 ? "%.17e" : style == 2 ? "%+.17G" : "%.17g", x); }
static std::string write_inp (const Conn &m, int style)
{
  int nv = (int) m.verts.size () / 3;
  const char *eol = style == 1 ? "\r\n" : "\n", *sep = style == 11 ? "," : style == 12 ? ",  \t  " : ", ";
  std::string head = strf ("*Heading%s box.inp%s", eol, eol), N = strf ("*Node%s", eol), el[2] = {"", ""};
  if (style == 10) { head = "*Heading " + std::string (3000, 'x') + "\n " + std::string (1022, 'y') + "\n" + std::string (1023, 'y') + "\n" + std::string (1024, 'y') + "\n"; }
  if (style == 5) head += "** a comment\n";
  for (int i = 0; i < nv; ++i) {
    int v = style == 13 ? (nv - 1 - i + nv / 3) % nv : i;
    N += strf ("%d", v + 1);
    for (int d = 0; d < 3; ++d) N += sep + num (m.verts[3 * v + d], style == 14 ? 1 : style == 15 ? 2 : 0);
    N += eol;
  }
  for (int t = 0; t < m.nt; ++t) {
    std::string &s = el[style == 8 && t >= m.nt / 2];
    s += strf ("%d", style == 13 ? 100 - t : t + 1);
    for (int k = 0; k < NC; ++k) s += sep + strf ("%d", m.ttv[NC * t + (k & 2 ? k ^ 1 : k)] + 1);
    s += eol;
  }
  const char *types[] = {"C2D4", "CPS4", "S4", "CPS4R", "S4R"}, *t3[] = {"C3D8", "C3D8", "C3D8R", "C3D8", "C3D8I"};
  auto header = [&](int i) { return strf ("*Element, type=%s, ELSET=Surface%d%s", D == 3 ? t3[(style + i) % 5] : types[(style + i) % 5], i, eol); };
  std::string Es = header (1) + el[0];
  if (style == 8 && !el[1].empty ()) Es += (style == 8 ? "*Elset, elset=x\n1, 2, 3\n" : "") + header (2) + el[1];
  if (style == 9) Es += "*Element, type=CPS3, ELSET=tri\n1, 1, 2, 3\n2, 2, 3, 4\n";
  if (style == 6) Es += "*Nset, nset=a\n1, 2, 3\n*Elset, elset=b\n1\n**\n*End\n";
  std::string s = style == 7 ? head + Es + N : style == 5 ? head + N + "** more\n**\n" + Es : head + N + Es;
  if (style == 2) for (auto &c : s) c = (char) toupper (c);
  if (style == 3) for (auto &c : s) c = (char) tolower (c);
  if (style == 4) s.pop_back ();
  return s;
}
// every single damage of a text
static void damages (const std::string &s, int step, const std::function<void(const std::string &, const std::string &)> &f)
{
  for (size_t n = 0; n < s.size (); n += (size_t) step) f (s.substr (0, n), strf ("cut after %zu bytes", n));
  std::vector<std::string> l;
  for (size_t at = 0; at < s.size ();) { size_t e = s.find ('\n', at); e = e == std::string::npos ? s.size () : e + 1; l.push_back (s.substr (at, e - at)); at = e; }
  auto glue = [](const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += x; return r; };
  for (size_t i = 0; i < l.size (); ++i) {
    auto v = l;
    v.erase (v.begin () + i);
    f (glue (v), strf ("without line %zu", i + 1));
    v = l;
    v.insert (v.begin () + i, l[i]);
    f (glue (v), strf ("line %zu twice", i + 1));
    v = l;
    v.insert (v.begin () + i, "\n");
    f (glue (v), strf ("empty line before %zu", i + 1));
    if (i) { v = l; std::swap (v[i], v[i - 1]); f (glue (v), strf ("lines %zu and %zu swapped", i, i + 1)); }
  }
  for (size_t a = 0; a < s.size (); ++a) if ((isdigit (s[a]) || s[a] == '-') && (!a || !(isalnum (s[a - 1]) || s[a - 1] == '-' || s[a - 1] == '.'))) {
    size_t b = a;
    while (b < s.size () && (isalnum (s[b]) || s[b] == '.' || s[b] == '-' || s[b] == '+')) ++b;
    for (const char *t : {"", "0", "-1", "x", "1", "2", "3", "9", "100000", "4294967297", "99999999999999999999", ".5"}) f (s.substr (0, a) + t + s.substr (b), strf ("'%s' instead of '%s' at byte %zu", t, s.substr (a, b - a).c_str (), a));
  }
}
static void inp_files (bool th)
{
  std::vector<CP> v;
  for (auto m : meshes ()) { Conn w; if (!m->verts.empty () && from_vertices (*m, w) == FINE) v.push_back (m); }
  std::string file = E.scratch + "/m.inp";
  for (auto m : v) {
    E.stage ("inp %s", m->name.c_str ());
    if (!E.take ()) continue;
    for (int s = 0; s < 16; ++s) attempt_inp (write_inp (*m, s), file, strf ("mesh %s as a file in style %d", m->name.c_str (), s));
  }
  size_t cases = 0;
  for (auto m : v) {
    if (m->nt > (D == 3 ? 2 : 4)) continue;
    for (int s : {0, 4, 13}) {
      if (s && !th && cases > 4) continue;
      ++cases;
      std::string t = write_inp (*m, s);
      E.stage ("damaged inp %s %d", m->name.c_str (), s);
      long k = 0;
      bool on = false;
      damages (t, 1, [&](const std::string &x, const std::string &what) { if (k++ % 64 == 0) on = E.take (); if (on) attempt_inp (x, file, what); });
    }
  }
  E.stage ("no inp file");
  if (E.take () && E.sub ()) {
    E.describe ([] { return std::string ("missing and empty files"); });
    int f0 = nfds ();
    E.run (1, vp::Options (), [&](int) {
      rank_begin ();
      if (p4est_connectivity_read_inp ((E.scratch + "/none").c_str ())) fail ("a missing file yields a mesh");
      spit (file, "");
      if (p4est_connectivity_read_inp (file.c_str ())) fail ("an empty file yields a mesh");
      rank_end ();
    });
    if (nfds () != f0) E.bad ("a file remains open");
  }
}
#ifdef P4_TO_P8
// --------------------------------------------------------------- tetrahedra
struct Tets { std::vector<std::array<double, 3>> x; std::vector<std::array<int, 4>> t; std::vector<int> attr; int nattr = 0, marker = 0; };
static std::string write_node (const Tets &g, int style)
{
  std::string s = style == 1 ? strf ("  %zu   3  %d  %d\n\n", g.x.size (), g.nattr, g.marker) : strf ("%zu 3 %d %d\n", g.x.size (), g.nattr, g.marker);
  for (size_t i = 0; i < g.x.size (); ++i) {
    s += strf ("%zu", i);
    for (int d = 0; d < 3; ++d) s += (style == 1 ? "\t  " : " ") + num (g.x[i][d], style % 3);
    for (int k = 0; k < g.nattr; ++k) s += strf (" %d.5", k);
    if (g.marker) s += strf (" %d", (int) i % 2);
    s += "\n";
  }
  if (style == 2) s += "# Generated by tetgen\n";
  return s;
}
static std::string write_ele (const Tets &g, int style)
{
  std::string s = strf ("%zu 4 %d\n", g.t.size (), !g.attr.empty ());
  for (size_t i = 0; i < g.t.size (); ++i) {
    s += strf ("%zu", i);
    for (int k = 0; k < 4; ++k) s += (style == 1 ? "   " : " ") + strf ("%d", g.t[i][k]);
    if (!g.attr.empty ()) s += strf (" %d", g.attr[i]);
    s += "\n";
  }
  if (style == 2) s += "# Generated by tetgen\n";
  return s;
}
struct Parsed { bool nodes = false, tets = false, region = false; Tets g; };
static Parsed parse_tets (const std::string &node, const std::string &ele, long limit)
{
  Parsed r;
  const char *p = node.c_str ();
  long long n, dims, na, bm, id;
  if (get_int (p, n) && get_int (p, dims) && get_int (p, na) && get_int (p, bm) && n >= 0 && n <= INT32_MAX && dims == 3 && na >= 0 && dims == (int) dims) {
    bool ok = true;
    for (long long i = 0; i < n && ok; ++i) {
      std::array<double, 3> x;
      ok = get_int (p, id) && id == i;
      for (int d = 0; d < 3 && ok; ++d) ok = get_dbl (p, x[d]);
      double y;
      for (long long k = 0; k < na && ok; ++k) ok = get_dbl (p, y);
      if (bm) ok = ok && get_int (p, id);
      if (ok) r.g.x.push_back (x);
    }
    r.nodes = ok;
  }
  if (limit == -2) limit = (long) r.g.x.size ();
  p = ele.c_str ();
  long long npt, reg;
  if (get_int (p, n) && get_int (p, npt) && get_int (p, reg) && n >= 0 && n <= INT32_MAX && npt == 4) {
    bool ok = true;
    r.region = reg != 0;
    for (long long i = 0; i < n && ok; ++i) {
      std::array<int, 4> t;
      ok = get_int (p, id) && id == i;
      for (int k = 0; k < 4 && ok; ++k) { ok = get_int (p, id) && id >= 0 && id <= INT32_MAX && (limit < 0 || id < limit); t[k] = (int) id; }
      if (ok && reg) { ok = get_int (p, id); r.g.attr.push_back ((int) id); }
      if (ok) r.g.t.push_back (t);
    }
    r.tets = ok;
  }
  return r;
}
static double volume (const Tets &g, const std::array<int, 4> &t)
{
  double v[3][3];
  for (int i = 0; i < 3; ++i) for (int d = 0; d < 3; ++d) v[i][d] = g.x[t[i + 1]][d] - g.x[t[0]][d];
  return v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
}
static void same_tets (const p8est_tets_t *p, const Parsed &r)
{
  if (p->nodes->elem_count != 3 * r.g.x.size () || p->tets->elem_count != 4 * r.g.t.size ()) fail ("tets: %zu coordinates and %zu corners", p->nodes->elem_count, p->tets->elem_count);
  for (size_t i = 0; i < r.g.x.size (); ++i) if (memcmp (sc_array_index (p->nodes, 3 * i), r.g.x[i].data (), 24)) fail ("tets: node %zu", i);
  for (size_t i = 0; i < r.g.t.size (); ++i) if (memcmp (sc_array_index (p->tets, 4 * i), r.g.t[i].data (), 16)) fail ("tets: tetrahedron %zu", i);
  if ((p->tet_attributes != NULL) != r.region) fail ("tets: attributes");
  if (r.region) for (size_t i = 0; i < r.g.t.size (); ++i) if (*(int *) sc_array_index (p->tet_attributes, i) != r.g.attr[i]) fail ("tets: attribute %zu", i);
}
static void check_tets (p8est_tets_t *p, const Tets &g0)
{
  Tets g = g0;
  int flips = 0;
  for (auto &t : g.t) flips += volume (g, t) < 0;
  p4est_topidx_t n = p8est_tets_make_righthanded (p);
  if (n != flips) fail ("make_righthanded reports %d of %d flips", (int) n, flips);
  for (size_t i = 0; i < g.t.size (); ++i) {
    std::array<int, 4> t;
    memcpy (t.data (), sc_array_index (p->tets, 4 * i), 16);
    auto a = t, b = g.t[i];
    if (volume (g, b) >= 0 && a != b) fail ("make_righthanded changes a right-handed tetrahedron");
    std::sort (a.begin (), a.end ());
    std::sort (b.begin (), b.end ());
    if (a != b) fail ("make_righthanded changes the corners of tetrahedron %zu", i);
    if (volume (g, t) < 0) fail ("tetrahedron %zu remains left-handed", i);
    g.t[i] = t;
  }
  p8est_connectivity_t *c = p8est_connectivity_new_tets (p);
  valid (c, "new_tets");
  CP m = model_of (c, "");
  if (m->nt != 4 * (int) g.t.size ()) fail ("new_tets makes %d trees of %zu", m->nt, g.t.size ());
  bool reg = !g.attr.empty ();
  if (c->tree_attr_bytes != (reg ? 1 : 0)) fail ("new_tets: %zu attribute bytes", c->tree_attr_bytes);
  // each tree: one corner of the tetrahedron and the centers of what contains it
  auto at = [&](int t, int k) { return &m->verts[3 * m->ttv[NC * t + k]]; };
  std::map<std::vector<int>, int> number;        // subsets of the nodes, or the tetrahedron, to vertices
  for (size_t i = 0; i < g.t.size (); ++i) {
    if (reg) for (int k = 0; k < 4; ++k) if (c->tree_to_attr[4 * i + k] != (char) (int8_t) g.attr[i]) fail ("new_tets: attribute of tree %zu", 4 * i + k);
    std::set<int> seen;
    for (int k = 0; k < 4; ++k) {
      int T = (int) (4 * i) + k;
      std::vector<std::vector<int>> sub (NC);
      for (int q = 0; q < NC; ++q) {
        int hits = 0;
        for (int s = 1; s < 16; ++s) {
          double x[3] = {0, 0, 0};
          int nn = __builtin_popcount ((unsigned) s);
          for (int j = 0; j < 4; ++j) if (s >> j & 1) for (int d = 0; d < 3; ++d) x[d] += g.x[g.t[i][j]][d] / nn;
          bool ok = true;
          for (int d = 0; d < 3; ++d) ok = ok && std::fabs (x[d] - at (T, q)[d]) < 1e-9;
          if (ok) { ++hits; sub[q].clear (); for (int j = 0; j < 4; ++j) if (s >> j & 1) sub[q].push_back (j); }
        }
        if (hits != 1) fail ("new_tets: corner %d of tree %d is at no center of tetrahedron %zu", q, T, i);
      }
      // sub[q] form the cube between one node and the whole
      std::set<std::vector<int>> all (sub.begin (), sub.end ());
      if (all.size () != NC) fail ("new_tets: tree %d uses a point twice", T);
      int lowq = -1;
      for (int q = 0; q < NC; ++q) if (sub[q].size () == 1) { if (lowq >= 0) fail ("new_tets: tree %d holds two nodes", T); lowq = q; }
      if (lowq < 0) fail ("new_tets: tree %d holds no node", T);
      int node = sub[lowq][0];
      if (!seen.insert (node).second) fail ("new_tets: two trees at node %d of tetrahedron %zu", node, i);
      for (int q = 0; q < NC; ++q) {
        if ((int) sub[q].size () != 1 + __builtin_popcount ((unsigned) (q ^ lowq)) || !std::count (sub[q].begin (), sub[q].end (), node)) fail ("new_tets: corners of tree %d", T);
        for (int d = 0; d < 3; ++d) { int r = q ^ (1 << d); const auto &a = sub[q].size () < sub[r].size () ? sub[q] : sub[r], &b = sub[q].size () < sub[r].size () ? sub[r] : sub[q]; if (!std::includes (b.begin (), b.end (), a.begin (), a.end ())) fail ("new_tets: corners %d and %d of tree %d", q, r, T); }
        std::vector<int> key;
        for (int j : sub[q]) key.push_back (g.t[i][j]);
        std::sort (key.begin (), key.end ());
        if (key.size () == 4) key.push_back ((int) i);
        auto it = number.emplace (key, m->ttv[NC * T + q]);
        if (it.first->second != m->ttv[NC * T + q]) fail ("new_tets: one point has two vertices");
        // right-handed at each corner
        double v[3][3];
        for (int d = 0; d < 3; ++d) for (int e = 0; e < 3; ++e) v[d][e] = (at (T, q ^ (1 << d))[e] - at (T, q)[e]) * (q >> d & 1 ? -1 : 1);
        double det = v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
        if (!(det > 0)) fail ("new_tets: tree %d is turned inside out at corner %d", T, q);
      }
    }
  }
  std::set<int> dist;
  for (auto &k : number) dist.insert (k.second);
  if (dist.size () != number.size ()) fail ("new_tets: two points have one vertex");
  Conn want;
  if (from_vertices (*m, want) != FINE) fail ("new_tets: trees overlap");
  check_classes (*m, want, false);
  p8est_connectivity_destroy (c);
}
static std::vector<Tets> tet_meshes ()
{
  std::vector<Tets> v;
  auto X = [](double a, double b, double c) { return std::array<double, 3> {a, b, c}; };
  Tets one;
  one.x = {X (0, 0, 0), X (1, 0, 0), X (0, 1.5, 0), X (0.125, 0.25, 1)};
  std::array<int, 4> p {0, 1, 2, 3};
  do { Tets g = one; g.t = {p}; v.push_back (g); } while (std::next_permutation (p.begin (), p.end ()));
  // two that share a face, an edge, a node or nothing, in all orders of the second
  for (int sh = 0; sh < 4; ++sh) {
    Tets g = one;
    g.x.push_back (X (1, 2, 2)); g.x.push_back (X (3, 0.5, 1)); g.x.push_back (X (2.5, 2, 0.25)); g.x.push_back (X (3, 3, 3.5));
    std::array<int, 4> q;
    for (int i = 0; i < 4; ++i) q[i] = 4 - sh + i;
    do { g.t = {{0, 2, 1, 3}, q}; g.attr = {-3, 130}; v.push_back (g); g.attr.clear (); g.t = {{3, 1, 2, 0}, q}; v.push_back (g); } while (std::next_permutation (q.begin (), q.end ()));
  }
  // a cube in five and in six
  Tets cube;
  for (int i = 0; i < 8; ++i) cube.x.push_back (X (i & 1, i >> 1 & 1, i >> 2 & 1));
  cube.t = {{0, 1, 2, 4}, {3, 1, 2, 7}, {5, 1, 4, 7}, {6, 2, 4, 7}, {1, 2, 4, 7}};
  cube.attr = {1, 2, 3, 4, 5};
  cube.nattr = 2; cube.marker = 1;
  v.push_back (cube);
  cube.t.clear ();
  int a[3] = {0, 1, 2};
  do cube.t.push_back ({0, 1 << a[0], (1 << a[0]) | (1 << a[1]), 7}); while (std::next_permutation (a, a + 3));
  cube.attr = {9, -9, 100, 300, 0, 7};
  v.push_back (cube);
  // around an edge, and no elements
  Tets fan;
  fan.x = {X (0, 0, 0), X (0, 0, 1)};
  for (int i = 0; i < 5; ++i) fan.x.push_back (X (std::cos (i * 6.283185307179586 / 5), std::sin (i * 6.283185307179586 / 5), 0.3));
  for (int i = 0; i < 5; ++i) fan.t.push_back (i % 2 ? std::array<int, 4> {0, 1, 2 + i, 2 + (i + 1) % 5} : std::array<int, 4> {2 + (i + 1) % 5, 1, 2 + i, 0});
  fan.marker = 1;
  v.push_back (fan);
  return v;
}
static void attempt_tets (const std::string &node, const std::string &ele, const std::string &what, bool convert)
{
  if (!E.sub ()) return;
  std::string base = E.scratch + "/t", fn = base + ".node", fe = base + ".ele";
  E.describe ([=] { return what + ": nodes " + show (node) + " elements " + show (ele); });
  vp::Options op;
  op.guard = true;
  int f0 = nfds ();
  E.run (1, op, [&](int) {
    rank_begin ();
    spit (fn, node);
    spit (fe, ele);
    long b0 = vp::live_blocks (0);
    Parsed r = parse_tets (node, ele, -2);
    sc_array_t *a = p8est_tets_read_node (fn.c_str ());
    if ((a != NULL) != r.nodes) fail ("read_node %s", a ? "accepts a malformed file" : "refuses a well-formed file");
    if (a) { if (a->elem_count != 3 * r.g.x.size ()) fail ("read_node: %zu numbers", a->elem_count); for (size_t i = 0; i < r.g.x.size (); ++i) if (memcmp (sc_array_index (a, 3 * i), r.g.x[i].data (), 24)) fail ("read_node: node %zu", i); sc_array_destroy (a); }
    for (long lim : {-1L, 0L, 1L, (long) r.g.x.size (), (long) r.g.x.size () + 1}) for (int wa = 0; wa < 2; ++wa) {
      Parsed q = parse_tets (node, ele, lim);
      sc_array_t *at = (sc_array_t *) &q;
      sc_array_t *e = p8est_tets_read_ele (fe.c_str (), (p4est_topidx_t) lim, wa ? &at : NULL);
      if ((e != NULL) != q.tets) fail ("read_ele with at most %ld nodes %s", lim, e ? "accepts a malformed file" : "refuses a well-formed file");
      if (wa && (at != NULL) != (q.tets && q.region)) fail ("read_ele: attributes");
      if (e) { for (size_t i = 0; i < q.g.t.size (); ++i) if (memcmp (sc_array_index (e, 4 * i), q.g.t[i].data (), 16)) fail ("read_ele: element %zu", i); sc_array_destroy (e); }
      if (wa && at) sc_array_destroy (at);
    }
    p8est_tets_t *p = p8est_tets_read (base.c_str ());
    if ((p != NULL) != (r.nodes && r.tets)) fail ("tets_read %s", p ? "accepts malformed files" : "refuses well-formed files");
    if (p) {
      same_tets (p, r);
      if (convert) check_tets (p, r.g);
      p8est_tets_destroy (p);
    }
    if (vp::live_blocks (0) != b0) fail ("memory is not freed");
    rank_end ();
  });
  if (nfds () != f0) E.bad ("a file remains open");
}
static void tet_files (bool th)
{
  auto v = tet_meshes ();
  for (size_t i = 0; i < v.size (); ++i) {
    E.stage ("tets %zu", i);
    if (!E.take ()) continue;
    for (int s = 0; s < 3; ++s) attempt_tets (write_node (v[i], s), write_ele (v[i], s), strf ("tetrahedra %zu in style %d", i, s), true);
  }
  for (size_t i : {(size_t) 0, (size_t) 24, v.size () - 3, v.size () - 1}) for (int which = 0; which < 2; ++which) {
    E.stage ("damaged tets %zu %d", i, which);
    std::string n = write_node (v[i], 0), e = write_ele (v[i], 0);
    long k = 0;
    bool on = false;
    damages (which ? e : n, th ? 1 : 3, [&](const std::string &x, const std::string &what) { if (k++ % 64 == 0) on = E.take (); if (on) attempt_tets (which ? n : x, which ? x : e, what, false); });
  }
}
#endif
static void files (bool th)
{
  inp_files (th);
#ifdef P4_TO_P8
  tet_files (th);
#endif
}
