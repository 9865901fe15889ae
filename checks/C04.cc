// C04 Coarse mesh serialization round-trips and rejects damaged data
#include "ref/spaces.hh"
#include <dirent.h>
#include <unistd.h>
#include <sc_io.h>
using namespace br;

static std::string slurp (const std::string &f)
{
  std::string s;
  FILE *h = fopen (f.c_str (), "rb");
  if (!h) return "";
  char b[65536];
  for (size_t n; (n = fread (b, 1, sizeof b, h)) > 0;) s.append (b, n);
  fclose (h);
  return s;
}
static void spit (const std::string &f, const std::string &s)
{
  FILE *h = fopen (f.c_str (), "wb");
  if (!h || fwrite (s.data (), 1, s.size (), h) != s.size () || fclose (h)) abort ();
}
static int nfds ()                      // the lowest number that is free
{
  int f = dup (2);
  close (f);
  return f;
}

// ---- the written form, read independently
enum Verdict { BAD, EITHER, GOOD };
struct Parsed { Conn m; std::string attr; size_t ab = 0; bool huge = false; Verdict v = BAD; size_t used = 0; };
static std::string strict_why;
static Verdict judge (const Conn &c)
{
  int nt = c.nt;
  if (nt == 0) return EITHER;           // no mesh at all
  bool either = false;
  int nv = (int) c.verts.size () / 3;
  if (nv) for (int v : c.ttv) if (v < 0 || v >= nv) return BAD;
  for (int i = 0; i < nt * NF; ++i) if (c.ttt[i] < 0 || c.ttt[i] >= nt || c.ttf[i] < 0 || c.ttf[i] >= NF * (NC / 2)) return BAD;
  for (int t = 0; t < nt; ++t) for (int f = 0; f < NF; ++f) {
    int u = c.ttt[t * NF + f], g = c.ttf[t * NF + f] % NF, o = c.ttf[t * NF + f] / NF;
    if (u == t && g == f) { if (o) return BAD; continue; }
    if (c.ttt[u * NF + g] != t || c.ttf[u * NF + g] != f + NF * o) return BAD;
  }
  // groups of corners and edges
  auto groups = [&](const std::vector<int> &to, const std::vector<int> &off, const std::vector<int> &gt, const std::vector<int> &ge, int per, int flips) {
    int ng = (int) off.size () - 1;
    for (size_t i = 0; i < gt.size (); ++i) if (gt[i] < 0 || gt[i] >= nt || ge[i] < 0 || ge[i] >= per * flips) return BAD;
    for (int g = 0; g < ng; ++g) if (off[g] > off[g + 1]) return BAD;
    if (ng == 0) return off[0] == 0 ? GOOD : BAD;
    if (off[0] < 0) either = true;
    if (off[0] > 0) either = true;
    std::vector<std::vector<int>> refs (ng);
    for (int t = 0; t < nt; ++t) for (int e = 0; e < per; ++e) {
      int g = to[t * per + e];
      if (g < -1 || g >= ng) return BAD;
      if (g >= 0) refs[g].push_back (t * per + e);
    }
    for (int g = 0; g < ng; ++g) {
      if (refs[g].empty ()) { either = true; continue; }
      if (off[g] < 0) return BAD;
      std::map<int, std::set<int>> mem;
      for (int i = off[g]; i < off[g + 1]; ++i) {
        int k = gt[i] * per + ge[i] % per;
        if (to[k] != g) return BAD;
        if (!mem[k].insert (ge[i] / per).second) return BAD;
        if (mem[k].size () > 1) either = true;
      }
      for (int k : refs[g]) if (!mem.count (k)) return BAD;
    }
    return GOOD;
  };
  if (D == 3 && groups (c.tte, c.ett_off, c.ett, c.ete, 12, 2) == BAD) return BAD;
  if (groups (c.ttc, c.ctt_off, c.ctt, c.ctc, NC, 1) == BAD) return BAD;
  return either ? EITHER : GOOD;
}
static Parsed parse (const std::string &b)
{
  Parsed p;
  size_t at = 0;
  auto have = [&](uint64_t n) { return n <= b.size () - at; };
  if (!have (112)) return p;
  if (memcmp (b.data (), D == 2 ? "p4est" : "p8est", 6)) return p;
  uint64_t a[10];
  memcpy (a, b.data () + 32, 80);
  at = 112;
  if (a[0] != P4EST_ONDISK_FORMAT || a[1] != sizeof (p4est_topidx_t)) return p;
  for (int i = 2; i < 8; ++i) if (a[i] > INT32_MAX) return p;
  if (D == 2 && (a[4] || a[5])) return p;
  uint64_t nv = a[2], nt = a[3], ne = a[4], net = a[5], nc = a[6], nct = a[7], ab = a[8];
  // what has to be allocated before the data can be read
  long double need = 24.0L * nv + (4.0L * NC + 5.0L * NF + 48) * nt + 8.0L * (ne + net + nc + nct) + (long double) ab * nt;
  p.huge = need > (long double) (1L << 24);
  Conn &c = p.m;
  c.nt = (int) nt;
  auto ints = [&](std::vector<int> &v, uint64_t n) {
    if (n > b.size () || !have (4 * n)) return false;
    v.resize (n);
    if (n) memcpy (v.data (), b.data () + at, 4 * n);
    at += 4 * n;
    return true;
  };
  auto bytes = [&](std::vector<int> &v, uint64_t n) {
    if (!have (n)) return false;
    for (uint64_t i = 0; i < n; ++i) v.push_back ((signed char) b[at + i]);
    at += n;
    return true;
  };
  if (nv > b.size () || !have (24 * nv)) return p;
  c.verts.resize (3 * nv);
  if (nv) memcpy (c.verts.data (), b.data () + at, 24 * nv);
  at += 24 * nv;
  if (D == 3 && ne && !ints (c.tte, 12 * nt)) return p;
  if (nv && !ints (c.ttv, NC * nt)) return p;
  if (nc && !ints (c.ttc, NC * nt)) return p;
  if (!ints (c.ttt, NF * nt) || !bytes (c.ttf, NF * nt)) return p;
  if (ab) {
    if ((long double) ab * nt > b.size () || !have (ab * nt)) return p;
    p.attr = b.substr (at, ab * nt);
    at += ab * nt;
  }
  p.ab = ab;
  if (D == 3) {
    if (!ints (c.ett_off, ne + 1) || c.ett_off.back () != (int) net) return p;
    if (ne && (!ints (c.ett, net) || !bytes (c.ete, net))) return p;
  }
  if (!ints (c.ctt_off, nc + 1) || c.ctt_off.back () != (int) nct) return p;
  if (nc && (!ints (c.ctt, nct) || !bytes (c.ctc, nct))) return p;
  p.used = at;
  p.v = judge (c);
  return p;
}
static bool bits_equal (const Conn &a, const Conn &b)
{
  return conn_equal (a, b, false) && a.ttv == b.ttv && a.verts.size () == b.verts.size () && !memcmp (a.verts.data (), b.verts.data (), a.verts.size () * sizeof (double));
}
static void same_conn (p4est_connectivity_t *c, const Conn &m, size_t ab, const std::string &attr, const char *what)
{
  if (!bits_equal (m, *model_of (c, ""))) fail ("%s: tables differ", what);
  if ((c->num_vertices > 0) != (c->vertices != NULL) || (c->num_vertices > 0) != (c->tree_to_vertex != NULL)) fail ("%s: vertex arrays", what);
  if (c->tree_attr_bytes != ab || (ab > 0) != (c->tree_to_attr != NULL) || (ab && memcmp (c->tree_to_attr, attr.data (), attr.size ()))) fail ("%s: attributes differ", what);
}
static sc_array_t *arr (const std::string &b)
{
  sc_array_t *a = sc_array_new_count (1, b.size ());
  memcpy (a->array, b.data (), b.size ());
  return a;
}
// read damaged bytes in one way
static const char *how[] = {"inflate", "load", "source from memory", "source from file"};
static void attempt (const std::string &b, const std::string &file, int way)
{
  static Parsed p;
  p = parse (b);
  vp::Options op;
  op.guard = true;
  op.allow_abort = false;
  if (p.huge) op.allow_abort = true;
#ifdef P4EST_ENABLE_DEBUG
  // assertions on tables that are correct by themselves but contradict each other
  if (p.v != BAD) op.allow_abort = true;
#endif
  if (way & 1) spit (file, b);
  static bool yes;
  yes = false;
  int f0 = nfds ();
  E.transition ();
  E.run (1, op, [&](int) {
    rank_begin ();
    long live = vp::live_blocks (0);
    p4est_connectivity_t *c = NULL;
    size_t len = (size_t) -77;
    if (way == 0) { sc_array_t *a = arr (b); c = p4est_connectivity_inflate (a); sc_array_destroy (a); }
    else if (way == 1) c = p4est_connectivity_load (file.c_str (), &len);
    else {
      sc_array_t *a = way == 2 ? arr (b) : NULL;
      sc_io_source_t *s = way == 2 ? sc_io_source_new (SC_IO_TYPE_BUFFER, SC_IO_ENCODE_NONE, a) : sc_io_source_new (SC_IO_TYPE_FILENAME, SC_IO_ENCODE_NONE, file.c_str ());
      if (!s) fail ("cannot open source");
      c = p4est_connectivity_source (s);
      sc_io_source_destroy (s);
      if (a) sc_array_destroy (a);
    }
    if (c && p.v == BAD) fail ("a mesh is returned");
    if (!c && p.v == GOOD) fail ("NULL is returned for a valid mesh");
    if (c) {
      yes = true;
      same_conn (c, p.m, p.ab, p.attr, how[way]);
      if (way == 1 && len != p.used) fail ("load reports %zu bytes, not %zu", len, p.used);
      p4est_connectivity_destroy (c);
    }
    if (vp::live_blocks (0) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (0) - live);
    rank_end ();
  });
  if (!op.allow_abort && nfds () != f0) E.bad ("a file remains open");
  if (yes) E.count ("damaged data that describe another valid mesh");
}

static std::shared_ptr<Conn> bare (std::shared_ptr<Conn> m)
{
  auto c = std::make_shared<Conn> (*m);
  c->name += "-novertices";
  c->verts.clear ();
  c->ttv.clear ();
  return c;
}

void enumerate ()
{
  bool th = E.thorough;
  std::string file = E.scratch + "/c";
  std::vector<std::shared_ptr<Conn>> all;
  for (auto nm : conn_names ()) if (auto m = named (nm)) { all.push_back (m); all.push_back (bare (m)); }
  for (int k = 0; k < (D == 3 ? 4 : 2); ++k) all.push_back (touching (k));
  for (int l = 0; l < NF; ++l) for (int r = 0; r < NF; ++r) for (int k = 0; k < (D == 3 ? 4 : 2); ++k) if (auto m = twotrees (l, r, k)) all.push_back (m);
#ifdef P4_TO_P8
  for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 2; ++b) for (int p = 0; p < 8; ++p) all.push_back (brick (a, b, 2, p & 1, p >> 1 & 1, p >> 2));
#else
  for (int a = 1; a <= 4; ++a) for (int b = 1; b <= 4; ++b) for (int p = 0; p < 4; ++p) all.push_back (brick (a, b, p & 1, p >> 1));
#endif
  // ---- round trips
  E.stage ("round trips of %zu meshes, attributes of 0, 1, 7 and 16 bytes, all ways to write and to read", all.size ());
  int rot = 0;
  for (auto m : all) {
    if (!E.take ()) continue;
    HostConn hc (m);
    for (int ab : {0, 1, 7, 16}) {
      ++rot;
      if (!E.sub ()) continue;
      std::string at;
      for (int i = 0; i < ab * m->nt; ++i) at += (char) (i * 7 + 1);
      hc.c.tree_attr_bytes = (size_t) ab;
      hc.c.tree_to_attr = ab ? &at[0] : NULL;
      E.describe ([=] { return strf ("%s attributes %d", m->name.c_str (), ab); });
      E.state ();
      static std::string mem, mem2;
      if (rot % 2) spit (file, std::string (50000, 'y')); else unlink (file.c_str ());
      int f0 = nfds ();
      for (int k = 0; k < 2; ++k) {
        vp::Options op;
        op.guard = true;
        op.fill = k ? 0x3c : 0;
        E.transition (8);
        E.run (1, op, [&](int) {
          rank_begin ();
          long live = vp::live_blocks (0);
          sc_array_t *a = p4est_connectivity_deflate (&hc.c, P4EST_CONN_ENCODE_NONE);
          if (a->elem_size != 1) fail ("elements of %zu bytes", a->elem_size);
          std::string got (a->array, a->elem_count);
          if (k && got != mem) fail ("what is written depends on the content of fresh memory");
          mem = got;
          p4est_connectivity_t *c = p4est_connectivity_inflate (a);
          if (!c) fail ("inflate returns NULL");
          same_conn (c, *m, (size_t) ab, at, "inflate");
          if (!p4est_connectivity_is_valid (c) || !p4est_connectivity_is_equal (c, &hc.c)) fail ("the mesh read is not valid or not equal");
          sc_array_t *a2 = p4est_connectivity_deflate (c, P4EST_CONN_ENCODE_NONE);
          if (std::string (a2->array, a2->elem_count) != mem) fail ("the mesh that was read is written differently");
          sc_array_destroy (a2);
          sc_array_destroy (a);
          p4est_connectivity_destroy (c);
          if (p4est_connectivity_save (file.c_str (), &hc.c)) fail ("save fails");
          size_t len = 0;
          c = p4est_connectivity_load (file.c_str (), k ? &len : NULL);
          if (!c) fail ("load returns NULL");
          if (k && len != mem.size ()) fail ("load reports %zu bytes, not %zu", len, mem.size ());
          same_conn (c, *m, (size_t) ab, at, "load");
          // two meshes one after the other, with something before and behind
          sc_array_t *buf = sc_array_new (1);
          sc_io_sink_t *s = sc_io_sink_new (SC_IO_TYPE_BUFFER, SC_IO_MODE_WRITE, SC_IO_ENCODE_NONE, buf);
          if (sc_io_sink_write (s, "abc", 3) || p4est_connectivity_sink (&hc.c, s) || p4est_connectivity_sink (c, s) || sc_io_sink_write (s, "xyz", 3) || sc_io_sink_destroy (s)) fail ("sink fails");
          p4est_connectivity_destroy (c);
          if (std::string (buf->array, buf->elem_count) != "abc" + mem + mem + "xyz") fail ("sink writes something else");
          sc_io_source_t *so = sc_io_source_new (SC_IO_TYPE_BUFFER, SC_IO_ENCODE_NONE, buf);
          char x[3];
          if (sc_io_source_read (so, x, 3, NULL)) fail ("source");
          for (int i = 0; i < 2; ++i) {
            c = p4est_connectivity_source (so);
            if (!c) fail ("source returns NULL");
            same_conn (c, *m, (size_t) ab, at, "source");
            p4est_connectivity_destroy (c);
          }
          if (sc_io_source_read (so, x, 3, NULL) || memcmp (x, "xyz", 3)) fail ("source does not stand behind the mesh");
          if (sc_io_source_destroy (so)) fail ("source");
          sc_array_destroy (buf);
          if (vp::live_blocks (0) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (0) - live);
          rank_end ();
        });
        if (slurp (file) != mem) E.bad ("the file differs from the form in memory");
      }
      if (nfds () != f0) E.bad ("a file remains open");
      Parsed p = parse (mem);
      if (p.v == BAD || !bits_equal (p.m, *m) || p.used != mem.size () || p.attr != at) E.bad ("the form written is not understood");
      E.validated ();
      if (!hc.intact ()) E.bad ("writing changes the mesh");
      // every fault while writing or reading
      if (ab <= 1) for (int dir = 0; dir < 2; ++dir) for (int mode = 0; mode < 2; ++mode) {
        if (dir) spit (file, mem);
        for (long k = 0; k < 1000; ++k) {
          static long ops, res;
          E.describe ([=] { return strf ("%s attributes %d, %s with failing file operation %ld (mode %d)", m->name.c_str (), ab, dir ? "load" : "save", k, mode); });
          vp::Options op;
          E.transition ();
          E.run (1, op, [&](int) {
            rank_begin ();
            long live = vp::live_blocks (0);
            vp::iofault = vp::IoFault ();
            vp::iofault.fail_at = k;
            vp::iofault.mode = mode;
            p4est_connectivity_t *c = NULL;
            if (dir) { c = p4est_connectivity_load (file.c_str (), NULL); res = c != NULL; }
            else res = p4est_connectivity_save (file.c_str (), &hc.c) == 0;
            ops = vp::iofault.ops;
            vp::iofault = vp::IoFault ();
            if (c) { same_conn (c, *m, (size_t) ab, at, "load"); p4est_connectivity_destroy (c); }
            if (vp::live_blocks (0) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (0) - live);
            rank_end ();
          });
          vp::iofault = vp::IoFault ();
          if (nfds () != f0) E.bad ("a file remains open");
          if (ops <= k) { if (!res) E.bad ("failure without a fault"); break; }
          if (res) E.bad ("success is reported though operation %ld of the file failed", k);
          E.state ();
        }
      }
      unlink (file.c_str ());
      for (auto nm : {"/nonexistent-directory/x", "missing"}) {
        std::string f = nm[0] == '/' ? nm : file + nm;
        E.describe ([=] { return strf ("%s file %s", m->name.c_str (), f.c_str ()); });
        E.run (1, vp::Options (), [&](int) {
          rank_begin ();
          long live = vp::live_blocks (0);
          if (p4est_connectivity_load (f.c_str (), NULL)) fail ("load of a missing file");
          if (nm[0] == '/' && p4est_connectivity_save (f.c_str (), &hc.c) == 0) fail ("save into a missing directory reports success");
          if (vp::live_blocks (0) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (0) - live);
          rank_end ();
        });
      }
    }
  }
  // ---- damage
  vp::huge_null = true;
  vp::memory_cap = 1L << 25;
  auto written = [&](std::shared_ptr<Conn> m, int ab) {
    HostConn hc (m);
    static std::string mem, at;
    at.assign ((size_t) (ab * m->nt), 'q');
    hc.c.tree_attr_bytes = (size_t) ab;
    hc.c.tree_to_attr = ab ? &at[0] : NULL;
    E.run (1, vp::Options (), [&](int) {
      rank_begin ();
      long live = vp::live_blocks (0);
      sc_array_t *a = p4est_connectivity_deflate (&hc.c, P4EST_CONN_ENCODE_NONE);
      mem.assign (a->array, a->elem_count);
      sc_array_destroy (a);
      if (vp::live_blocks (0) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (0) - live);
      rank_end ();
    });
    return mem;
  };
  std::vector<std::shared_ptr<Conn>> ms;
#ifdef P4_TO_P8
  for (auto nm : {"unit", "periodic", "twocubes", "rotwrap", "rotcubes"}) ms.push_back (named (nm));
  for (int k = 0; k < 4; ++k) ms.push_back (touching (k));
  ms.push_back (bare (named ("twowrap")));
#else
  for (auto nm : {"unit", "periodic", "rotwrap", "corner", "moebius", "star", "bowtie", "brick221"}) ms.push_back (named (nm));
  for (int k = 0; k < 2; ++k) ms.push_back (touching (k));
  ms.push_back (bare (named ("pillow")));
#endif
  for (auto m : ms) {
    E.stage ("%s: every truncation, every change of a byte, every single and some double changes of numbers", m->name.c_str ());
    for (int ab : {0, 3}) {
      if (!E.take ()) continue;
      E.describe ([=] { return m->name; });
      std::string b = written (m, ab);
      int way = ab;
      auto ways = [&](const std::string &c, const std::function<std::string()> &w) {
        ++way;
        if (!E.sub ()) return;
        E.state ();
        for (int k = 0; k < 4; ++k) {
          if (!th && (k + way) % 4) continue;
          E.describe ([=] { return strf ("%s attributes %d, %s, %s", m->name.c_str (), ab, w ().c_str (), how[k]); });
          attempt (c, file, k);
        }
      };
      for (size_t n = 0; n < b.size (); ++n) for (int k = 0; k < 4; ++k) {
        if (!E.sub ()) continue;
        E.state ();
        E.describe ([=] { return strf ("%s attributes %d, first %zu of %zu bytes, %s", m->name.c_str (), ab, n, b.size (), how[k]); });
        attempt (b.substr (0, n), file, k);
      }
      for (size_t i = 0; i < b.size (); ++i) for (int x : {1, 2, 4, 8, 16, 32, 64, 128, 255, 90}) {
        bool vert = i >= 112 && i < 112 + 8 * m->verts.size ();
        if (vert && (x != 64 || i % 5) && !th) continue;
        std::string c = b;
        c[i] = (char) (c[i] ^ x);
        ways (c, [=] { return strf ("byte %zu of %zu changed by %02x", i, b.size (), x); });
      }
      // numbers: positions and widths of the entries of all tables
      struct Num { size_t at; int w; int lim; };
      std::vector<Num> v;
      size_t at = 112;
      int nt = m->nt, nv = (int) m->verts.size () / 3;
      auto tab = [&](size_t n, int w, int lim) { for (size_t i = 0; i < n; ++i) { v.push_back ({at, w, lim}); at += (size_t) w; } };
      for (int i = 2; i < 10; ++i) v.push_back ({(size_t) (32 + 8 * i), 8, 20});
      at += 24 * (size_t) nv;
      if (!m->ett.empty ()) tab (m->tte.size (), 4, (int) m->ett_off.size () - 1);
      if (nv) tab (m->ttv.size (), 4, nv);
      if (!m->ctt.empty ()) tab (m->ttc.size (), 4, (int) m->ctt_off.size () - 1);
      tab (m->ttt.size (), 4, nt);
      tab (m->ttf.size (), 1, NF * NC / 2);
      at += (size_t) (ab * nt);
      if (D == 3) tab (m->ett_off.size (), 4, (int) m->ett.size ());
      tab (m->ett.size (), 4, nt);
      tab (m->ete.size (), 1, 24);
      tab (m->ctt_off.size (), 4, (int) m->ctt.size ());
      tab (m->ctt.size (), 4, nt);
      tab (m->ctc.size (), 1, NC);
      if (at != b.size ()) { E.bad ("layout"); continue; }
      auto values = [&](const Num &n, bool few) {
        std::vector<int64_t> w;
        int64_t old = 0;
        memcpy (&old, &b[n.at], (size_t) n.w);
        if (few) { w = {-1, 0, n.lim, n.lim - 1}; w.push_back (old + 1); w.push_back (old - 1); }
        else {
          for (int k = -2; k <= n.lim + 1; ++k) if (n.lim <= 60 || k < 3 || k > n.lim - 3 || k % (n.lim / 20) == 0) w.push_back (k);
          w.push_back (n.w == 1 ? 127 : INT32_MAX); w.push_back (n.w == 1 ? -128 : INT32_MIN);
          if (n.w == 8) for (int64_t x : {INT64_MAX, INT64_MIN, 1L << 32, 1L << 29, 1L << 30, 0x55555556L, 0x2AAAAAABL, 1L << 28, 1L << 61, 1L << 62, 1L << 63, (1L << 63) + 1, 0x15555556L, 0x20000001L, 0x40000001L}) { w.push_back (x); w.push_back (x + old); }
        }
        std::sort (w.begin (), w.end ());
        w.erase (std::unique (w.begin (), w.end ()), w.end ());
        return w;
      };
      auto put = [&](std::string &c, const Num &n, int64_t x) { memcpy (&c[n.at], &x, (size_t) n.w); };
      for (auto &n : v) for (int64_t x : values (n, false)) {
        std::string c = b;
        put (c, n, x);
        if (c == b) continue;
        ways (c, [=] { return strf ("number at byte %zu of %zu set to %lld", n.at, b.size (), (long long) x); });
      }
      // pairs of numbers
      if (b.size () < (th ? 1500u : D == 2 ? 420u : 700u) && (ab == 0 || th)) for (size_t i = 0; i < v.size (); ++i) for (size_t j = 0; j < i; ++j) for (int64_t x : values (v[i], true)) for (int64_t y : values (v[j], true)) {
        if (!th && (i * 7 + j * 3 + (size_t) (x + y)) % 4) continue;
        std::string c = b;
        put (c, v[i], x);
        put (c, v[j], y);
        ways (c, [=] { return strf ("numbers at bytes %zu and %zu of %zu set to %lld and %lld", v[i].at, v[j].at, b.size (), (long long) x, (long long) y); });
      }
    }
  }
  unlink (file.c_str ());
  vp::huge_null = false;
}
