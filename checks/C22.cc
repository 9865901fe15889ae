// C22 Saved forests are restored exactly on any number of processes
#include "ref/spaces.hh"
#include <dirent.h>
#include <unistd.h>
#ifdef P4_TO_P8
#include <p8est_io.h>
#else
#include <p4est_io.h>
#endif
#include <sc_io.h>
using namespace br;

static std::string slurp (const std::string &f)
{
  std::string s;
  FILE *h = fopen (f.c_str (), "rb");
  if (!h) return "";
  char b[65536];
  for (size_t n; (n = fread (b, 1, sizeof b, h)) > 0;) s.append (b, n);
  fclose (h);
  return s;
}
static void spit (const std::string &f, const std::string &s)
{
  FILE *h = fopen (f.c_str (), "wb");
  if (!h || fwrite (s.data (), 1, s.size (), h) != s.size () || fclose (h)) abort ();
}
static std::set<int> fds ()
{
  std::set<int> v;
  DIR *d = opendir ("/proc/self/fd");
  while (dirent *e = readdir (d)) if (e->d_name[0] != '.' && atoi (e->d_name) != dirfd (d)) v.insert (atoi (e->d_name));
  closedir (d);
  return v;
}
static void close_new (const std::set<int> &o) { for (int f : fds ()) if (!o.count (f)) close (f); }

static const std::string trailer = "appended after the forest: 0123456789";
static int token;
static std::vector<int> uniform_cuts (int n, int Q) { std::vector<int> g; for (int p = 0; p <= Q; ++p) g.push_back ((int) ((long) n * p / Q)); return g; }

// attributes of the trees
static std::vector<char> attr;
static void set_attr (HostConn &hc, int bytes)
{
  attr.resize ((size_t) bytes * hc.m->nt);
  for (size_t i = 0; i < attr.size (); ++i) attr[i] = (char) (17 * i + 3);
  hc.c.tree_attr_bytes = (size_t) bytes;
  hc.c.tree_to_attr = bytes ? attr.data () : NULL;
}
struct Save { int P; std::vector<int> g; size_t ds; int sd, sp; long rev; };
static void save_body (HostConn &hc, const Cells &L, const Save &s, const std::string &file, int api)
{
  rank_begin ();
  static int other;
  p4est_t *p = make_p4est (&hc.c, L, s.g, s.ds, s.rev % 2 ? &token : &other);
  p->revision = s.rev;
  if (api) p4est_save (file.c_str (), p, s.sd); else p4est_save_ext (file.c_str (), p, s.sd, s.sp);
  if (p->revision != s.rev) fail ("save changes the revision");
  check_p4est (p, L, s.g, 1, "after save");
  p4est_destroy (p);
  rank_end ();
}
struct Load { int Q; std::vector<int> h; size_t ds; int ld, ap, bh, api; };     // api 0 load_ext 1 load 2 file source 3 buffer source
static p4est_t *do_load (const std::string &file, const std::string *bytes, const Load &l, p4est_connectivity_t **c, bool trail)
{
  if (l.api == 1) return p4est_load (file.c_str (), sc_MPI_COMM_WORLD, l.ds, l.ld, &token, c);
  if (l.api == 0) return p4est_load_ext (file.c_str (), sc_MPI_COMM_WORLD, l.ds, l.ld, l.ap, l.bh, &token, c);
  sc_array_t *a = NULL;
  sc_io_source_t *s;
  if (l.api == 2) s = sc_io_source_new (SC_IO_TYPE_FILENAME, SC_IO_ENCODE_NONE, file.c_str ());
  else {
    a = sc_array_new_count (1, bytes->size ());
    memcpy (a->array, bytes->data (), bytes->size ());
    s = sc_io_source_new (SC_IO_TYPE_BUFFER, SC_IO_ENCODE_NONE, a);
  }
  if (!s) fail ("cannot open the source");
  p4est_t *p = p4est_source_ext (s, sc_MPI_COMM_WORLD, l.ds, l.ld, l.ap, l.bh, &token, c);
  if (trail) {
    std::string b (trailer.size (), 0);
    if (sc_io_source_read (s, &b[0], b.size (), NULL)) fail ("the source does not stand at the end of the forest: cannot read what follows");
    if (b != trailer) fail ("the source does not stand at the end of the forest");
  }
  sc_io_source_destroy (s);
  if (a) sc_array_destroy (a);
  return p;
}
static void load_body (HostConn &hc, const Cells &L, const std::string &file, const std::string *bytes, const Load &l)
{
  rank_begin ();
  p4est_connectivity_t *c = (p4est_connectivity_t *) &token;
  p4est_t *p = do_load (file, bytes, l, &c, true);
  if (!p) fail ("load returns NULL");
  if (!c || p->connectivity != c) fail ("connectivity of the loaded forest");
  if (!conn_equal (*hc.m, *model_of (c, ""))) fail ("coarse mesh is not restored");
  if (c->tree_attr_bytes != hc.c.tree_attr_bytes || (attr.size () && hc.c.tree_attr_bytes && memcmp (c->tree_to_attr, attr.data (), attr.size ()))) fail ("attributes of the trees are not restored");
  if (p->user_pointer != &token) fail ("user pointer");
  if (p->revision != 0) fail ("revision is %ld", (long) p->revision);
  if (p->mpicomm != sc_MPI_COMM_WORLD || p->mpisize != l.Q || p->mpirank != vp::me ()) fail ("parallel environment");
  bool loaded = l.ld && l.ds;
  if (loaded ? p->data_size != l.ds : (p->data_size != 0 && p->data_size != l.ds)) fail ("data size %zu", p->data_size);
  check_p4est (p, L, l.h, loaded ? 1 : 0, "loaded");
  if (!p4est_is_valid (p)) fail ("loaded forest is not valid");
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
  rank_end ();
}

// ---- flat arrays
static void flat_body (HostConn &hc, const Cells &L, int P, const std::vector<int> &g, size_t ds, bool wd)
{
  rank_begin ();
  int me = vp::me (), n = g[me + 1] - g[me];
  p4est_t *p = make_p4est (&hc.c, L, g, ds, &token);
  p->revision = 3;
  sc_array_t *data = (sc_array_t *) &token, *q = p4est_deflate_quadrants (p, wd ? &data : NULL);
  if (q->elem_size != sizeof (p4est_qcoord_t) || q->elem_count != (size_t) (n * (D + 1))) fail ("deflate: %zu elements of size %zu", q->elem_count, q->elem_size);
  const p4est_qcoord_t *x = (const p4est_qcoord_t *) q->array;
  for (int i = 0; i < n; ++i, x += D + 1) {
    const Cell &c = L[g[me] + i];
    bool ok = x[D] == c.l;
    for (int d = 0; d < D; ++d) ok = ok && x[d] == c.x[d];
    if (!ok) fail ("deflate: element %d is not %s", i, str (c).c_str ());
  }
  if (wd) {
    if (data->elem_size != ds || data->elem_count != (size_t) n) fail ("deflate: data of %zu elements of size %zu", data->elem_count, data->elem_size);
    for (int i = 0; i < n; ++i) if (!data_ok (data->array + (size_t) i * ds, ds, L[g[me] + i])) fail ("deflate: data of element %d", i);
  }
  check_p4est (p, L, g, 1, "deflate");
  p4est_gloidx_t *gfq = P4EST_ALLOC (p4est_gloidx_t, P + 1), *per = P4EST_ALLOC (p4est_gloidx_t, hc.m->nt + 1);
  for (int i = 0; i <= P; ++i) gfq[i] = g[i];
  for (int t = 0; t <= hc.m->nt; ++t) { per[t] = 0; for (auto &c : L) per[t] += c.t < t; }
  for (int k = 0; k < 2; ++k) {
    auto *f = k ? p4est_inflate_null : p4est_inflate;
    static int u;
    p4est_t *r = f (sc_MPI_COMM_WORLD, &hc.c, gfq, per, q, wd ? data : NULL, &u);
    if (!r) fail ("inflate returns NULL for correct arrays");
    check_p4est (r, L, g, wd ? 1 : 0, "inflated");
    if (r->user_pointer != &u || r->revision != 0 || r->data_size != (wd ? ds : 0) || r->connectivity != &hc.c || r->global_first_quadrant == gfq) fail ("fields of the inflated forest");
    if (k == 0) { p4est_destroy (p); p = NULL; }
    p4est_destroy (r);
  }
  sc_array_destroy (q);
  if (wd) sc_array_destroy (data);
  P4EST_FREE (gfq);
  P4EST_FREE (per);
  rank_end ();
}

#ifndef P4EST_ENABLE_DEBUG
// ---- arrays that do not describe a forest
static bool covers (const Cells &v, size_t &i, const Cell &c)
{
  if (i >= v.size ()) return false;
  if (v[i] == c) { ++i; return true; }
  if (c.l >= QMAX || v[i].l <= c.l || v[i].t != c.t || !(ancestor (v[i], c.l) == c)) return false;
  for (int k = 0; k < NC; ++k) if (!covers (v, i, child (c, k))) return false;
  return true;
}
static bool complete (int nt, const Cells &v)
{
  for (auto &c : v) {
    if (c.l < 0 || c.l > QMAX) return false;
    for (int d = 0; d < D; ++d) if (c.x[d] < 0 || c.x[d] >= R || c.x[d] % len (c.l)) return false;
  }
  size_t i = 0;
  for (int t = 0; t < nt; ++t) if (!covers (v, i, root (t))) return false;
  return i == v.size ();
}
static void damaged_arrays (HostConn &hc, const Cells &L, int P, const std::vector<int> &g, bool wd)
{
  int nt = hc.m->nt;
  // all changes of one number of one element
  static const int64_t lev[] = {-1, 1, 2, 0x100, -0x100, QMAX + 1, 127, -127, 1 << 20, QMAX, INT32_MIN};
  std::vector<p4est_qcoord_t> flat;
  for (auto &c : L) { for (int d = 0; d < D; ++d) flat.push_back ((p4est_qcoord_t) c.x[d]); flat.push_back (c.l); }
  for (size_t k = 0; k < flat.size (); ++k) {
    int d = (int) (k % (D + 1));
    std::vector<int64_t> alt;
    int64_t old = flat[k];
    if (d == D) { for (auto v : lev) alt.push_back (v == QMAX + 1 || v == QMAX || v == 127 || v == INT32_MIN ? v : old + v); }
    else alt = {old + 1, old + len (L[k / (D + 1)].l), old - len (L[k / (D + 1)].l), R, -R, INT32_MIN, old ^ len (QMAX), old + R};
    for (int64_t a : alt) {
      if (!E.sub ()) continue;
      std::vector<p4est_qcoord_t> v = flat;
      v[k] = (p4est_qcoord_t) a;
      Cells N = L;
      Cell &c = N[k / (D + 1)];
      if (d == D) c.l = (int) std::max<int64_t> (-1, std::min<int64_t> (99, a)); else c.x[d] = v[k];
      bool want = complete (nt, N);
      E.describe ([=, m = hc.m->name] { return strf ("%s flat arrays of %s %s, number %zu changed to %lld", m.c_str (), str (L).c_str (), str (g).c_str (), k, (long long) a); });
      vp::Options op;
      op.leak_mpi = op.guard = true;
      E.state (); E.transition ();
      E.run (P, op, [&](int me) {
        rank_begin ();
        size_t n = (size_t) (g[me + 1] - g[me]);
        sc_array_t *q = sc_array_new_count (sizeof (p4est_qcoord_t), n * (D + 1)), *data = wd ? sc_array_new_count (8, n) : NULL;
        if (n) memcpy (q->array, &v[(size_t) g[me] * (D + 1)], n * (D + 1) * sizeof (p4est_qcoord_t));
        p4est_gloidx_t gfq[8], per[32];
        for (int i = 0; i <= P; ++i) gfq[i] = g[i];
        for (int t = 0; t <= nt; ++t) { per[t] = 0; for (auto &e : L) per[t] += e.t < t; }
        p4est_t *r = p4est_inflate_null (sc_MPI_COMM_WORLD, &hc.c, gfq, per, q, data, NULL);
        if (!want && r) fail ("inflate_null yields a forest from arrays that do not describe one");
        if (want && !r) fail ("inflate_null returns NULL for good arrays");
        if (r) p4est_destroy (r);
        sc_array_destroy (q);
        if (data) sc_array_destroy (data);
        rank_end ();
      });
    }
  }
}
#endif

static const char *tmp_name () { static std::string s; s = E.scratch + "/f"; return s.c_str (); }

void enumerate ()
{
  bool th = E.thorough;
  int rot = 0;
  SpaceOpt o;
  o.K1 = th ? D == 2 ? 4 : 2 : D == 2 ? 3 : 1; o.K4 = th ? 2 : 1; o.Kn = th ? 2 : 1;
  o.Lmax = 3;
  o.cap = th ? 60 : 8; o.twoK = th ? 1 : 0; o.twocap = 3;
  std::string file = tmp_name ();
  static const size_t sizes[] = {0, 1, 4, 8, 24, 3};
  auto roundtrip = [&](HostConn &hc, const Cells &L, int maxP, long cap, int maxQ) {
    int n = (int) L.size ();
    int ds0 = rot % 6, at = rot % 4 == 1 ? 5 : rot % 4 == 3 ? 16 : 0;
    ++rot;
    std::map<size_t, std::string> one;  // bytes written by one process without partition
    set_attr (hc, at);
    parts (L, 1, maxP, cap, [&](int P, const std::vector<int> &g) {
      ++rot;
      if (!E.sub ()) return;
      int k = rot;
      for (int sp = 0; sp < 2; ++sp) {
        Save s {P, g, sizes[ds0], (k >> 2) % 4 != 0, sp, k % 7};
        int api = sp && k % 3 == 0;
        size_t eff = s.sd ? s.ds : 0;
        E.describe ([=, m = hc.m->name] { return strf ("%s leaves %s saved on %s data size %zu save_data %d save_partition %d", m.c_str (), str (L).c_str (), str (g).c_str (), s.ds, s.sd, s.sp); });
        vp::Options op;
        op.leak_mpi = true;
        // memory holds other bytes in every execution
        op.fill = (unsigned char) (31 * k + 7 * sp);
        E.state (); E.transition ();
        unlink (file.c_str ());
        if (k % 4 == 1) spit (file, std::string (100000, 'x'));         // an older and longer file is replaced
        E.run (P, op, [&](int) { save_body (hc, L, s, file, api); });
        std::string b = slurp (file);
        // without partition: as written by one process, with or without partition
        if (!sp || P == 1) {
          if (!one.count (eff)) {
            Save s1 {1, {0, n}, eff, eff ? 1 : 0, 1, 0};
            std::string f1 = file + "1";
            op.fill = 0;
            E.run (1, op, [&](int) { save_body (hc, L, s1, f1, 0); });
            one[eff] = slurp (f1);
            unlink (f1.c_str ());
          }
          if (b != one[eff]) {
            size_t i = 0;
            while (i < b.size () && i < one[eff].size () && b[i] == one[eff][i]) ++i;
            E.bad ("file of %zu bytes differs from the file of %zu bytes that one process writes, first at byte %zu", b.size (), one[eff].size (), i);
          }
          E.validated ();
        }
        if (b.empty ()) { E.bad ("nothing was written"); continue; }
        std::string bt = b + trailer;
        int stored = sp ? P : 1;
        for (int Q = 1; Q <= maxQ; ++Q) for (int ap = 0; ap < 2; ++ap) {
          if (!ap && Q != stored) continue;
          for (int v = 0; v < 4; ++v) for (int lapi = 0; lapi < 4; ++lapi) {
            if (!th && (v + lapi + Q + k) % 3) continue;
            Load l;
            l.Q = Q; l.ap = ap; l.bh = v & 1; l.ld = v >> 1; l.api = lapi;
            // data that are not loaded may have any size
            l.ds = l.ld ? eff : k % 3 == 0 ? 0 : k % 3 == 1 ? eff : 40;
            if (lapi == 1) { if (ap || v & 1) continue; }
            if (lapi == 0 && (v & 1) && !th && k % 2) continue;
            l.h = ap ? uniform_cuts (n, Q) : sp ? g : std::vector<int> {0, n};
            E.describe ([=, m = hc.m->name] { return strf ("%s leaves %s saved on %s data size %zu save_data %d save_partition %d, loaded on %d processes data %zu load_data %d autopartition %d broadcasthead %d interface %d", m.c_str (), str (L).c_str (), str (g).c_str (), s.ds, s.sd, s.sp, Q, l.ds, l.ld, ap, l.bh, lapi); });
            if (lapi == 2) spit (file, bt); else if (lapi < 2) spit (file, k % 2 && lapi == 0 ? bt : b);
            E.transition ();
            E.run (Q, op, [&](int) { load_body (hc, L, file, &bt, l); });
          }
        }
        unlink (file.c_str ());
      }
      for (int wd = 0; wd < 2; ++wd) {
        size_t ds = sizes[k % 6];
        if (wd && !ds) continue;
        E.describe ([=, m = hc.m->name] { return strf ("%s flat arrays of %s %s data %zu %d", m.c_str (), str (L).c_str (), str (g).c_str (), ds, wd); });
        vp::Options op;
        op.leak_mpi = true;
        E.transition ();
        E.run (P, op, [&](int) { flat_body (hc, L, P, g, ds, wd); });
      }
    });
    set_attr (hc, 0);
  };
  spaces (o, [&](HostConn &hc, const Cells &L) { roundtrip (hc, L, th ? 4 : 3, th ? 10 : 4, th ? 5 : 3); });

  // ---- wrong use and damaged files end the program before there is a forest
  vp::huge_null = true;
  vp::memory_cap = 1L << 25;
  auto base = fds ();
  auto attempt = [&](int nt, const Load &l, const std::string &bytes, int must) {       // must: 1 fails, 0 either way, -1 succeeds
    static std::vector<Cells> got;
    static std::vector<std::vector<p4est_gloidx_t>> cuts;
    static std::vector<std::string> wrong;
    got.assign (l.Q, {}); cuts.assign (l.Q, {}); wrong.assign (l.Q, "");
    static int newnt;
    newnt = nt;
    vp::Options op;
    op.allow_abort = op.guard = true;
    E.transition ();
    auto out = E.once (l.Q, op, [&](int me) {
      rank_begin ();
      p4est_connectivity_t *c = NULL;
      p4est_t *p = do_load (file, &bytes, l, &c, false);
      if (!p) return;
      if (!c || !p4est_connectivity_is_valid (c)) wrong[me] = "coarse mesh is not valid";
      else {
        got[me] = leaves_of (p);
        cuts[me].assign (p->global_first_quadrant, p->global_first_quadrant + l.Q + 1);
        newnt = c->num_trees;
        vp::sync_point ();
        Cells all;
        std::vector<int> g {0};
        for (int r = 0; r < l.Q; ++r) { all.insert (all.end (), got[r].begin (), got[r].end ()); g.push_back ((int) all.size ()); }
#ifndef P4EST_ENABLE_DEBUG
        if (!complete (newnt, all)) wrong[me] = "the leaves are not a forest";
        else check_p4est (p, all, g, 0, "forest from a damaged file");
#endif
      }
      p4est_destroy (p);
      p4est_connectivity_destroy (c);
      rank_end ();
    });
    close_new (base);
    if (out.kind == vp::FAIL || out.kind == vp::DEADLOCK) E.bad ("%s on rank %d: %s", out.kind == vp::FAIL ? "failure" : "deadlock", out.rank, out.why.c_str ());
    else if (out.kind == vp::OK) {
      if (must == 1) E.bad ("a forest is returned");
      for (auto &w : wrong) if (!w.empty ()) E.bad ("a forest is returned, and %s", w.c_str ());
    }
    else if (must == -1) E.bad ("load aborts: %s", out.why.c_str ());
    return out.kind == vp::OK;
  };
  std::vector<std::shared_ptr<Conn>> ms;
#ifdef P4_TO_P8
  for (auto nm : {"unit", "twocubes", "rotwrap"}) ms.push_back (named (nm));
  ms.push_back (touching (2));
#else
  for (auto nm : {"unit", "corner", "moebius"}) ms.push_back (named (nm));
#endif
  for (auto m : ms) {
    HostConn hc (m);
    int at = m->nt == 2 ? 3 : 0;
    set_attr (hc, at);
    std::vector<Cells> fs = {uniform (m->nt, 0), split_at (uniform (m->nt, 0), 0)};
    if (th) fs.push_back (split_at (fs[1], 1));
    E.stage ("%s: wrong use, every truncation and changes of every byte of a file", m->name.c_str ());
    for (auto &L : fs) for (int P = 1; P <= 2; ++P) for (size_t ds : {(size_t) 0, (size_t) 5}) {
      if (!E.take ()) continue;
      int n = (int) L.size ();
      std::vector<int> g = P == 1 ? std::vector<int> {0, n} : std::vector<int> {0, (n + 1) / 2, n};
      Save s {P, g, ds, 1, 1, 0};
      E.describe ([=] { return strf ("%s leaves %s saved on %s data %zu", m->name.c_str (), str (L).c_str (), str (g).c_str (), ds); });
      E.run (P, vp::Options (), [&](int) { save_body (hc, L, s, file, 0); });
      std::string b = slurp (file);
      E.state ();
      // layout of the file
      size_t qb = (D + 1) * sizeof (p4est_qcoord_t) + ds, qat = b.size () - qb * n;
      size_t hat = 8 * ((size_t) 6 + P + m->nt);
      hat = qat - (hat + 31) / 32 * 32;
      auto D1 = [&](const Load &l, const std::string &w) { E.describe ([=] { return strf ("%s leaves %s saved on %s data %zu; %s; loaded on %d processes data %zu load_data %d autopartition %d broadcasthead %d interface %d", m->name.c_str (), str (L).c_str (), str (g).c_str (), ds, w.c_str (), l.Q, l.ds, l.ld, l.ap, l.bh, l.api); }); };
      auto all = [&](const std::string &bytes, const std::string &w, int need, int reach, int rotk, int thin) {
        // need: bytes that any reading needs are damaged; reach: data only
        spit (file, bytes);
        int k = 0;
        for (int Q = 1; Q <= 2; ++Q) for (int lapi = 0; lapi < 4; ++lapi) for (int ld = 0; ld < (ds ? 2 : 1); ++ld) {
          Load l;
          l.Q = Q; l.api = lapi; l.ld = ld; l.ds = ds; l.bh = (rotk + k) & 1;
          l.ap = lapi == 1 ? 0 : Q != P || ((rotk + k) >> 1 & 1);
          ++k;
          if (!th && (k + rotk) % thin) continue;
          if (lapi == 1 && Q != P) continue;
          D1 (l, w);
          attempt (m->nt, l, bytes, need || (reach && ld) ? 1 : 0);
        }
      };
      // wrong use
      for (int Q = 1; Q <= 3; ++Q) for (int lapi = 0; lapi < 4; ++lapi) for (int v = 0; v < 8; ++v) {
        Load l;
        l.Q = Q; l.api = lapi; l.bh = v & 1; l.ld = v >> 1 & 1; l.ap = v >> 2;
        if (lapi == 1) { if (l.bh) continue; l.ap = 0; }
        for (size_t lds : {(size_t) 0, (size_t) 4, (size_t) 5, (size_t) 6}) {
          if (!E.sub ()) continue;
          l.ds = lds;
          bool ok = (l.ap || Q == P) && (!l.ld || !lds || lds == ds);
          spit (file, b);
          D1 (l, "intact");
          attempt (m->nt, l, b, ok ? -1 : 1);
        }
      }
      if (E.sub ()) {
        unlink (file.c_str ());
        for (int Q = 1; Q <= 3; ++Q) for (int a = 0; a < 2; ++a) { Load l {Q, {}, 0, 0, 1, 1, a}; D1 (l, "file does not exist"); attempt (m->nt, l, b, 1); }
      }
      for (size_t k = 0; k < b.size (); ++k) {
        if (!E.sub ()) continue;
        // the last element's data are not read unless wanted
        all (b.substr (0, k), strf ("cut to %zu of %zu bytes", k, b.size ()), k < b.size () - ds, 1, (int) k, 3);
      }
      for (size_t k = 0; k < b.size (); ++k) {
        if (k >= qat && (k - qat) % qb >= (D + 1) * sizeof (p4est_qcoord_t) + 1) continue;       // data: one byte
        bool conn = k < hat;
        std::vector<int> xs = conn ? std::vector<int> {1, 0x40, 0xff} : std::vector<int> {1, 2, 0x80, 0xff};
        if (k >= 112 && k < 112 + 8 * hc.m->verts.size ()) xs = {0x40};       // coordinates
        if (th) xs = {1, 2, 4, 8, 16, 32, 64, 128, 255, 0x5a};
        for (int x : xs) {
          if (!E.sub ()) continue;
          std::string c = b;
          c[k] = (char) (c[k] ^ x);
          // format and sizes must be checked
          bool fixed = k >= hat && k < hat + 24;
          all (c, strf ("byte %zu of %zu (header at %zu, elements at %zu) changed by %02x", k, b.size (), hat, qat, x), fixed, 0, (int) (k + x), conn ? 6 : 4);
        }
      }
      unlink (file.c_str ());
    }
    set_attr (hc, 0);
  }
  vp::huge_null = false;
#ifndef P4EST_ENABLE_DEBUG
  for (auto m : ms) {
    HostConn hc (m);
    E.stage ("%s: flat arrays with one wrong number", m->name.c_str ());
    for (auto &L : std::vector<Cells> {uniform (m->nt, 0), split_at (uniform (m->nt, 0), 0), split_at (split_at (uniform (m->nt, 0), 0), 1)}) parts (L, 1, 3, th ? 20 : 3, [&](int P, const std::vector<int> &g) {
      if (!E.take ()) return;
      damaged_arrays (hc, L, P, g, P == 2);
    });
  }
#endif
}
