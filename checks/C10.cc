// C10 Partition-to-partition data transfer delivers every payload to the new owner
#include "ref/spaces.hh"
#ifdef P4_TO_P8
#include <p8est_search.h>
#else
#include <p4est_search.h>
#endif
using namespace br;

typedef std::vector<unsigned char> Bytes;
typedef std::vector<p4est_gloidx_t> Gfq;
static const unsigned char PAT = 0xB7;

// a transfer to run: kind 0 fixed, 1 custom, 2 items
struct Tr { int kind; size_t size; bool back, split, nulls; };
static unsigned char byte_of (int tr, int elem, size_t k) { return (unsigned char) (tr * 67 + elem * 13 + k * 5 + 1); }

struct Run
{
  Tr t;
  int id;
  const std::vector<int> *from, *to;
  Gfq gf, gt;
  std::vector<int> cf, ct;              // counts per local element
  Bytes src, dst, want, srccopy;
  p4est_transfer_context_t *x = nullptr;
};

static void body (const std::vector<int> &g, const std::vector<int> &h, const std::vector<int> &cnt, const std::vector<Tr> &ts, int order, bool ask)
{
  rank_begin ();
  int me = vp::me ();
  std::vector<Run> rs (ts.size ());
  auto prep = [&](int k) {
    Run &r = rs[k];
    r.t = ts[k];
    r.id = k + 1;
    r.from = r.t.back ? &h : &g;
    r.to = r.t.back ? &g : &h;
    r.gf.assign (r.from->begin (), r.from->end ());
    r.gt.assign (r.to->begin (), r.to->end ());
    auto fill = [&](const std::vector<int> &c, std::vector<int> &n, Bytes &b) {
      for (int i = c[me]; i < c[me + 1]; ++i) {
        int q = r.t.kind == 0 ? 1 : cnt[(i + k) % cnt.size ()];
        size_t by = r.t.kind == 1 ? q : (size_t) q * r.t.size;
        n.push_back (q);
        for (size_t j = 0; j < by; ++j) b.push_back (byte_of (r.id, i, j));
      }
    };
    fill (*r.from, r.cf, r.src);
    fill (*r.to, r.ct, r.want);
    if (ask && r.t.kind) {
      // the receiver learns the sizes by a transfer
      std::vector<int> got (r.ct.size () + 1, -7);
      p4est_transfer_fixed (r.gt.data (), r.gf.data (), sc_MPI_COMM_WORLD, 100 + k, got.data (), r.cf.empty () ? NULL : r.cf.data (), sizeof (int));
      if (got.back () != -7) fail ("transfer of sizes writes behind the end");
      got.pop_back ();
      if (got != r.ct) fail ("transfer of sizes: got %s expected %s", str (got).c_str (), str (r.ct).c_str ());
    }
    r.dst.assign (r.want.size () + 9, PAT);
    if (r.t.kind == 0 && r.t.size == 0) r.want.clear ();
    r.src.insert (r.src.end (), 5, 0x11);
    r.srccopy = r.src;
  };
  auto verify = [&](Run &r, const char *w) {
    for (size_t i = 0; i < r.dst.size (); ++i) {
      unsigned char e = i < r.want.size () ? r.want[i] : PAT;
      if (r.dst[i] != e) fail ("%s: kind %d size %zu%s: byte %zu of %zu is %d expected %d", w, r.t.kind, r.t.size, r.t.back ? " back" : "", i, r.want.size (), r.dst[i], e);
    }
    if (r.src != r.srccopy) fail ("%s: source data modified", w);
  };
  auto begin = [&](int k) {
    prep (k);
    Run &r = rs[k];
    void *d = r.dst.data ();
    const void *s = r.src.data ();
    const int *cs = r.cf.data (), *cd = r.ct.data ();
    if (r.t.nulls) {
      // pointers that need not be valid
      if (r.want.empty ()) d = NULL;
      if (r.src.size () == 5) s = NULL;
      if (r.cf.empty ()) cs = NULL;
      if (r.ct.empty ()) cd = NULL;
    }
    auto gt = r.gt.data (), gf = r.gf.data ();
    int tag = 10 + k;
    if (r.t.kind == 0) { if (r.t.split) r.x = p4est_transfer_fixed_begin (gt, gf, sc_MPI_COMM_WORLD, tag, d, s, r.t.size); else p4est_transfer_fixed (gt, gf, sc_MPI_COMM_WORLD, tag, d, s, r.t.size); }
    else if (r.t.kind == 1) { if (r.t.split) r.x = p4est_transfer_custom_begin (gt, gf, sc_MPI_COMM_WORLD, tag, d, cd, s, cs); else p4est_transfer_custom (gt, gf, sc_MPI_COMM_WORLD, tag, d, cd, s, cs); }
    else { if (r.t.split) r.x = p4est_transfer_items_begin (gt, gf, sc_MPI_COMM_WORLD, tag, d, cd, s, cs, r.t.size); else p4est_transfer_items (gt, gf, sc_MPI_COMM_WORLD, tag, d, cd, s, cs, r.t.size); }
    if (r.t.split) { if (!r.x) fail ("begin returns NULL"); }
    else verify (r, "transfer");
  };
  auto end = [&](int k) {
    Run &r = rs[k];
    if (!r.t.split) return;
    if (order == 2) p4est_transfer_end (r.x);
    else if (r.t.kind == 0) p4est_transfer_fixed_end (r.x);
    else if (r.t.kind == 1) p4est_transfer_custom_end (r.x);
    else p4est_transfer_items_end (r.x);
    verify (r, "split transfer");
  };
  int n = (int) ts.size ();
  if (order == 0) for (int k = 0; k < n; ++k) { begin (k); end (k); }
  else {
    for (int k = 0; k < n; ++k) begin (k);
    if (order == 1) for (int k = 0; k < n; ++k) end (k);
    else for (int k = n - 1; k >= 0; --k) end (k);
  }
  for (auto &r : rs) verify (r, "at the end");
  rank_end ();
}

// lookups in arbitrary sorted arrays
static void lookup (const Gfq &a)
{
  rank_begin ();
  int n = (int) a.size ();
  std::set<p4est_gloidx_t> T;
  for (auto v : a) for (int d = -1; d <= 1; ++d) T.insert (v + d);
  if (n >= 2) for (auto t : T) if (a[0] <= t && t < a[n - 1]) {
    int r = p4est_bsearch_partition (t, a.data (), n - 1);
    if (r < 0 || r >= n - 1 || !(a[r] <= t && t < a[r + 1])) fail ("p4est_bsearch_partition: target %lld gives %d", (long long) t, r);
  }
  for (auto b : T) for (auto e : T) if (b <= e && e <= a[n - 1]) {
    p4est_gloidx_t x = -5, y = -5;
    Gfq c = a;
    p4est_find_partition (n, c.data (), b, e, &x, &y);
    auto first = [&](p4est_gloidx_t v) { int i = 0; while (a[i] < v) ++i; return i; };
    if (x != first (b) || y != first (e)) fail ("p4est_find_partition: [%lld,%lld) gives %lld %lld expected %d %d", (long long) b, (long long) e, (long long) x, (long long) y, first (b), first (e));
    if (c != a) fail ("p4est_find_partition modifies the array");
  }
}

void enumerate ()
{
  bool th = E.thorough;
  static const size_t sz[] = {1, 0, 3, 8, 17};
  static const int cv[] = {0, 1, 3, 2};
  int rot = 0;
  for (int P = 1; P <= (th ? 5 : 4); ++P) {
    int N = P <= 3 ? 6 : P == 4 ? (th ? 6 : 5) : 5;
    E.stage ("all pairs of partitions of <= %d elements on %d processes", N, P);
    for (int n = 0; n <= N; ++n) {
      std::vector<std::vector<int>> ps;
      partitions (n, P, [&](const std::vector<int> &g) { ps.push_back (g); });
      for (auto &g : ps) {
        if (!E.take ()) continue;
        E.state ();
        for (auto &h : ps) {
          // all count patterns over 0, 1, 3 where affordable
          int np = 1;
          for (int i = 0; i < n; ++i) np *= 3;
          int step = np * (long) ps.size () * ps.size () > (th ? 400000 : 60000) ? std::max (1, (int) (np * (double) ps.size () * ps.size () / (th ? 400000 : 60000))) : 1;
          for (int pat = step > 1 ? rot % step : 0; pat < np; pat += step) {
            ++rot;
            if (!E.sub ()) continue;
            std::vector<int> cnt;
            for (int i = 0, q = pat; i < n; ++i, q /= 3) cnt.push_back (cv[q % 3]);
            if (cnt.empty ()) cnt.push_back (0);
            std::vector<Tr> ts;
            int first = rot % 3;
            for (int k = 0; k < 3; ++k) ts.push_back ({(first + k) % 3, sz[(rot / 3 + k) % 5], (rot >> k) % 5 == 0, (rot + k) % 4 != 0, (rot / 2 + k) % 2 == 0});
            int order = rot % 4 == 3 ? 1 : rot % 3;
            bool ask = rot % 3 == 0;
            vp::Options op;
            op.leak_mpi = true;
            op.sync_send = (rot / 2) % 2;
            // a blocking transfer with synchronous sends while others are pending is fine: all calls are in the same order
            op.choices = P > 1 && rot % (th ? 3 : 7) == 0;
            E.maxexec = th ? 300 : 40;
            E.describe ([=, &g, &h] { std::string d; for (auto &t : ts) d += strf (" kind %d size %zu%s%s", t.kind, t.size, t.back ? " back" : "", t.split ? " split" : ""); return strf ("partition %s -> %s counts %s order %d%s", str (g).c_str (), str (h).c_str (), str (cnt).c_str (), order, d.c_str ()); });
            E.transition (3);
            E.validated ();
            E.run (P, op, [&](int) { body (g, h, cnt, ts, order, ask); });
          }
        }
      }
    }
  }
  E.stage ("lookups in sorted arrays");
  {
    static const p4est_gloidx_t V[] = {0, 1, 2, 5, 2147483647LL, 2147483648LL, 1LL << 40, (1LL << 62) + 3};
    int nv = 8;
    for (int len = 1; len <= (th ? 7 : 6); ++len) {
      std::vector<int> ix (len, 0);
      for (;;) {
        if (E.take ()) {
          Gfq a;
          for (int i : ix) a.push_back (V[i]);
          E.state ();
          if (E.sub ()) {
            E.describe ([=] { std::string s; for (auto v : a) s += strf (" %lld", (long long) v); return "array" + s; });
            E.transition ();
            E.validated ();
            E.run (1, vp::Options (), [&](int) { lookup (a); });
          }
        }
        int k = len - 1;
        while (k >= 0 && ix[k] == nv - 1) --k;
        if (k < 0) break;
        int v = ix[k] + 1;
        for (; k < len; ++k) ix[k] = v;
      }
    }
  }
}
