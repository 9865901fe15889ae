#include "mpisim.hh"
#include <mpi.h>
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/lsan_interface.h>
#endif

// ------------------------------------------------------------------ handles
struct ompi_communicator_t
{
  int id;
  std::vector<int> members;     // world ranks
  std::vector<long> collseq;    // per member: next collective sequence number
  std::vector<char> alive;      // per member: handle not yet freed
  std::map<std::pair<int,int>, void *> attr;    // (member, keyval)
  struct Coll;
  std::map<long, Coll *> colls;
  int rank_of (int world) const
  {
    for (size_t i = 0; i < members.size (); ++i) if (members[i] == world) return (int) i;
    return -1;
  }
};
struct ompi_group_t { std::vector<int> members; };
enum TK { T_CHAR, T_SHORT, T_INT, T_LONG, T_LL, T_UCHAR, T_USHORT, T_UINT, T_ULONG, T_ULL, T_FLOAT, T_DOUBLE, T_LDOUBLE, T_BYTE, T_2INT, T_DERIVED };
struct ompi_datatype_t { TK k; int size; };
enum OK_ { O_SUM, O_MAX, O_MIN, O_LAND, O_LOR, O_BAND, O_BOR, O_PROD, O_USER };
struct ompi_op_t { OK_ k; MPI_User_function *fn; };
struct ompi_request_t;
struct ompi_win_t;
struct ompi_file_t;
struct ompi_info_t { int dummy; };

struct ompi_predefined_datatype_t { ompi_datatype_t d; };
struct ompi_predefined_op_t { ompi_op_t o; };
struct ompi_predefined_communicator_t { long pad; };
struct ompi_predefined_group_t { long pad; };
struct ompi_predefined_request_t { long pad; };
struct ompi_predefined_info_t { long pad; };
struct ompi_predefined_win_t { long pad; };
struct ompi_predefined_file_t { long pad; };
struct ompi_predefined_errhandler_t { long pad; };

extern "C" {
#define DT(n,k,s) ompi_predefined_datatype_t n = {{k, s}};
DT (ompi_mpi_char, T_CHAR, 1) DT (ompi_mpi_signed_char, T_CHAR, 1) DT (ompi_mpi_unsigned_char, T_UCHAR, 1) DT (ompi_mpi_byte, T_BYTE, 1)
DT (ompi_mpi_short, T_SHORT, 2) DT (ompi_mpi_unsigned_short, T_USHORT, 2) DT (ompi_mpi_int, T_INT, 4) DT (ompi_mpi_unsigned, T_UINT, 4)
DT (ompi_mpi_long, T_LONG, 8) DT (ompi_mpi_unsigned_long, T_ULONG, 8) DT (ompi_mpi_long_long_int, T_LL, 8) DT (ompi_mpi_unsigned_long_long, T_ULL, 8)
DT (ompi_mpi_float, T_FLOAT, 4) DT (ompi_mpi_double, T_DOUBLE, 8) DT (ompi_mpi_long_double, T_LDOUBLE, 16) DT (ompi_mpi_2int, T_2INT, 8)
DT (ompi_mpi_int8_t, T_CHAR, 1) DT (ompi_mpi_int16_t, T_SHORT, 2) DT (ompi_mpi_int32_t, T_INT, 4) DT (ompi_mpi_int64_t, T_LONG, 8)
DT (ompi_mpi_uint8_t, T_UCHAR, 1) DT (ompi_mpi_uint16_t, T_USHORT, 2) DT (ompi_mpi_uint32_t, T_UINT, 4) DT (ompi_mpi_uint64_t, T_ULONG, 8)
DT (ompi_mpi_aint, T_LONG, 8) DT (ompi_mpi_offset, T_LL, 8) DT (ompi_mpi_datatype_null, T_BYTE, 0)
#define OP(n,k) ompi_predefined_op_t n = {{k, nullptr}};
OP (ompi_mpi_op_sum, O_SUM) OP (ompi_mpi_op_max, O_MAX) OP (ompi_mpi_op_min, O_MIN) OP (ompi_mpi_op_land, O_LAND) OP (ompi_mpi_op_lor, O_LOR)
OP (ompi_mpi_op_band, O_BAND) OP (ompi_mpi_op_bor, O_BOR) OP (ompi_mpi_op_prod, O_PROD) OP (ompi_mpi_op_null, O_SUM)
ompi_predefined_communicator_t ompi_mpi_comm_world, ompi_mpi_comm_self, ompi_mpi_comm_null;
ompi_predefined_group_t ompi_mpi_group_null, ompi_mpi_group_empty;
ompi_predefined_request_t ompi_request_null;
ompi_predefined_info_t ompi_mpi_info_null;
ompi_predefined_win_t ompi_mpi_win_null;
ompi_predefined_file_t ompi_mpi_file_null;
ompi_predefined_errhandler_t ompi_mpi_errors_return, ompi_mpi_errors_are_fatal, ompi_mpi_errhandler_null;
// sections with the static state of p4est and libsc
extern char __start_vp_data[] __attribute__((weak)), __stop_vp_data[] __attribute__((weak));
extern char __start_vp_bss[] __attribute__((weak)), __stop_vp_bss[] __attribute__((weak));
void vp_switch (void **save_sp, void *load_sp);
}

asm (R"(
.text
.globl vp_switch
.type vp_switch,@function
vp_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vp_switch,.-vp_switch
)");

namespace vp
{
int node_size = 0;
bool verbose = false;
IoFault iofault;
long memory_cap = 1L << 29;
bool huge_null = false;

struct Msg
{
  int comm, src, dst, tag;      // src/dst: comm ranks
  int wsrc, wdst;
  std::vector<char> data;
  bool matched = false;         // by a posted receive
  ompi_request_t *sreq = nullptr;
};

static const size_t STACK = 1 << 20;

struct Rank
{
  int id;
  void *sp = nullptr;
  char *stack = nullptr;
  bool started = false, finished = false, blocked = false;
  std::function<bool()> ready;          // when blocked deterministically
  // options at a fence: number of options and how to take one
  std::function<int()> nopt;
  std::function<void(int)> take;
  const char *where = "";
  bool chosen = false;
  bool polling = false;
  std::vector<char> image;
  std::vector<Msg *> inbox;             // unmatched messages in arrival order
  std::vector<ompi_request_t *> posted; // unmatched posted receives
  long live = 0;
  ompi_communicator_t *self = nullptr;
#ifdef VP_ASAN
  void *fake = nullptr;
#endif
};

struct World
{
  int P;
  Options opt;
  Trace *tr;
  size_t cpos = 0;
  const std::function<void(int)> *body;
  std::vector<Rank> rk;
  int cur = -1;
  Outcome out;
  bool dead = false;
  void *host_sp = nullptr;
  std::vector<ompi_communicator_t *> comms;
  std::set<ompi_request_t *> reqs;
  std::set<Msg *> msgs;
  std::set<ompi_group_t *> groups;
  std::set<ompi_datatype_t *> types;
  std::set<ompi_op_t *> ops;
  std::set<ompi_win_t *> wins;
  std::set<ompi_file_t *> files;
  int nextcomm = 0;
  long spin = 0;
  int syncwait = 0;
  long syncgen = 0;
#ifdef VP_ASAN
  void *host_fake = nullptr;
  const void *host_bottom = nullptr;
  size_t host_size = 0;
#endif
};
static World *W = nullptr;

// ------------------------------------------------------- static state images
static inline void rawcopy (void *d, const void *s, size_t n)
{
  asm volatile ("rep movsb" : "+D" (d), "+S" (s), "+c" (n) : : "memory");
}
static size_t dsz () { return __start_vp_data ? (size_t) (__stop_vp_data - __start_vp_data) : 0; }
static size_t bsz () { return __start_vp_bss ? (size_t) (__stop_vp_bss - __start_vp_bss) : 0; }
static std::vector<char> pristine;
static void img_save (std::vector<char> &v)
{
  rawcopy (v.data (), __start_vp_data, dsz ());
  rawcopy (v.data () + dsz (), __start_vp_bss, bsz ());
}
static void img_load (const std::vector<char> &v)
{
  rawcopy (__start_vp_data, v.data (), dsz ());
  rawcopy (__start_vp_bss, v.data () + dsz (), bsz ());
}

// ------------------------------------------------------- switching
static std::vector<char *> stackpool;
static char *get_stack ()
{
  if (!stackpool.empty ()) { char *s = stackpool.back (); stackpool.pop_back (); return s; }
  char *p = (char *) mmap (nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror ("mmap"); _exit (99); }
  mprotect (p, 4096, PROT_NONE);
  return p + 4096;
}

static void to_host ()
{
  Rank &r = W->rk[W->cur];
  img_save (r.image);
#ifdef VP_ASAN
  __sanitizer_start_switch_fiber (r.finished || W->dead ? nullptr : &r.fake, W->host_bottom, W->host_size);
#endif
  vp_switch (&r.sp, W->host_sp);
#ifdef VP_ASAN
  __sanitizer_finish_switch_fiber (r.fake, &W->host_bottom, &W->host_size);
#endif
}

extern "C" void vp_entry ();
void vp_entry_body ()
{
#ifdef VP_ASAN
  __sanitizer_finish_switch_fiber (nullptr, &W->host_bottom, &W->host_size);
#endif
  (*W->body) (W->cur);
  Rank &r = W->rk[W->cur];
  r.finished = true;
  to_host ();
  _exit (98);
}
extern "C" void vp_entry () { vp_entry_body (); }

static void to_rank (int i)
{
  Rank &r = W->rk[i];
  W->cur = i;
  ++W->out.switches;
  if (!r.started) {
    r.started = true;
    r.stack = get_stack ();
    char *top = r.stack + STACK;
    void **sp = (void **) top;
    *--sp = nullptr;                    // alignment / fake return address
    *--sp = (void *) vp_entry;
    for (int k = 0; k < 6; ++k) *--sp = nullptr;
    r.sp = sp;
    r.image = pristine;
  }
  img_load (r.image);
#ifdef VP_ASAN
  __sanitizer_start_switch_fiber (&W->host_fake, r.stack, STACK);
#endif
  vp_switch (&W->host_sp, r.sp);
#ifdef VP_ASAN
  __sanitizer_finish_switch_fiber (W->host_fake, nullptr, nullptr);
#endif
  W->cur = -1;
}

bool in_rank () { return W && W->cur >= 0; }
int me () { return W->cur; }

static void die (Kind k, const std::string &why)
{
  W->out.kind = k;
  W->out.rank = W->cur;
  W->out.why = why;
  W->dead = true;
  if (verbose) fprintf (stderr, "[rank %d] %s\n", W->cur, why.c_str ());
  if (W->cur >= 0) { to_host (); _exit (97); }
}

void fail (const char *fmt, ...)
{
  char b[4096];
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  if (!in_rank ()) { fprintf (stderr, "vp::fail outside rank: %s\n", b); _exit (96); }
  die (FAIL, b);
  _exit (97);
}

int choose (int n, const char *tag)
{
  if (n <= 1) return 0;
  Trace &t = *W->tr;
  int c = 0;
  if (W->cpos < t.pre.size ()) {
    c = t.pre[W->cpos];
    if (c >= n) { fprintf (stderr, "replay divergence at choice %zu: %d of %d (%s)\n", W->cpos, c, n, tag); _exit (95); }
  }
  ++W->cpos;
  t.rec.push_back ({c, n});
  t.tag.push_back (tag);
  return c;
}

// block until ready() holds
static void block_on (const char *where, std::function<bool()> ready)
{
  Rank &r = W->rk[W->cur];
  if (ready ()) return;
  r.blocked = true;
  r.where = where;
  r.ready = std::move (ready);
  r.nopt = nullptr;
  to_host ();
  r.ready = nullptr;
}
// block until the scheduler, at a state where nobody can run, takes an option
static int block_choice (const char *where, bool polling, std::function<int()> nopt)
{
  Rank &r = W->rk[W->cur];
  int res = -1;
  r.blocked = true;
  r.where = where;
  r.ready = nullptr;
  r.nopt = std::move (nopt);
  r.take = [&res](int o) { res = o; };
  r.polling = polling;
  to_host ();
  r.polling = false;
  r.nopt = nullptr;
  r.take = nullptr;
  return res;
}

void sync_point ()
{
  long g = W->syncgen;
  if (++W->syncwait == W->P) { W->syncwait = 0; ++W->syncgen; return; }
  block_on ("harness sync", [g] { return W->syncgen != g; });
}

static std::string describe_blocked ()
{
  std::string s;
  for (auto &r : W->rk) {
    char b[256];
    snprintf (b, sizeof b, " [%d]%s", r.id, r.finished ? "finished" : r.where);
    s += b;
  }
  return s;
}

static void mem_begin ();
static void mem_end ();
static void finish_checks ();
static ompi_communicator_t *new_comm (const std::vector<int> &m)
{
  auto *c = new ompi_communicator_t ();
  c->id = W->nextcomm++;
  c->members = m;
  c->collseq.assign (m.size (), 0);
  c->alive.assign (m.size (), 1);
  W->comms.push_back (c);
  return c;
}
static void cleanup ();
static void reset_keyvals ();

Outcome run_world (int P, const Options &opt, Trace &tr, const std::function<void(int)> &body)
{
  if (pristine.empty ()) {
    pristine.resize (dsz () + bsz () + 1);
    img_save (pristine);
  }
  World w;
  w.P = P;
  w.opt = opt;
  w.tr = &tr;
  w.body = &body;
  tr.rec.clear ();
  tr.tag.clear ();
  W = &w;
  w.rk.resize (P);
  std::vector<int> all;
  for (int i = 0; i < P; ++i) { w.rk[i].id = i; all.push_back (i); }
  mem_begin ();
  reset_keyvals ();
  new_comm (all);                       // world
  for (int i = 0; i < P; ++i) w.rk[i].self = new_comm ({i});
  for (;;) {
    bool progress = false, alldone = true;
    for (int i = 0; i < P && !w.dead; ++i) {
      Rank &r = w.rk[i];
      if (r.finished) continue;
      alldone = false;
      if (r.blocked && !(r.ready && r.ready ())) continue;
      r.blocked = false;
      to_rank (i);
      progress = true;
      w.spin = 0;
    }
    if (w.dead || alldone) break;
    if (progress) continue;
    // fence: nobody can run deterministically
    struct Opt { int rank, o; };
    std::vector<Opt> os;
    for (int i = 0; i < P; ++i) {
      Rank &r = w.rk[i];
      if (!r.finished && r.blocked && r.nopt && !r.polling) {
        int n = r.nopt ();
        for (int o = 0; o < n; ++o) os.push_back ({i, o});
      }
    }
    if (os.empty ()) {
      // polls: option index 0 = true outcome if available, else false
      int best = -1;
      bool truth = false;
      for (int i = 0; i < P; ++i) {
        Rank &r = w.rk[i];
        if (!r.finished && r.blocked && r.polling && r.nopt () > 0) { best = i; truth = true; break; }
      }
      if (best < 0) {
        // give every poller a false answer in turn; give up when nothing changes
        if (++w.spin <= 3 * P + 3) {
          bool any = false;
          for (int i = 0; i < P && !w.dead; ++i) {
            Rank &r = w.rk[i];
            if (!r.finished && r.blocked && r.polling) {
              any = true;
              r.take (-1);
              r.blocked = false;
              long sp = w.spin;
              to_rank (i);
              w.spin = sp;
            }
          }
          if (any) { if (w.dead) break; continue; }
        }
        w.cur = -1;
        die (DEADLOCK, "deadlock:" + describe_blocked ());
        break;
      }
      Rank &r = w.rk[best];
      (void) truth;
      r.take (0);
      r.blocked = false;
      to_rank (best);
      w.spin = 0;
      continue;
    }
    int c = opt.choices ? choose ((int) os.size (), w.rk[os[0].rank].where) : 0;
    Rank &r = w.rk[os[c].rank];
    r.take (os[c].o);
    r.blocked = false;
    to_rank (os[c].rank);
    w.spin = 0;
  }
  if (!w.dead) finish_checks ();
  if (!w.dead && w.cpos < tr.pre.size ()) { fprintf (stderr, "replay divergence: only %zu choices of %zu\n", w.cpos, tr.pre.size ()); _exit (95); }
  cleanup ();
  for (auto &r : w.rk) if (r.stack) stackpool.push_back (r.stack);
  mem_end ();
  img_load (pristine);
  W = nullptr;
  return w.out;
}

// ------------------------------------------------------------------ memory
struct Hdr { Hdr *next, *prev; size_t size; int rank; unsigned magic; };
static const unsigned LIVE = 0x11fe11fe, DEAD = 0xdeadf00d;
static const size_t TAIL = 16;
static Hdr live_head, quar_head;
static long membytes = 0;
static void lst_init (Hdr &h) { h.next = h.prev = &h; }
static void lst_add (Hdr &h, Hdr *x) { x->next = h.next; x->prev = &h; h.next->prev = x; h.next = x; }
static void lst_del (Hdr *x) { x->prev->next = x->next; x->next->prev = x->prev; }

static void mem_begin ()
{
  lst_init (live_head);
  lst_init (quar_head);
  membytes = 0;
}
#ifdef VP_ASAN
static std::map<void *, std::pair<size_t,int>> amap;
#endif
static const size_t PAGE = 4096;
static std::map<size_t, std::vector<char *>> guard_pool;        // regions by length
static Hdr *guard_new (size_t n)
{
  size_t len = (sizeof (Hdr) + n + PAGE - 1) / PAGE * PAGE;
  auto &v = guard_pool[len];
  char *b;
  if (!v.empty ()) { b = v.back (); v.pop_back (); }
  else {
    b = (char *) mmap (nullptr, len + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) return nullptr;
    mprotect (b + len, PAGE, PROT_NONE);
  }
  return (Hdr *) (b + len - n) - 1;
}
static void guard_free (Hdr *h)
{
  char *e = (char *) (h + 1) + h->size;
  size_t len = (sizeof (Hdr) + h->size + PAGE - 1) / PAGE * PAGE;
  if (len > 16 * PAGE) { munmap (e - len, len + PAGE); return; }
  memset (h + 1, 0xDD, h->size);
  guard_pool[len].push_back (e - len);
}
static void drop (Hdr &h)
{
  for (Hdr *x = h.next; x != &h;) { Hdr *n = x->next; if (W->opt.guard) guard_free (x); else free (x); x = n; }
  lst_init (h);
}
static void mem_end ()
{
#ifdef VP_ASAN
  for (auto &p : amap) free (p.first);
  amap.clear ();
#else
  // canaries of blocks that were never freed
  drop (live_head);
  drop (quar_head);
#endif
}
long live_blocks (int rank) { return W->rk[rank].live; }
static bool canary_ok (Hdr *h)
{
  if (W->opt.guard) return true;
  unsigned char *t = (unsigned char *) (h + 1) + h->size;
  for (size_t i = 0; i < TAIL; ++i) if (t[i] != 0xC7) return false;
  return true;
}
}

using namespace vp;

extern "C" {
void *vp_malloc (size_t n)
{
  if (!in_rank ()) return malloc (n);
  ++W->out.allocs;
#ifdef VP_ASAN
  if (n > (huge_null ? (size_t) memory_cap : 1UL << 34)) { errno = ENOMEM; return nullptr; }
  void *p = malloc (n);
  if (p) { memset (p, W->opt.fill, n); amap[p] = {n, W->cur}; ++W->rk[W->cur].live; }
  return p;
#else
  if (huge_null && (n > (1UL << 40) || membytes + (long) n > memory_cap)) { errno = ENOMEM; return nullptr; }
  membytes += (long) n;
  if (n > (1UL << 40) || membytes > memory_cap) { vp::fail ("memory: allocation of %zu bytes (total %ld) in one small execution", n, membytes); }
  Hdr *h = W->opt.guard ? guard_new (n) : (Hdr *) malloc (sizeof (Hdr) + n + TAIL);
  if (!h) return nullptr;
  h->size = n; h->rank = W->cur; h->magic = LIVE;
  lst_add (live_head, h);
  memset (h + 1, W->opt.fill, n);
  if (!W->opt.guard) memset ((char *) (h + 1) + n, 0xC7, TAIL);
  ++W->rk[W->cur].live;
  return h + 1;
#endif
}
void vp_free (void *p)
{
  if (!p) return;
  if (!in_rank ()) { free (p); return; }
#ifdef VP_ASAN
  auto it = amap.find (p);
  if (it == amap.end ()) vp::fail ("memory: free of a pointer that is not a live allocation");
  --W->rk[it->second.second].live;
  amap.erase (it);
  free (p);
#else
  Hdr *h = (Hdr *) p - 1;
  if (h->magic == DEAD) vp::fail ("memory: double free");
  if (h->magic != LIVE) vp::fail ("memory: free of an invalid pointer or header overwritten");
  if (!canary_ok (h)) vp::fail ("memory: write beyond the end of a block of %zu bytes", h->size);
  h->magic = DEAD;
  lst_del (h);
  --W->rk[h->rank].live;
  if (W->opt.guard) { membytes -= (long) h->size; guard_free (h); return; }
  lst_add (quar_head, h);
  memset (p, 0xDD, h->size);
  if (membytes > (memory_cap >> 1)) { // bounded quarantine
    Hdr *x = quar_head.prev;
    while (x != &quar_head && membytes > (memory_cap >> 2)) { Hdr *q = x->prev; membytes -= (long) x->size; lst_del (x); free (x); x = q; }
  }
#endif
}
void *vp_calloc (size_t a, size_t b)
{
  if (!in_rank ()) return calloc (a, b);
  if (b && a > (size_t) -1 / b) return nullptr;
  void *p = vp_malloc (a * b);
  if (p) memset (p, 0, a * b);
  return p;
}
void *vp_realloc (void *p, size_t n)
{
  if (!in_rank ()) return realloc (p, n);
  if (!p) return vp_malloc (n);
  if (!n) { vp_free (p); return nullptr; }
#ifdef VP_ASAN
  auto it = amap.find (p);
  size_t old = it == amap.end () ? 0 : it->second.first;
#else
  size_t old = ((Hdr *) p - 1)->size;
#endif
  void *q = vp_malloc (n);
  memcpy (q, p, old < n ? old : n);
  vp_free (p);
  return q;
}
int vp_posix_memalign (void **out, size_t, size_t n) { *out = vp_malloc (n); return *out ? 0 : ENOMEM; }
void vp_abort (void) { if (in_rank ()) die (ABORT, "abort() called"); abort (); }
void vp_exit (int c) { if (in_rank ()) die (ABORT, "exit() called"); exit (c); }
unsigned vp_sleep (unsigned) { return 0; }

// ------------------------------------------------------------------ stdio
static bool io_hit (bool kind)
{
  if (!in_rank () || !kind) return false;
  if (iofault.rank >= 0 && iofault.rank != W->cur) return false;
  return iofault.ops++ == iofault.fail_at;
}
FILE *vp_fopen (const char *n, const char *m)
{
  if (io_hit (iofault.opens)) { errno = EACCES; return nullptr; }
  return fopen (n, m);
}
size_t vp_fwrite (const void *p, size_t s, size_t n, FILE *f)
{
  if (f != stdout && f != stderr && io_hit (iofault.writes)) {
    errno = ENOSPC;
    if (iofault.mode == 1 && s * n > 1) fwrite (p, 1, s * n / 2, f);
    return iofault.mode == 1 && s == 1 ? n / 2 : 0;
  }
  return fwrite (p, s, n, f);
}
size_t vp_fread (void *p, size_t s, size_t n, FILE *f)
{
  if (io_hit (iofault.reads)) { errno = EIO; return 0; }
  return fread (p, s, n, f);
}
int vp_fclose (FILE *f)
{
  if (io_hit (iofault.closes)) { fclose (f); errno = ENOSPC; return EOF; }
  return fclose (f);
}
int vp_fflush (FILE *f)
{
  if (f && f != stdout && f != stderr && io_hit (iofault.writes)) { errno = ENOSPC; return EOF; }
  return fflush (f);
}
}

// ================================================================== MPI
struct ompi_request_t
{
  enum K { SEND, RECV, COLL } k;
  int owner;                    // world rank
  ompi_communicator_t *comm;
  void *buf;
  size_t cap;
  int src, tag;                 // comm rank, wanted
  Msg *msg = nullptr;           // matched / sent message
  std::vector<char> orig;       // receive: content before posting
  long collseq = -1;
  bool (*colldone) (ompi_request_t *) = nullptr;
};
#define POISON (W->opt.poison)

static ompi_communicator_t *CM (MPI_Comm c)
{
  if (!in_rank ()) { fprintf (stderr, "MPI outside rank\n"); abort (); }
  if ((void *) c == (void *) &ompi_mpi_comm_world) return W->comms[0];
  if ((void *) c == (void *) &ompi_mpi_comm_self) return W->rk[W->cur].self;
  if ((void *) c == (void *) &ompi_mpi_comm_null || !c) vp::fail ("MPI: operation on MPI_COMM_NULL");
  bool known = false;
  for (auto *x : W->comms) if (x == c) known = true;
  if (!known) vp::fail ("MPI: invalid communicator");
  int r = c->rank_of (W->cur);
  if (r < 0) vp::fail ("MPI: communicator used by non-member");
  if (!c->alive[r]) vp::fail ("MPI: communicator used after free");
  return c;
}
static size_t TS (MPI_Datatype t) { return (size_t) t->size; }

// ------------------------------------------------------------ point to point
static bool can_match (ompi_request_t *r, Msg *m)
{
  return r->comm->id == m->comm && (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag);
}
static void do_match (Rank &d, ompi_request_t *r, Msg *m)
{
  r->msg = m;
  m->matched = true;
  d.inbox.erase (std::find (d.inbox.begin (), d.inbox.end (), m));
  d.posted.erase (std::find (d.posted.begin (), d.posted.end (), r));
}
// match posted receives with specific sources (deterministic)
static void match_specific (Rank &d)
{
  bool again = true;
  while (again) {
    again = false;
    for (auto *r : d.posted) {
      if (r->src == MPI_ANY_SOURCE) continue;
      Msg *hit = nullptr;
      for (auto *m : d.inbox) if (can_match (r, m)) { hit = m; break; }
      if (!hit) continue;
      // an earlier posted wildcard receive has precedence
      bool shadow = false;
      for (auto *q : d.posted) { if (q == r) break; if (can_match (q, hit)) shadow = true; }
      if (shadow) continue;
      do_match (d, r, hit);
      again = true;
      break;
    }
  }
}
static Msg *post_send (ompi_communicator_t *c, const void *buf, size_t n, int dest, int tag)
{
  if (dest < 0 || dest >= (int) c->members.size ()) vp::fail ("MPI: send to invalid rank %d", dest);
  if (tag < 0) vp::fail ("MPI: send with invalid tag");
  Msg *m = new Msg;
  m->comm = c->id;
  m->wsrc = W->cur;
  m->src = c->rank_of (W->cur);
  m->dst = dest;
  m->wdst = c->members[dest];
  m->tag = tag;
  if (n) m->data.assign ((const char *) buf, (const char *) buf + n);
  W->msgs.insert (m);
  ++W->out.messages;
  Rank &d = W->rk[m->wdst];
  d.inbox.push_back (m);
  match_specific (d);
  return m;
}
static ompi_request_t *new_req (ompi_request_t::K k, ompi_communicator_t *c)
{
  auto *r = new ompi_request_t;
  r->k = k; r->owner = W->cur; r->comm = c; r->buf = nullptr; r->cap = 0; r->src = r->tag = 0;
  W->reqs.insert (r);
  return r;
}
static bool completable (ompi_request_t *r)
{
  switch (r->k) {
  case ompi_request_t::SEND: return !W->opt.sync_send || r->msg->matched;
  case ompi_request_t::RECV: return r->msg != nullptr;
  default: return r->colldone (r);
  }
}
static void set_status (MPI_Status *st, int src, int tag, size_t n)
{
  if (!st || st == MPI_STATUS_IGNORE) return;
  st->MPI_SOURCE = src; st->MPI_TAG = tag; st->MPI_ERROR = MPI_SUCCESS;
  st->_cancelled = 0; st->_ucount = n;
}
static void release_msg (Msg *m, bool sender)
{
  // freed once delivered and the sender completed
  if (sender) m->sreq = nullptr;
  if (m->dst == -2 && !m->sreq) { W->msgs.erase (m); delete m; }
}
static void delivered (Msg *m) { m->dst = -2; release_msg (m, false); }

static void check_ptr (MPI_Request *p, const char *fn)
{
  ompi_request_t *r = *p;
  if (!W->reqs.count (r)) vp::fail ("MPI: %s on an invalid or already completed request", fn);
  if (r->owner != W->cur) vp::fail ("MPI: %s on a request of another process", fn);
}
static void complete (MPI_Request *p, MPI_Status *st)
{
  ompi_request_t *r = *p;
  if (r->k == ompi_request_t::SEND) {
    if (!r->msg->data.empty () && memcmp (r->msg->data.data (), r->buf, r->msg->data.size ()))
      vp::fail ("MPI: send buffer (tag %d, to rank %d) modified or freed before the send completed", r->tag, r->src);
    set_status (st, r->comm->rank_of (W->cur), r->tag, 0);
    Msg *m = r->msg;
    release_msg (m, true);
  }
  else if (r->k == ompi_request_t::RECV) {
    Msg *m = r->msg;
    if (m->data.size () > r->cap) vp::fail ("MPI: message of %zu bytes from %d (tag %d) truncated in receive of %zu bytes", m->data.size (), m->src, m->tag, r->cap);
    unsigned char *b = (unsigned char *) r->buf;
    for (size_t i = 0; i < r->cap; ++i) if (b[i] != POISON) vp::fail ("MPI: receive buffer (tag %d from %d) written before the receive completed", m->tag, m->src);
    if (r->cap) memcpy (r->buf, r->orig.data (), r->cap);
    if (!m->data.empty ()) memcpy (r->buf, m->data.data (), m->data.size ());
    set_status (st, m->src, m->tag, m->data.size ());
    delivered (m);
  }
  else set_status (st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
  W->reqs.erase (r);
  delete r;
  *p = MPI_REQUEST_NULL;
}

extern "C" {
int MPI_Isend (const void *buf, int n, MPI_Datatype t, int dest, int tag, MPI_Comm comm, MPI_Request *req)
{
  auto *c = CM (comm);
  if (n < 0) vp::fail ("MPI: Isend with negative count");
  Msg *m = post_send (c, buf, (size_t) n * TS (t), dest, tag);
  auto *r = new_req (ompi_request_t::SEND, c);
  r->buf = (void *) buf; r->cap = (size_t) n * TS (t); r->msg = m; r->src = dest; r->tag = tag;
  m->sreq = r;
  *req = r;
  return MPI_SUCCESS;
}
int MPI_Issend (const void *buf, int n, MPI_Datatype t, int dest, int tag, MPI_Comm comm, MPI_Request *req)
{ return MPI_Isend (buf, n, t, dest, tag, comm, req); }
int MPI_Send (const void *buf, int n, MPI_Datatype t, int dest, int tag, MPI_Comm comm)
{
  auto *c = CM (comm);
  if (n < 0) vp::fail ("MPI: Send with negative count");
  Msg *m = post_send (c, buf, (size_t) n * TS (t), dest, tag);
  if (W->opt.sync_send) {
    // keep m alive until matched
    static char token;
    m->sreq = (ompi_request_t *) &token;
    block_on ("MPI_Send", [m] { return m->matched; });
    release_msg (m, true);
  }
  return MPI_SUCCESS;
}
int MPI_Ssend (const void *buf, int n, MPI_Datatype t, int dest, int tag, MPI_Comm comm)
{
  bool s = W->opt.sync_send;
  W->opt.sync_send = true;
  int r = MPI_Send (buf, n, t, dest, tag, comm);
  W->opt.sync_send = s;
  return r;
}
int MPI_Irecv (void *buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request *req)
{
  auto *c = CM (comm);
  if (n < 0) vp::fail ("MPI: Irecv with negative count");
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int) c->members.size ())) vp::fail ("MPI: receive from invalid rank %d", src);
  auto *r = new_req (ompi_request_t::RECV, c);
  r->buf = buf; r->cap = (size_t) n * TS (t); r->src = src; r->tag = tag;
  if (r->cap) { r->orig.assign ((char *) buf, (char *) buf + r->cap); memset (buf, POISON, r->cap); }
  Rank &d = W->rk[W->cur];
  d.posted.push_back (r);
  match_specific (d);
  *req = r;
  return MPI_SUCCESS;
}
// sources that can match a wildcard request now, in canonical order
static std::vector<Msg *> wild (Rank &d, int comm, int src, int tag)
{
  std::vector<Msg *> v;
  std::set<int> seen;
  for (auto *m : d.inbox)
    if (m->comm == comm && (src == MPI_ANY_SOURCE || src == m->src) && (tag == MPI_ANY_TAG || tag == m->tag) && seen.insert (m->src).second)
      v.push_back (m);
  std::sort (v.begin (), v.end (), [](Msg *a, Msg *b) { return a->src < b->src; });
  return v;
}
int MPI_Probe (int src, int tag, MPI_Comm comm, MPI_Status *st)
{
  auto *c = CM (comm);
  Rank &d = W->rk[W->cur];
  int id = c->id;
  Msg *m;
  if (src != MPI_ANY_SOURCE) {
    block_on ("MPI_Probe", [&d, id, src, tag] { return !wild (d, id, src, tag).empty (); });
    m = wild (d, id, src, tag)[0];
  }
  else {
    int o = block_choice ("MPI_Probe(ANY)", false, [&d, id, src, tag] { return (int) wild (d, id, src, tag).size (); });
    m = wild (d, id, src, tag)[o];
  }
  set_status (st, m->src, m->tag, m->data.size ());
  return MPI_SUCCESS;
}
int MPI_Iprobe (int src, int tag, MPI_Comm comm, int *flag, MPI_Status *st)
{
  auto *c = CM (comm);
  Rank &d = W->rk[W->cur];
  int id = c->id;
  int o = block_choice ("MPI_Iprobe", true, [&d, id, src, tag] { return (int) wild (d, id, src, tag).size (); });
  *flag = o >= 0;
  if (o >= 0) { Msg *m = wild (d, id, src, tag)[o]; set_status (st, m->src, m->tag, m->data.size ()); }
  return MPI_SUCCESS;
}
int MPI_Recv (void *buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status *st)
{
  auto *c = CM (comm);
  if (n < 0) vp::fail ("MPI: Recv with negative count");
  Rank &d = W->rk[W->cur];
  int id = c->id;
  MPI_Request q;
  if (src == MPI_ANY_SOURCE) {
    int o = block_choice ("MPI_Recv(ANY)", false, [&d, id, src, tag] { return (int) wild (d, id, src, tag).size (); });
    Msg *m = wild (d, id, src, tag)[o];
    src = m->src;
    tag = m->tag;
  }
  MPI_Irecv (buf, n, t, src, tag, comm, &q);
  ompi_request_t *r = q;
  block_on ("MPI_Recv", [r] { return r->msg != nullptr; });
  complete (&q, st);
  return MPI_SUCCESS;
}
int MPI_Sendrecv (const void *sb, int sn, MPI_Datatype stp, int dest, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status *st)
{
  MPI_Request r[2];
  MPI_Irecv (rb, rn, rt, src, rtag, comm, &r[0]);
  MPI_Isend (sb, sn, stp, dest, stag, comm, &r[1]);
  MPI_Wait (&r[0], st);
  return MPI_Wait (&r[1], MPI_STATUS_IGNORE);
}
// resolve posted wildcard receives of this rank at a fence (rare)
static bool has_wild (int n, MPI_Request *rq)
{
  for (int i = 0; i < n; ++i) if (rq[i] != MPI_REQUEST_NULL && rq[i]->k == ompi_request_t::RECV && !rq[i]->msg && rq[i]->src == MPI_ANY_SOURCE) return true;
  return false;
}
static void resolve_wild (int n, MPI_Request *rq)
{
  Rank &d = W->rk[W->cur];
  while (has_wild (n, rq)) {
    // first posted wildcard receive
    ompi_request_t *w = nullptr;
    for (auto *p : d.posted) if (p->src == MPI_ANY_SOURCE) { w = p; break; }
    int o = block_choice ("MPI_Wait(ANY)", false, [&d, w] { return (int) wild (d, w->comm->id, w->src, w->tag).size (); });
    do_match (d, w, wild (d, w->comm->id, w->src, w->tag)[o]);
    match_specific (d);
  }
}
int MPI_Wait (MPI_Request *p, MPI_Status *st)
{
  if (*p == MPI_REQUEST_NULL) { set_status (st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return MPI_SUCCESS; }
  check_ptr (p, "MPI_Wait");
  resolve_wild (1, p);
  ompi_request_t *r = *p;
  block_on (r->k == ompi_request_t::SEND ? "MPI_Wait(send)" : "MPI_Wait(recv)", [r] { return completable (r); });
  complete (p, st);
  return MPI_SUCCESS;
}
int MPI_Waitall (int n, MPI_Request *rq, MPI_Status *st)
{
  for (int i = 0; i < n; ++i) if (rq[i] != MPI_REQUEST_NULL) check_ptr (&rq[i], "MPI_Waitall");
  resolve_wild (n, rq);
  block_on ("MPI_Waitall", [n, rq] {
    for (int i = 0; i < n; ++i) if (rq[i] != MPI_REQUEST_NULL && !completable (rq[i])) return false;
    return true; });
  for (int i = 0; i < n; ++i) {
    MPI_Status *s = st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i];
    if (rq[i] == MPI_REQUEST_NULL) { set_status (s, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); continue; }
    complete (&rq[i], s);
  }
  return MPI_SUCCESS;
}
static std::vector<int> compl_set (int n, MPI_Request *rq)
{
  std::vector<int> v;
  for (int i = 0; i < n; ++i) if (rq[i] != MPI_REQUEST_NULL && completable (rq[i])) v.push_back (i);
  return v;
}
int MPI_Waitsome (int n, MPI_Request *rq, int *outcount, int *idx, MPI_Status *st)
{
  bool active = false;
  for (int i = 0; i < n; ++i) if (rq[i] != MPI_REQUEST_NULL) { check_ptr (&rq[i], "MPI_Waitsome"); active = true; }
  if (!active) { *outcount = MPI_UNDEFINED; return MPI_SUCCESS; }
  resolve_wild (n, rq);
  // options: everything, everything in reverse order, each single one, (3: each pair)
  auto nopt = [n, rq] { int k = (int) compl_set (n, rq).size (); return k <= 1 ? k : k == 3 ? 2 + 3 + 3 : 2 + k; };
  int o = block_choice ("MPI_Waitsome", false, nopt);
  std::vector<int> v = compl_set (n, rq), take;
  if (o == 0) take = v;
  else if (o == 1) { take = v; std::reverse (take.begin (), take.end ()); }
  else if (o < 2 + (int) v.size ()) take = {v[o - 2]};
  else { int s = o - 5; for (int k = 0; k < 3; ++k) if (k != s) take.push_back (v[k]); }
  *outcount = (int) take.size ();
  for (size_t i = 0; i < take.size (); ++i) {
    idx[i] = take[i];
    complete (&rq[take[i]], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]);
  }
  return MPI_SUCCESS;
}
int MPI_Waitany (int n, MPI_Request *rq, int *idx, MPI_Status *st)
{
  bool active = false;
  for (int i = 0; i < n; ++i) if (rq[i] != MPI_REQUEST_NULL) { check_ptr (&rq[i], "MPI_Waitany"); active = true; }
  if (!active) { *idx = MPI_UNDEFINED; return MPI_SUCCESS; }
  resolve_wild (n, rq);
  int o = block_choice ("MPI_Waitany", false, [n, rq] { return (int) compl_set (n, rq).size (); });
  int i = compl_set (n, rq)[o];
  *idx = i;
  complete (&rq[i], st);
  return MPI_SUCCESS;
}
int MPI_Test (MPI_Request *p, int *flag, MPI_Status *st)
{
  if (*p == MPI_REQUEST_NULL) { *flag = 1; return MPI_SUCCESS; }
  check_ptr (p, "MPI_Test");
  ompi_request_t *r = *p;
  int o = block_choice ("MPI_Test", true, [r] { return completable (r) ? 1 : 0; });
  *flag = o >= 0;
  if (o >= 0) complete (p, st);
  return MPI_SUCCESS;
}
int MPI_Testall (int n, MPI_Request *rq, int *flag, MPI_Status *st)
{
  auto all = [n, rq] { for (int i = 0; i < n; ++i) if (rq[i] != MPI_REQUEST_NULL && !completable (rq[i])) return 0; return 1; };
  int o = block_choice ("MPI_Testall", true, all);
  *flag = o >= 0;
  if (o >= 0) return MPI_Waitall (n, rq, st);
  return MPI_SUCCESS;
}
int MPI_Testsome (int n, MPI_Request *rq, int *outcount, int *idx, MPI_Status *st)
{
  bool active = false;
  for (int i = 0; i < n; ++i) if (rq[i] != MPI_REQUEST_NULL) active = true;
  if (!active) { *outcount = MPI_UNDEFINED; return MPI_SUCCESS; }
  int o = block_choice ("MPI_Testsome", true, [n, rq] { return compl_set (n, rq).empty () ? 0 : 1; });
  if (o < 0) { *outcount = 0; return MPI_SUCCESS; }
  return MPI_Waitsome (n, rq, outcount, idx, st);
}
int MPI_Get_count (const MPI_Status *st, MPI_Datatype t, int *n)
{
  if (TS (t) == 0) { *n = 0; return MPI_SUCCESS; }
  if (st->_ucount % TS (t)) { *n = MPI_UNDEFINED; return MPI_SUCCESS; }
  *n = (int) (st->_ucount / TS (t));
  return MPI_SUCCESS;
}
int MPI_Get_elements (const MPI_Status *st, MPI_Datatype t, int *n) { return MPI_Get_count (st, t, n); }
}

// ------------------------------------------------------------ collectives
struct Arg
{
  bool here = false;
  const void *sb = nullptr;
  void *rb = nullptr;
  size_t sn = 0, rn = 0;        // bytes
  int count = 0;
  MPI_Datatype t = nullptr;
  MPI_Op op = nullptr;
  const int *cnt = nullptr, *dsp = nullptr, *scnt = nullptr, *sdsp = nullptr;
  size_t rts = 0, sts = 0;
  int color = 0, key = 0;
  std::vector<int> grp;
  bool nogrp = false;
  void *result = nullptr;
  std::string name;
};
struct ompi_communicator_t::Coll
{
  const char *kind;
  int root = -1;
  int arrived = 0, left = 0;
  bool done = false;
  std::vector<Arg> a;
  std::vector<std::string> keep;        // contributions of processes that leave early
};
typedef ompi_communicator_t::Coll Coll;

template <class T> static void red_t (OK_ k, T *io, const T *in, int n)
{
  for (int i = 0; i < n; ++i) switch (k) {
    case O_SUM: io[i] = (T) (in[i] + io[i]); break;
    case O_PROD: io[i] = (T) (in[i] * io[i]); break;
    case O_MAX: if (in[i] > io[i]) io[i] = in[i]; break;
    case O_MIN: if (in[i] < io[i]) io[i] = in[i]; break;
    case O_LAND: io[i] = (T) (in[i] && io[i]); break;
    case O_LOR: io[i] = (T) (in[i] || io[i]); break;
    default: break;
  }
}
template <class T> static void red_i (OK_ k, T *io, const T *in, int n)
{
  if (k == O_BAND) for (int i = 0; i < n; ++i) io[i] &= in[i];
  else if (k == O_BOR) for (int i = 0; i < n; ++i) io[i] |= in[i];
  else red_t (k, io, in, n);
}
// io = in op io   (in comes from the lower rank)
static void reduce_local (const void *in, void *io, int n, MPI_Datatype t, MPI_Op op)
{
  if (op->k == O_USER) { int len = n; op->fn ((void *) in, io, &len, &t); return; }
  switch (t->k) {
  case T_CHAR: red_i (op->k, (signed char *) io, (const signed char *) in, n); break;
  case T_UCHAR: case T_BYTE: red_i (op->k, (unsigned char *) io, (const unsigned char *) in, n); break;
  case T_SHORT: red_i (op->k, (short *) io, (const short *) in, n); break;
  case T_USHORT: red_i (op->k, (unsigned short *) io, (const unsigned short *) in, n); break;
  case T_INT: red_i (op->k, (int *) io, (const int *) in, n); break;
  case T_UINT: red_i (op->k, (unsigned *) io, (const unsigned *) in, n); break;
  case T_LONG: red_i (op->k, (long *) io, (const long *) in, n); break;
  case T_ULONG: red_i (op->k, (unsigned long *) io, (const unsigned long *) in, n); break;
  case T_LL: red_i (op->k, (long long *) io, (const long long *) in, n); break;
  case T_ULL: red_i (op->k, (unsigned long long *) io, (const unsigned long long *) in, n); break;
  case T_FLOAT: red_t (op->k, (float *) io, (const float *) in, n); break;
  case T_DOUBLE: red_t (op->k, (double *) io, (const double *) in, n); break;
  case T_LDOUBLE: red_t (op->k, (long double *) io, (const long double *) in, n); break;
  default: vp::fail ("MPI: reduction on unsupported type");
  }
}
static void mv (void *d, const void *s, size_t n) { if (n) memmove (d, s, n); }

static void coll_exec (ompi_communicator_t *c, Coll *q)
{
  int n = (int) c->members.size ();
  std::string k = q->kind;
  auto &a = q->a;
  // buffer of rank i taking MPI_IN_PLACE into account
  auto chk = [&](bool ok, const char *w) { if (!ok) vp::fail ("MPI: collective %s called with mismatching %s", q->kind, w); };
  if (k == "Barrier" || k == "Ibarrier") return;
  if (k == "Bcast") {
    for (int i = 0; i < n; ++i) chk (a[i].sn == a[q->root].sn, "sizes");
    for (int i = 0; i < n; ++i) if (i != q->root) mv (a[i].rb, a[q->root].rb, a[i].sn);
  }
  else if (k == "Gather" || k == "Gatherv") {
    auto &r = a[q->root];
    for (int i = 0; i < n; ++i) {
      size_t rn = r.cnt ? (size_t) r.cnt[i] * r.rts : r.rn, off = r.cnt ? (size_t) r.dsp[i] * r.rts : (size_t) i * r.rn;
      if (a[i].sb == MPI_IN_PLACE) continue;
      chk (a[i].sn == rn, "sizes");
      mv ((char *) r.rb + off, a[i].sb, rn);
    }
  }
  else if (k == "Scatter") {
    auto &r = a[q->root];
    for (int i = 0; i < n; ++i) {
      if (a[i].rb == MPI_IN_PLACE) continue;
      chk (a[i].rn == r.sn, "sizes");
      mv (a[i].rb, (const char *) r.sb + (size_t) i * r.sn, r.sn);
    }
  }
  else if (k == "Allgather" || k == "Allgatherv") {
    std::vector<std::vector<char>> d (n);
    for (int i = 0; i < n; ++i) {
      if (a[i].sb == MPI_IN_PLACE) {
        size_t rn = a[i].cnt ? (size_t) a[i].cnt[i] * a[i].rts : a[i].rn, off = a[i].cnt ? (size_t) a[i].dsp[i] * a[i].rts : (size_t) i * a[i].rn;
        d[i].assign ((char *) a[i].rb + off, (char *) a[i].rb + off + rn);
      }
      else if (a[i].sn) d[i].assign ((const char *) a[i].sb, (const char *) a[i].sb + a[i].sn);
    }
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) {
      size_t rn = a[j].cnt ? (size_t) a[j].cnt[i] * a[j].rts : a[j].rn, off = a[j].cnt ? (size_t) a[j].dsp[i] * a[j].rts : (size_t) i * a[j].rn;
      chk (rn == d[i].size (), "sizes");
      mv ((char *) a[j].rb + off, d[i].data (), rn);
    }
  }
  else if (k == "Alltoall" || k == "Alltoallv") {
    std::vector<std::vector<char>> d (n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      size_t sn = a[i].scnt ? (size_t) a[i].scnt[j] * a[i].sts : a[i].sn, so = a[i].scnt ? (size_t) a[i].sdsp[j] * a[i].sts : (size_t) j * a[i].sn;
      size_t rn = a[j].cnt ? (size_t) a[j].cnt[i] * a[j].rts : a[j].rn, ro = a[j].cnt ? (size_t) a[j].dsp[i] * a[j].rts : (size_t) i * a[j].rn;
      chk (sn == rn, "sizes");
      mv ((char *) a[j].rb + ro, (const char *) a[i].sb + so, sn);
    }
  }
  else if (k == "Allreduce" || k == "Reduce" || k == "Scan" || k == "Exscan" || k == "Reduce_scatter_block") {
    for (int i = 0; i < n; ++i) chk (a[i].count == a[0].count && a[i].t->k == a[0].t->k && (a[i].op == a[0].op || a[i].op->k == O_USER), "arguments");
    bool rsb = k == "Reduce_scatter_block";
    int cnt = a[0].count * (rsb ? n : 1);
    size_t bytes = (size_t) cnt * TS (a[0].t);
    std::vector<std::vector<char>> d (n);
    for (int i = 0; i < n; ++i) { const char *s = (const char *) (a[i].sb == MPI_IN_PLACE ? a[i].rb : a[i].sb); if (bytes) d[i].assign (s, s + bytes); }
    std::vector<char> acc = d[0];
    for (int i = 0; i < n; ++i) {
      if (k == "Exscan" && i > 0) mv (a[i].rb, acc.data (), bytes);
      if (i > 0) {
        // acc (lower ranks) op d[i]
        std::vector<char> io = d[i];
        if (bytes) reduce_local (acc.data (), io.data (), cnt, a[0].t, a[i].op);
        acc = io;
      }
      if (k == "Scan") mv (a[i].rb, acc.data (), bytes);
    }
    if (k == "Allreduce") for (int i = 0; i < n; ++i) mv (a[i].rb, acc.data (), bytes);
    if (k == "Reduce") mv (a[q->root].rb, acc.data (), bytes);
    if (rsb) for (int i = 0; i < n; ++i) mv (a[i].rb, acc.data () + (size_t) i * bytes / n, bytes / n);
  }
  else if (k == "Comm_dup") {
    auto *x = new_comm (c->members);
    for (int i = 0; i < n; ++i) a[i].result = x;
  }
  else if (k == "Comm_create") {
    for (int i = 0; i < n; ++i) chk (a[i].grp == a[0].grp, "groups");
    if (!a[0].grp.empty ()) {
      auto *x = new_comm (a[0].grp);
      for (int i = 0; i < n; ++i) a[i].result = x->rank_of (c->members[i]) >= 0 ? x : nullptr;
    }
  }
  else if (k == "Comm_split") {
    std::map<int, std::vector<std::pair<int,int>>> by;
    for (int i = 0; i < n; ++i) if (a[i].color != MPI_UNDEFINED) by[a[i].color].push_back ({a[i].key, i});
    for (auto &b : by) {
      std::stable_sort (b.second.begin (), b.second.end ());
      std::vector<int> m;
      for (auto &p : b.second) m.push_back (c->members[p.second]);
      auto *x = new_comm (m);
      for (auto &p : b.second) a[p.second].result = x;
    }
  }
  else if (k == "File_open") {
    for (int i = 0; i < n; ++i) chk (a[i].name == a[0].name && a[i].color == a[0].color, "arguments");
  }
  else if (k == "Win_allocate_shared") {
    size_t tot = 0;
    for (int i = 0; i < n; ++i) tot += a[i].sn;
    char *base = (char *) calloc (1, tot + 16);
    size_t off = 0;
    for (int i = 0; i < n; ++i) { a[i].result = base; a[i].rn = off; off += a[i].sn; }
  }
}

// returns the arguments of this rank after everyone has arrived
static Arg coll (MPI_Comm comm, const char *kind, int root, Arg in, std::vector<Arg> *allargs = nullptr)
{
  auto *c = CM (comm);
  int r = c->rank_of (W->cur);
  long s = c->collseq[r]++;
  auto &slot = c->colls[s];
  if (!slot) {
    slot = new Coll;
    slot->kind = kind;
    slot->root = root;
    slot->a.resize (c->members.size ());
    ++W->out.collectives;
  }
  Coll *q = slot;
  if (strcmp (q->kind, kind)) vp::fail ("MPI: mismatched collectives: %s here, %s on another process", kind, q->kind);
  if (q->root != root) vp::fail ("MPI: collective %s with different roots %d and %d", kind, root, q->root);
  if (root >= (int) c->members.size ()) vp::fail ("MPI: invalid root");
  in.here = true;
  q->a[r] = in;
  std::string k = kind;
  if (W->opt.loose && c->members.size () > 1 && (k == "Bcast" || k == "Scan" || k == "Exscan" || ((k == "Gather" || k == "Gatherv" || k == "Reduce") && r != root))) {
    // MPI permits to leave these before all others have entered
    auto chk = [&](bool ok, const char *w) { if (!ok) vp::fail ("MPI: collective %s called with mismatching %s", q->kind, w); };
    q->keep.resize (c->members.size ());
    const char *src = (const char *) (k == "Bcast" || in.sb == MPI_IN_PLACE ? in.rb : in.sb);
    size_t n = k == "Bcast" || k[0] == 'G' ? in.sn : (size_t) in.count * TS (in.t);
    if (n && (k != "Bcast" || r == root)) q->keep[r].assign (src, n);
    if (k[0] == 'G' || k == "Reduce") q->a[r].sb = q->keep[r].data ();
    Arg res = q->a[r];
    if (++q->arrived == (int) c->members.size ()) {
      if (k[0] == 'G' || k == "Reduce") coll_exec (c, q);
      q->done = true;
    }
    if (k == "Bcast" && r != root) {
      block_on (kind, [q, root] { return q->a[root].here; });
      chk (q->a[root].sn == in.sn, "sizes");
      if (in.sn) memcpy (in.rb, q->keep[root].data (), in.sn);
    }
    else if (k == "Scan" || k == "Exscan") {
      block_on (kind, [q, r] { for (int i = 0; i < r; ++i) if (!q->a[i].here) return false; return true; });
      std::string acc;
      for (int i = 0; i <= r - (k == "Exscan"); ++i) {
        chk (q->a[i].count == in.count && q->a[i].t->k == in.t->k && (q->a[i].op == in.op || in.op->k == O_USER), "arguments");
        if (!i) { acc = q->keep[0]; continue; }
        std::string io = q->keep[i];
        if (n) reduce_local (&acc[0], &io[0], in.count, in.t, in.op);
        acc = io;
      }
      if (n && !(k == "Exscan" && r == 0)) memcpy (in.rb, acc.data (), n);
    }
    if (++q->left == (int) c->members.size ()) { c->colls.erase (s); delete q; }
    return res;
  }
  if (++q->arrived == (int) c->members.size ()) { coll_exec (c, q); q->done = true; }
  else block_on (kind, [q] { return q->done; });
  Arg res = q->a[r];
  if (allargs) *allargs = q->a;
  if (++q->left == (int) c->members.size ()) { c->colls.erase (s); delete q; }
  return res;
}

extern "C" {
int MPI_Barrier (MPI_Comm c) { coll (c, "Barrier", -1, Arg ()); return MPI_SUCCESS; }
int MPI_Ibarrier (MPI_Comm comm, MPI_Request *req)
{
  auto *c = CM (comm);
  int r = c->rank_of (W->cur);
  long s = c->collseq[r]++;
  auto &slot = c->colls[s];
  if (!slot) { slot = new Coll; slot->kind = "Ibarrier"; slot->a.resize (c->members.size ()); ++W->out.collectives; }
  if (strcmp (slot->kind, "Ibarrier")) vp::fail ("MPI: mismatched collectives: Ibarrier here, %s on another process", slot->kind);
  if (++slot->arrived == (int) c->members.size ()) slot->done = true;
  auto *q = new_req (ompi_request_t::COLL, c);
  q->collseq = s;
  q->colldone = [](ompi_request_t *x) { return x->comm->colls[x->collseq]->done; };
  *req = q;
  return MPI_SUCCESS;
}
int MPI_Bcast (void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{ Arg a; a.rb = b; a.sn = (size_t) n * TS (t); coll (c, "Bcast", root, a); return MPI_SUCCESS; }
int MPI_Gather (const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  Arg a; a.sb = sb; a.rb = rb; a.sn = sb == MPI_IN_PLACE ? 0 : (size_t) sn * TS (st);
  if (CM (c)->rank_of (W->cur) == root) a.rn = (size_t) rn * TS (rt);
  coll (c, "Gather", root, a);
  return MPI_SUCCESS;
}
int MPI_Gatherv (const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *ds, MPI_Datatype rt, int root, MPI_Comm c)
{
  Arg a; a.sb = sb; a.rb = rb; a.sn = sb == MPI_IN_PLACE ? 0 : (size_t) sn * TS (st);
  if (CM (c)->rank_of (W->cur) == root) { a.cnt = rc; a.dsp = ds; a.rts = TS (rt); }
  coll (c, "Gatherv", root, a);
  return MPI_SUCCESS;
}
int MPI_Scatter (const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  Arg a; a.sb = sb; a.rb = rb; a.rn = rb == MPI_IN_PLACE ? 0 : (size_t) rn * TS (rt);
  if (CM (c)->rank_of (W->cur) == root) a.sn = (size_t) sn * TS (st);
  coll (c, "Scatter", root, a);
  return MPI_SUCCESS;
}
int MPI_Allgather (const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c)
{ Arg a; a.sb = sb; a.rb = rb; a.sn = sb == MPI_IN_PLACE ? 0 : (size_t) sn * TS (st); a.rn = (size_t) rn * TS (rt); coll (c, "Allgather", -1, a); return MPI_SUCCESS; }
int MPI_Allgatherv (const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *ds, MPI_Datatype rt, MPI_Comm c)
{ Arg a; a.sb = sb; a.rb = rb; a.sn = sb == MPI_IN_PLACE ? 0 : (size_t) sn * TS (st); a.cnt = rc; a.dsp = ds; a.rts = TS (rt); coll (c, "Allgatherv", -1, a); return MPI_SUCCESS; }
int MPI_Alltoall (const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c)
{ Arg a; a.sb = sb; a.rb = rb; a.sn = (size_t) sn * TS (st); a.rn = (size_t) rn * TS (rt); coll (c, "Alltoall", -1, a); return MPI_SUCCESS; }
int MPI_Alltoallv (const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c)
{ Arg a; a.sb = sb; a.rb = rb; a.scnt = sc; a.sdsp = sd; a.sts = TS (st); a.cnt = rc; a.dsp = rd; a.rts = TS (rt); coll (c, "Alltoallv", -1, a); return MPI_SUCCESS; }
static int red (const char *k, const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{ Arg a; a.sb = sb; a.rb = rb; a.count = n; a.t = t; a.op = op; coll (c, k, root, a); return MPI_SUCCESS; }
int MPI_Allreduce (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red ("Allreduce", sb, rb, n, t, op, -1, c); }
int MPI_Reduce (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return red ("Reduce", sb, rb, n, t, op, root, c); }
int MPI_Scan (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red ("Scan", sb, rb, n, t, op, -1, c); }
int MPI_Exscan (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red ("Exscan", sb, rb, n, t, op, -1, c); }
int MPI_Reduce_scatter_block (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red ("Reduce_scatter_block", sb, rb, n, t, op, -1, c); }

// ------------------------------------------------------------ environment
int MPI_Comm_size (MPI_Comm c, int *n) { *n = (int) CM (c)->members.size (); return MPI_SUCCESS; }
int MPI_Comm_rank (MPI_Comm c, int *r) { *r = CM (c)->rank_of (W->cur); return MPI_SUCCESS; }
double MPI_Wtime (void) { static double t; return t += 1e-3; }
int MPI_Abort (MPI_Comm, int) { die (ABORT, "MPI_Abort called"); return MPI_SUCCESS; }
int MPI_Initialized (int *f) { *f = 1; return MPI_SUCCESS; }
int MPI_Error_string (int, char *s, int *n) { strcpy (s, "simulated error"); *n = (int) strlen (s); return MPI_SUCCESS; }
int MPI_Error_class (int c, int *k) { *k = c; return MPI_SUCCESS; }
int MPI_Alloc_mem (MPI_Aint n, MPI_Info, void *p) { *(void **) p = vp_malloc ((size_t) n); return MPI_SUCCESS; }
int MPI_Free_mem (void *p) { vp_free (p); return MPI_SUCCESS; }
int MPI_Type_contiguous (int n, MPI_Datatype t, MPI_Datatype *o) { *o = new ompi_datatype_t{T_DERIVED, (int) (n * TS (t))}; W->types.insert (*o); return MPI_SUCCESS; }
int MPI_Type_commit (MPI_Datatype *) { return MPI_SUCCESS; }
int MPI_Type_free (MPI_Datatype *t) { if (!W->types.erase (*t)) vp::fail ("MPI: Type_free of invalid type"); delete *t; *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_size (MPI_Datatype t, int *n) { *n = t->size; return MPI_SUCCESS; }
int MPI_Op_create (MPI_User_function *f, int, MPI_Op *o) { *o = new ompi_op_t{O_USER, f}; W->ops.insert (*o); return MPI_SUCCESS; }
int MPI_Op_free (MPI_Op *o) { if (!W->ops.erase (*o)) vp::fail ("MPI: Op_free of invalid op"); delete *o; *o = MPI_OP_NULL; return MPI_SUCCESS; }

static std::map<int, std::pair<MPI_Comm_copy_attr_function *, MPI_Comm_delete_attr_function *>> keyvals;
static int nextkey = 1000;
int OMPI_C_MPI_COMM_DUP_FN (MPI_Comm, int, void *, void *in, void *out, int *flag) { *flag = 1; *(void **) out = in; return MPI_SUCCESS; }
int OMPI_C_MPI_COMM_NULL_DELETE_FN (MPI_Comm, int, void *, void *) { return MPI_SUCCESS; }
int OMPI_C_MPI_COMM_NULL_COPY_FN (MPI_Comm, int, void *, void *, void *, int *flag) { *flag = 0; return MPI_SUCCESS; }
int MPI_Comm_create_keyval (MPI_Comm_copy_attr_function *cp, MPI_Comm_delete_attr_function *dl, int *k, void *) { *k = nextkey++; keyvals[*k] = {cp, dl}; return MPI_SUCCESS; }
int MPI_Comm_free_keyval (int *k) { *k = MPI_KEYVAL_INVALID; return MPI_SUCCESS; }
int MPI_Comm_set_attr (MPI_Comm comm, int k, void *v) { auto *c = CM (comm); c->attr[{c->rank_of (W->cur), k}] = v; return MPI_SUCCESS; }
int MPI_Comm_get_attr (MPI_Comm comm, int k, void *v, int *flag)
{
  auto *c = CM (comm);
  auto it = c->attr.find ({c->rank_of (W->cur), k});
  *flag = it != c->attr.end ();
  if (*flag) *(void **) v = it->second;
  return MPI_SUCCESS;
}
int MPI_Comm_delete_attr (MPI_Comm comm, int k)
{
  auto *c = CM (comm);
  auto key = std::make_pair (c->rank_of (W->cur), k);
  auto it = c->attr.find (key);
  if (it == c->attr.end ()) return MPI_SUCCESS;
  void *v = it->second;
  c->attr.erase (it);
  if (keyvals[k].second) keyvals[k].second (comm, k, v, nullptr);
  return MPI_SUCCESS;
}
static void copy_attrs (ompi_communicator_t *from, ompi_communicator_t *to)
{
  int r = from->rank_of (W->cur), s = to->rank_of (W->cur);
  std::vector<std::pair<int, void *>> v;
  for (auto &a : from->attr) if (a.first.first == r) v.push_back ({a.first.second, a.second});
  for (auto &a : v) {
    auto cp = keyvals[a.first].first;
    if (!cp) continue;
    void *out = nullptr;
    int flag = 0;
    cp ((MPI_Comm) from, a.first, nullptr, a.second, &out, &flag);
    if (flag) to->attr[{s, a.first}] = out;
  }
}
int MPI_Comm_dup (MPI_Comm c, MPI_Comm *o)
{
  Arg a = coll (c, "Comm_dup", -1, Arg ());
  *o = (MPI_Comm) a.result;
  copy_attrs (CM (c), *o);
  return MPI_SUCCESS;
}
int MPI_Comm_split (MPI_Comm c, int color, int key, MPI_Comm *o)
{
  Arg a; a.color = color; a.key = key;
  a = coll (c, "Comm_split", -1, a);
  *o = a.result ? (MPI_Comm) a.result : MPI_COMM_NULL;
  return MPI_SUCCESS;
}
// node size used by split_type; by default all ranks are on one node
int MPI_Comm_split_type (MPI_Comm c, int, int key, MPI_Info, MPI_Comm *o) { return MPI_Comm_split (c, vp::node_size > 0 ? vp::me () / vp::node_size : 0, key, o); }
int MPI_Comm_free (MPI_Comm *p)
{
  auto *c = CM (*p);
  if (c->id < 1 + W->P) vp::fail ("MPI: Comm_free of a predefined communicator");
  int r = c->rank_of (W->cur);
  std::vector<std::pair<int, void *>> v;
  for (auto &a : c->attr) if (a.first.first == r) v.push_back ({a.first.second, a.second});
  for (auto &a : v) { c->attr.erase ({r, a.first}); if (keyvals[a.first].second) keyvals[a.first].second (*p, a.first, a.second, nullptr); }
  c->alive[r] = 0;
  *p = MPI_COMM_NULL;
  return MPI_SUCCESS;
}
static ompi_group_t *mkgroup (std::vector<int> m) { auto *g = new ompi_group_t{m}; W->groups.insert (g); return g; }
int MPI_Comm_group (MPI_Comm c, MPI_Group *g) { *g = mkgroup (CM (c)->members); return MPI_SUCCESS; }
static std::vector<int> gm (MPI_Group g)
{
  if ((void *) g == (void *) &ompi_mpi_group_empty) return {};
  if (!W->groups.count (g)) vp::fail ("MPI: invalid group");
  return g->members;
}
int MPI_Group_incl (MPI_Group g, int n, const int *r, MPI_Group *o)
{
  auto m = gm (g);
  std::vector<int> v;
  std::set<int> dup;
  for (int i = 0; i < n; ++i) {
    if (r[i] < 0 || r[i] >= (int) m.size () || !dup.insert (r[i]).second) vp::fail ("MPI: Group_incl with invalid rank");
    v.push_back (m[r[i]]);
  }
  *o = mkgroup (v);
  return MPI_SUCCESS;
}
int MPI_Group_excl (MPI_Group g, int n, const int *r, MPI_Group *o)
{
  auto m = gm (g);
  std::vector<int> v;
  for (int i = 0; i < (int) m.size (); ++i) { bool ex = false; for (int j = 0; j < n; ++j) if (r[j] == i) ex = true; if (!ex) v.push_back (m[i]); }
  *o = mkgroup (v);
  return MPI_SUCCESS;
}
int MPI_Group_union (MPI_Group a, MPI_Group b, MPI_Group *o)
{
  auto v = gm (a);
  for (int x : gm (b)) if (std::find (v.begin (), v.end (), x) == v.end ()) v.push_back (x);
  *o = mkgroup (v);
  return MPI_SUCCESS;
}
int MPI_Group_difference (MPI_Group a, MPI_Group b, MPI_Group *o)
{
  std::vector<int> v, y = gm (b);
  for (int x : gm (a)) if (std::find (y.begin (), y.end (), x) == y.end ()) v.push_back (x);
  *o = mkgroup (v);
  return MPI_SUCCESS;
}
int MPI_Group_intersection (MPI_Group a, MPI_Group b, MPI_Group *o)
{
  std::vector<int> v, y = gm (b);
  for (int x : gm (a)) if (std::find (y.begin (), y.end (), x) != y.end ()) v.push_back (x);
  *o = mkgroup (v);
  return MPI_SUCCESS;
}
int MPI_Group_translate_ranks (MPI_Group a, int n, const int *r, MPI_Group b, int *o)
{
  auto x = gm (a), y = gm (b);
  for (int i = 0; i < n; ++i) {
    auto it = std::find (y.begin (), y.end (), x.at (r[i]));
    o[i] = it == y.end () ? MPI_UNDEFINED : (int) (it - y.begin ());
  }
  return MPI_SUCCESS;
}
int MPI_Group_size (MPI_Group g, int *n) { *n = (int) gm (g).size (); return MPI_SUCCESS; }
int MPI_Group_rank (MPI_Group g, int *n)
{
  auto v = gm (g);
  auto it = std::find (v.begin (), v.end (), W->cur);
  *n = it == v.end () ? MPI_UNDEFINED : (int) (it - v.begin ());
  return MPI_SUCCESS;
}
int MPI_Group_free (MPI_Group *g)
{
  if ((void *) *g != (void *) &ompi_mpi_group_empty) {
    if (!W->groups.erase (*g)) vp::fail ("MPI: Group_free of invalid group");
    delete *g;
  }
  *g = MPI_GROUP_NULL;
  return MPI_SUCCESS;
}
int MPI_Comm_create (MPI_Comm c, MPI_Group g, MPI_Comm *o)
{
  Arg a; a.grp = gm (g);
  a = coll (c, "Comm_create", -1, a);
  *o = a.result ? (MPI_Comm) a.result : MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int MPI_Comm_compare (MPI_Comm x, MPI_Comm y, int *res)
{
  auto *a = CM (x), *b = CM (y);
  if (a == b) *res = MPI_IDENT;
  else if (a->members == b->members) *res = MPI_CONGRUENT;
  else {
    auto p = a->members, q = b->members;
    std::sort (p.begin (), p.end ());
    std::sort (q.begin (), q.end ());
    *res = p == q ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return MPI_SUCCESS;
}
}

// ------------------------------------------------------------ windows
struct ompi_win_t
{
  ompi_communicator_t *comm;
  int owner;
  bool shared;
  char *base;                   // shared base or own base
  std::vector<std::pair<char *, size_t>> part;  // per rank
  std::vector<int> disp;
};
extern "C" {
int MPI_Win_allocate_shared (MPI_Aint n, int disp, MPI_Info, MPI_Comm comm, void *base, MPI_Win *w)
{
  Arg a; a.sn = (size_t) n; a.count = disp;
  std::vector<Arg> all;
  a = coll (comm, "Win_allocate_shared", -1, a, &all);
  auto *x = new ompi_win_t;
  x->comm = CM (comm); x->owner = W->cur; x->shared = true; x->base = (char *) a.result;
  for (auto &b : all) { x->part.push_back ({(char *) b.result + b.rn, b.sn}); x->disp.push_back (b.count); }
  *(void **) base = (char *) a.result + a.rn;
  W->wins.insert (x);
  *w = x;
  return MPI_SUCCESS;
}
int MPI_Win_shared_query (MPI_Win w, int r, MPI_Aint *n, int *disp, void *base)
{
  if (r == MPI_PROC_NULL) { r = 0; while (r + 1 < (int) w->part.size () && !w->part[r].second) ++r; }
  *n = (MPI_Aint) w->part[r].second; *disp = w->disp.empty () ? 1 : w->disp[r]; *(void **) base = w->part[r].first; return MPI_SUCCESS;
}
int MPI_Win_create (void *b, MPI_Aint n, int, MPI_Info, MPI_Comm comm, MPI_Win *w)
{
  Arg a; a.rb = b; a.sn = (size_t) n;
  std::vector<Arg> all;
  coll (comm, "Win_create", -1, a, &all);
  auto *x = new ompi_win_t;
  x->comm = CM (comm); x->owner = W->cur; x->shared = false; x->base = nullptr;
  for (auto &q : all) x->part.push_back ({(char *) q.rb, q.sn});
  W->wins.insert (x);
  *w = x;
  return MPI_SUCCESS;
}
// a window outlives the communicator handle it was created with
static void win_coll (MPI_Win w, const char *kind, Arg a)
{
  int r = w->comm->rank_of (W->cur);
  auto was = w->comm->alive[r];
  w->comm->alive[r] = 1;
  coll (w->comm, kind, -1, a);
  w->comm->alive[r] = was;
}
int MPI_Win_fence (int, MPI_Win w) { win_coll (w, "Win_fence", Arg ()); return MPI_SUCCESS; }
int MPI_Win_lock (int, int, int, MPI_Win) { return MPI_SUCCESS; }
int MPI_Win_unlock (int, MPI_Win) { return MPI_SUCCESS; }
int MPI_Win_lock_all (int, MPI_Win) { return MPI_SUCCESS; }
int MPI_Win_unlock_all (MPI_Win) { return MPI_SUCCESS; }
int MPI_Win_sync (MPI_Win) { return MPI_SUCCESS; }
int MPI_Accumulate (const void *o, int n, MPI_Datatype t, int target, MPI_Aint disp, int, MPI_Datatype, MPI_Op op, MPI_Win w)
{ reduce_local (o, w->part[target].first + disp * (MPI_Aint) TS (t), n, t, op); return MPI_SUCCESS; }
int MPI_Win_free (MPI_Win *p)
{
  auto *w = *p;
  if (!W->wins.count (w)) vp::fail ("MPI: Win_free of invalid window");
  Arg a; a.rb = w->shared ? w->base : nullptr;
  win_coll (w, "Win_free", a);
  if (w->shared && w->comm->rank_of (W->cur) == 0) free (w->base);
  W->wins.erase (w);
  delete w;
  *p = MPI_WIN_NULL;
  return MPI_SUCCESS;
}
}

// ------------------------------------------------------------ files
struct ompi_file_t { ompi_communicator_t *comm; int owner, fd; long pos; };
extern "C" {
int MPI_File_open (MPI_Comm comm, const char *name, int amode, MPI_Info, MPI_File *f)
{
  Arg a; a.name = name; a.color = amode;
  auto *c = CM (comm);
  coll (comm, "File_open", -1, a);
  int fl = amode & MPI_MODE_RDWR ? O_RDWR : amode & MPI_MODE_WRONLY ? O_WRONLY : O_RDONLY;
  if (amode & MPI_MODE_CREATE) fl |= O_CREAT;
  int fd = open (name, fl, 0644);
  if (amode & MPI_MODE_EXCL) { /* not used */ }
  // all file pointers of an append open stand at the end at the time of opening
  long end = fd >= 0 && (amode & MPI_MODE_APPEND) ? (long) lseek (fd, 0, SEEK_END) : 0;
  Arg b; b.color = fd >= 0; b.name = "result";
  std::vector<Arg> all;
  coll (comm, "File_open_result", -1, b, &all);
  bool ok = true;
  for (auto &x : all) ok = ok && x.color;
  if (io_hit (iofault.opens)) ok = false;
  if (!ok) { if (fd >= 0) close (fd); *f = MPI_FILE_NULL; return MPI_ERR_NO_SUCH_FILE; }
  auto *x = new ompi_file_t{c, W->cur, fd, 0};
  x->pos = end;
  W->files.insert (x);
  *f = x;
  return MPI_SUCCESS;
}
int MPI_File_close (MPI_File *p)
{
  auto *f = *p;
  if (!W->files.count (f)) vp::fail ("MPI: File_close of invalid file");
  coll (f->comm, "File_close", -1, Arg ());
  close (f->fd);
  W->files.erase (f);
  delete f;
  *p = MPI_FILE_NULL;
  return MPI_SUCCESS;
}
int MPI_File_get_position (MPI_File f, MPI_Offset *o) { *o = f->pos; return MPI_SUCCESS; }
int MPI_File_seek (MPI_File f, MPI_Offset o, int wh)
{
  if (wh == MPI_SEEK_SET) f->pos = o;
  else if (wh == MPI_SEEK_CUR) f->pos += o;
  else { struct stat s; fstat (f->fd, &s); f->pos = s.st_size + o; }
  if (f->pos < 0) return MPI_ERR_ARG;
  return MPI_SUCCESS;
}
int MPI_File_get_size (MPI_File f, MPI_Offset *o) { struct stat s; fstat (f->fd, &s); *o = s.st_size; return MPI_SUCCESS; }
int MPI_File_set_size (MPI_File f, MPI_Offset o) { coll (f->comm, "File_set_size", -1, Arg ()); if (f->comm->rank_of (W->cur) == 0 && ftruncate (f->fd, o)) return MPI_ERR_IO; coll (f->comm, "File_set_size", -1, Arg ()); return MPI_SUCCESS; }
int MPI_File_write_at (MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *st)
{
  size_t bytes = (size_t) n * TS (t);
  if (io_hit (iofault.writes)) { set_status (st, 0, 0, 0); return MPI_ERR_IO; }
  if (bytes && pwrite (f->fd, b, bytes, o) != (ssize_t) bytes) { set_status (st, 0, 0, 0); return MPI_ERR_IO; }
  set_status (st, 0, 0, bytes);
  return MPI_SUCCESS;
}
int MPI_File_read_at (MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *st)
{
  size_t bytes = (size_t) n * TS (t);
  if (io_hit (iofault.reads)) { set_status (st, 0, 0, 0); return MPI_ERR_IO; }
  ssize_t k = bytes ? pread (f->fd, b, bytes, o) : 0;
  if (k < 0) { set_status (st, 0, 0, 0); return MPI_ERR_IO; }
  set_status (st, 0, 0, (size_t) k);
  return MPI_SUCCESS;
}
int MPI_File_write (MPI_File f, const void *b, int n, MPI_Datatype t, MPI_Status *st)
{ int r = MPI_File_write_at (f, f->pos, b, n, t, st); f->pos += (long) n * t->size; return r; }
int MPI_File_read (MPI_File f, void *b, int n, MPI_Datatype t, MPI_Status *st)
{
  MPI_Status s;
  int r = MPI_File_read_at (f, f->pos, b, n, t, &s);
  f->pos += (long) s._ucount;
  if (st && st != MPI_STATUS_IGNORE) *st = s;
  return r;
}
int MPI_File_write_at_all (MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *st)
{ coll (f->comm, "File_write_at_all", -1, Arg ()); return MPI_File_write_at (f, o, b, n, t, st); }
int MPI_File_read_at_all (MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *st)
{ coll (f->comm, "File_read_at_all", -1, Arg ()); return MPI_File_read_at (f, o, b, n, t, st); }
int MPI_File_write_all (MPI_File f, const void *b, int n, MPI_Datatype t, MPI_Status *st)
{ coll (f->comm, "File_write_all", -1, Arg ()); return MPI_File_write (f, b, n, t, st); }
int MPI_File_read_all (MPI_File f, void *b, int n, MPI_Datatype t, MPI_Status *st)
{ coll (f->comm, "File_read_all", -1, Arg ()); return MPI_File_read (f, b, n, t, st); }
int MPI_File_sync (MPI_File) { return MPI_SUCCESS; }
}

namespace vp
{
static void reset_keyvals () { keyvals.clear (); nextkey = 1000; }
static void finish_checks ()
{
  char b[512];
  W->cur = -1;
#ifndef VP_ASAN
  for (Hdr *x = live_head.next; x != &live_head; x = x->next)
    if (!canary_ok (x)) { snprintf (b, sizeof b, "memory: write beyond the end of a block of %zu bytes (rank %d)", x->size, x->rank); die (FAIL, b); return; }
#endif
  for (auto *c : W->comms) for (auto &e : c->colls) if (e.second->arrived < (int) c->members.size ()) {
    snprintf (b, sizeof b, "collective %s entered by %d of %zu processes only", e.second->kind, e.second->arrived, c->members.size ());
    die (FAIL, b);
    return;
  }
  if (W->opt.leak_mpi) {
    for (auto &r : W->rk) for (auto *m : r.inbox) {
      snprintf (b, sizeof b, "leftover message from %d to %d tag %d (%zu bytes) was never received", m->wsrc, m->wdst, m->tag, m->data.size ());
      die (FAIL, b);
      return;
    }
    for (auto *q : W->reqs) { snprintf (b, sizeof b, "request of rank %d never completed (%s tag %d)", q->owner, q->k == ompi_request_t::SEND ? "send" : q->k == ompi_request_t::RECV ? "receive" : "collective", q->tag); die (FAIL, b); return; }
    for (auto *c : W->comms) if (c->id > W->P) for (size_t i = 0; i < c->alive.size (); ++i) if (c->alive[i]) { snprintf (b, sizeof b, "communicator of size %zu not freed by rank %d", c->members.size (), c->members[i]); die (FAIL, b); return; }
    if (!W->groups.empty ()) { die (FAIL, "MPI group not freed"); return; }
    if (!W->types.empty ()) { die (FAIL, "MPI datatype not freed"); return; }
    if (!W->ops.empty ()) { die (FAIL, "MPI op not freed"); return; }
    if (!W->wins.empty ()) { die (FAIL, "MPI window not freed"); return; }
    if (!W->files.empty ()) { die (FAIL, "MPI file not closed"); return; }
  }
  if (W->opt.leak_mem)
    for (auto &r : W->rk) if (r.live) {
      size_t sz = 0;
#ifndef VP_ASAN
      for (Hdr *x = live_head.next; x != &live_head; x = x->next) if (x->rank == r.id) sz += x->size;
#endif
      snprintf (b, sizeof b, "memory: rank %d leaks %ld blocks (%zu bytes)", r.id, r.live, sz);
      die (FAIL, b);
      return;
    }
}
static void cleanup ()
{
  for (auto *c : W->comms) { for (auto &q : c->colls) delete q.second; delete c; }
  for (auto *r : W->reqs) delete r;
  for (auto *m : W->msgs) delete m;
  for (auto *g : W->groups) delete g;
  for (auto *t : W->types) delete t;
  for (auto *o : W->ops) delete o;
  for (auto *w : W->wins) delete w;
  for (auto *f : W->files) { close (f->fd); delete f; }
}
}
