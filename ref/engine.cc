#include "engine.hh"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vp
{
Engine E;
static const int MAXW = 16, MAXST = 2048, MAXCNT = 32, MAXTR = 512, MAXSAMP = 4;

struct Slot
{
  volatile long outer, inner, beat;
  volatile int status;          // 0 running 1 done 2 violation
  long ntrace;
  int trace[MAXTR];
  char msg[4096], desc[8192], key[256];
  long cases, subs, execs, states, transitions, validated, choices, messages, collectives, switches;
  long capped;                  // stages cut by the time limit
  struct St { long outer_total, outer, subs, execs; int cut; } st[MAXST];
  long cnt[MAXCNT];
  long known[64];
  long capexec;
  int nsamp;
  char samp[MAXSAMP][1200];
};
struct Shared { Slot s[MAXW]; };
static Shared *S;
static Slot *me_;
static int wid = 0, nw = 8;
static long rep_outer = -1, rep_inner = -1;
static std::vector<int> rep_trace;
static bool have_rep_trace = false;
static double t0, limit_s = 1e9;
static long stride = 1;         // run only every n-th inner case (secondary build flavors)
static long outer_ctr = -1, inner_ctr = -1;
static int stage_id = -1;
static std::vector<std::string> stages;
static std::vector<std::string> cntnames;
static std::function<std::string()> descf;
static std::vector<std::string> knownkeys;

static double now () { timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
std::string strf (const char *fmt, ...)
{
  char b[8192];
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  return b;
}
bool Engine::replaying () const { return rep_outer >= 0; }
bool Engine::expired () const { return !replaying () && now () - t0 > limit_s; }
void Engine::stage (const char *fmt, ...)
{
  char b[1024];
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  stages.push_back (b);
  stage_id = (int) stages.size () - 1;
  if (stage_id >= MAXST) { fprintf (stderr, "too many stages\n"); _exit (90); }
}
bool Engine::take ()
{
  if (stage_id < 0) stage ("default");
  ++outer_ctr;
  inner_ctr = -1;
  me_->st[stage_id].outer_total++;
  if (replaying ()) { me_->outer = outer_ctr; return outer_ctr == rep_outer; }
  if (expired ()) { me_->st[stage_id].cut = 1; return false; }
  if (outer_ctr % nw != wid) return false;
  me_->outer = outer_ctr;
  me_->inner = -1;
  me_->beat++;
  me_->cases++;
  me_->st[stage_id].outer++;
  return true;
}
bool Engine::sub ()
{
  ++inner_ctr;
  if (replaying ()) { me_->inner = inner_ctr; return rep_inner < 0 || inner_ctr == rep_inner; }
  if ((inner_ctr & 63) == 63 && expired ()) { me_->st[stage_id].cut = 1; return false; }
  if (me_->st[stage_id].cut) return false;
  if (stride > 1 && (inner_ctr + outer_ctr) % stride) return false;
  me_->inner = inner_ctr;
  me_->beat++;
  me_->subs++;
  me_->st[stage_id].subs++;
  return true;
}
void Engine::describe (std::function<std::string()> f)
{
  descf = std::move (f);
  if (replaying ()) { std::string d = descf (); snprintf (me_->desc, sizeof me_->desc, "%s", d.c_str ()); }
  else if (me_->nsamp < MAXSAMP && (me_->subs & (me_->subs - 1)) == 0 && me_->subs >= (1 << (5 * me_->nsamp))) {
    snprintf (me_->samp[me_->nsamp], sizeof me_->samp[0], "%s", descf ().c_str ());
    me_->nsamp++;
  }
}
void Engine::transition (long n) { me_->transitions += n; }
void Engine::state (long n) { me_->states += n; }
void Engine::validated (long n) { me_->validated += n; }
void Engine::count (const char *name, long n)
{
  size_t i = 0;
  for (; i < cntnames.size (); ++i) if (cntnames[i] == name) break;
  if (i == cntnames.size ()) cntnames.push_back (name);
  // names are recorded in the slot region by index; all workers use the same
  // order only by chance, so hash the name to a fixed index
  unsigned h = 5381;
  for (const char *p = name; *p; ++p) h = h * 33 + (unsigned char) *p;
  me_->cnt[h % MAXCNT] += n;
}
static bool is_known (const std::string &k)
{
  if (k.empty ()) return false;
  for (size_t i = 0; i < knownkeys.size () && i < 64; ++i) if (knownkeys[i] == k) { me_->known[i]++; return true; }
  return false;
}
static void report (const char *msg, const Trace *tr)
{
  snprintf (me_->msg, sizeof me_->msg, "%s", msg);
  if (descf) snprintf (me_->desc, sizeof me_->desc, "%s", descf ().c_str ());
  snprintf (me_->key, sizeof me_->key, "%s", E.key.c_str ());
  me_->ntrace = 0;
  if (tr) for (auto &c : tr->rec) if (me_->ntrace < MAXTR) me_->trace[me_->ntrace++] = c.first;
  me_->outer = outer_ctr;
  me_->inner = inner_ctr;
  me_->status = 2;
  if (E.replaying ()) {
    std::string ts;
    if (tr) for (size_t i = 0; i < tr->rec.size (); ++i) if (tr->rec[i].first) ts += strf (" #%zu=%d/%d(%s)", i, tr->rec[i].first, tr->rec[i].second, tr->tag[i]);
    printf ("case: %s\nschedule:%s (all other choices default)\nfailure: %s\n", me_->desc, ts.empty () ? " default" : ts.c_str (), msg);
    fflush (stdout);
  }
  if (!E.scratch.empty () && E.scratch.size () > 10) { std::string c = "/bin/rm -rf '" + E.scratch + "'"; if (system (c.c_str ())) {} }
  _exit (10);
}
void Engine::bad (const char *fmt, ...)
{
  char b[4096];
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  if (in_rank ()) fail ("%s", b);
  if (is_known (key)) return;
  report (b, nullptr);
}
static void account (const Outcome &o, const Trace &t)
{
  me_->execs++;
  me_->st[stage_id].execs++;
  me_->choices += (long) t.rec.size ();
  me_->messages += o.messages;
  me_->collectives += o.collectives;
  me_->switches += o.switches;
  me_->beat++;
}
Outcome Engine::once (int P, const Options &opt, const std::function<void(int)> &body)
{
  Trace t;
  Outcome o = run_world (P, opt, t, body);
  account (o, t);
  return o;
}
bool Engine::run (int P, const Options &opt, const std::function<void(int)> &body, const std::function<void()> &before, const std::function<void()> &after)
{
  struct Item { std::vector<int> pre; int dev; };
  // fewest deviations first; a cap on the executions keeps a sample of the
  // deviations that is spread over the whole execution
  std::vector<std::map<unsigned, Item>> todo ((size_t) maxdev + 1);
  size_t waiting = 1;
  unsigned serial = 0;
  todo[0][0] = {{}, 0};
  long n = 0;
  bool clean = true;
  if (replaying () && have_rep_trace) todo[0][0].pre = rep_trace;
  while (waiting > 0) {
    size_t lev = 0;
    while (todo[lev].empty ()) ++lev;
    Item it = std::move (todo[lev].begin ()->second);
    todo[lev].erase (todo[lev].begin ());
    --waiting;
    Trace t;
    t.pre = it.pre;
    if (before) before ();
    Outcome o = run_world (P, opt, t, body);
    account (o, t);
    ++n;
    if (o.kind == OK && after) {
      // host-side oracle; it calls bad()
      after ();
    }
    if (o.kind != OK && !(o.kind == ABORT && opt.allow_abort)) {
      std::string m = strf ("%s on rank %d: %s", o.kind == FAIL ? "failure" : o.kind == ABORT ? "abort" : "deadlock", o.rank, o.why.c_str ());
      if (is_known (key)) clean = false;
      else report (m.c_str (), &t);
    }
    if (replaying () && have_rep_trace) break;
    if (!opt.choices) break;
    if (it.dev < maxdev)
      for (size_t i = t.rec.size (); i-- > it.pre.size ();)
        for (int a = t.rec[i].second - 1; a >= 1; --a) {
          Item x;
          for (size_t k = 0; k < i; ++k) x.pre.push_back (t.rec[k].first);
          x.pre.push_back (a);
          x.dev = it.dev + 1;
          // odd multiplier: a bijection
          todo[(size_t) x.dev][++serial * 2654435761u] = x;
          ++waiting;
        }
    if (n >= maxexec && waiting > 0) { me_->capexec++; break; }
  }
  return clean;
}
}

using namespace vp;

static std::string jstr (const std::string &s)
{
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((unsigned char) c < 32) o += strf ("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}

int main (int argc, char **argv)
{
  std::string prop = "X", outdir = "/tmp", replay, tmp = "/tmp";
  std::string self = argv[0], label = "h";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string (i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = val ();
    else if (a == "--out") outdir = val ();
    else if (a == "--label") label = val ();
    else if (a == "--limit") limit_s = atof (val ().c_str ());
    else if (a == "--workers") nw = std::min (MAXW, atoi (val ().c_str ()));
    else if (a == "--thorough") E.thorough = true;
    else if (a == "--replay") replay = val ();
    else if (a == "--known") knownkeys.push_back (val ());
    else if (a == "--stride") stride = std::max (1, atoi (val ().c_str ()));
    else if (a == "--verbose") verbose = true;
    else if (a == "--tmp") tmp = val ();
  }
  signal (SIGPIPE, SIG_IGN);
  S = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  t0 = now ();
  auto mkscratch = [&] {
    std::string t = tmp + "/vp.XXXXXX";
    std::vector<char> b (t.begin (), t.end ());
    b.push_back (0);
    if (!mkdtemp (b.data ())) { perror ("mkdtemp"); _exit (91); }
    E.scratch = b.data ();
    if (chdir (E.scratch.c_str ())) _exit (91);
  };
  auto rmscratch = [](const std::string &d) { if (d.size () > 10) { std::string c = "/bin/rm -rf '" + d + "'"; if (system (c.c_str ())) {} } };
  if (!replay.empty ()) {
    // outer.inner[:c,c,c]
    rep_outer = atol (replay.c_str ());
    size_t p = replay.find ('.');
    rep_inner = p == std::string::npos ? -1 : atol (replay.c_str () + p + 1);
    p = replay.find (':');
    if (p != std::string::npos) {
      have_rep_trace = true;
      const char *c = replay.c_str () + p + 1;
      while (*c) { rep_trace.push_back (atoi (c)); c = strchr (c, ','); if (!c) break; ++c; }
    }
    me_ = &S->s[0];
    mkscratch ();
    enumerate ();
    rmscratch (E.scratch);
    printf ("replay: no violation\n");
    return 0;
  }
  pid_t pid[MAXW];
  std::string dirs[MAXW];
  struct stat sb;
  for (int w = 0; w < nw; ++w) {
    mkscratch ();
    dirs[w] = E.scratch;
    pid[w] = fork ();
    if (pid[w] == 0) {
      wid = w;
      me_ = &S->s[w];
#ifndef __SANITIZE_ADDRESS__
      rlimit rl{3UL << 30, 3UL << 30};
      setrlimit (RLIMIT_AS, &rl);
#endif
      rlimit rc{0, 0};
      setrlimit (RLIMIT_CORE, &rc);
      enumerate ();
      // publish stage names through worker 0
      if (w == 0) {
        FILE *f = fopen ((outdir + "/" + label + ".stages").c_str (), "w");
        if (f) { for (auto &s : stages) fprintf (f, "%s\n", s.c_str ()); fclose (f); }
        f = fopen ((outdir + "/" + label + ".counters").c_str (), "w");
        if (f) {
          for (auto &s : cntnames) { unsigned h = 5381; for (char c : s) h = h * 33 + (unsigned char) c; fprintf (f, "%u %s\n", h % MAXCNT, s.c_str ()); }
          fclose (f);
        }
      }
      me_->status = 1;
      _exit (0);
    }
  }
  if (chdir ("/")) {}
  int left = nw, hit = -1;
  bool crash = false, hang = false, err = false;
  std::string how;
  std::vector<long> lastbeat (nw, -1);
  std::vector<double> lastt (nw, now ());
  std::vector<bool> gone (nw, false);
  while (left > 0 && hit < 0) {
    int st;
    pid_t p = waitpid (-1, &st, WNOHANG);
    if (p > 0) {
      int w = -1;
      for (int i = 0; i < nw; ++i) if (pid[i] == p) w = i;
      if (w < 0) continue;
      --left;
      gone[w] = true;
      if (WIFSIGNALED (st)) { hit = w; crash = true; how = strf ("crash: signal %d (%s)", WTERMSIG (st), strsignal (WTERMSIG (st))); }
      else if (WEXITSTATUS (st) == 10) hit = w;
      else if (WEXITSTATUS (st) != 0) {
        hit = w; crash = true;
        how = strf ("process ended with status %d", WEXITSTATUS (st));
        if (WEXITSTATUS (st) >= 90 && WEXITSTATUS (st) <= 99) { err = true; }
      }
      continue;
    }
    double t = now ();
    for (int w = 0; w < nw; ++w) if (!gone[w]) {
      if (S->s[w].beat != lastbeat[w]) { lastbeat[w] = S->s[w].beat; lastt[w] = t; }
      else if (t - lastt[w] > 40 && S->s[w].inner >= 0) { hit = w; hang = true; how = "hang: no progress for 40 s"; }
    }
    usleep (2000);
  }
  for (int w = 0; w < nw; ++w) if (!gone[w]) kill (pid[w], SIGKILL);
  for (int w = 0; w < nw; ++w) if (!gone[w]) waitpid (pid[w], nullptr, 0);
  for (int w = 0; w < nw; ++w) rmscratch (dirs[w]);
  int rc = 0;
  if (hit >= 0) {
    Slot &s = S->s[hit];
    std::string rs = strf ("%ld.%ld", s.outer, s.inner);
    if (!crash && !hang && s.ntrace > 0) { rs += ":"; for (long i = 0; i < s.ntrace; ++i) rs += strf ("%s%d", i ? "," : "", s.trace[i]); }
    std::string cmd = self + " --prop " + prop + (E.thorough ? " --thorough" : "") + " --tmp " + tmp;
    for (auto &k : knownkeys) cmd += " --known '" + k + "'";
    cmd += " --replay " + rs;
    std::string file = outdir + "/" + label + "-" + strf ("%ld.%ld", s.outer, s.inner) + ".replay";
    // confirm in a fresh process
    std::string outp;
    bool confirmed = false;
    for (int tries = 0; tries < 3 && !confirmed; ++tries) {
      outp.clear ();
      FILE *f = popen (("timeout -s KILL 150 " + cmd + " 2>&1").c_str (), "r");
      char b[4096];
      size_t k;
      while ((k = fread (b, 1, sizeof b, f)) > 0) outp.append (b, k);
      int st = pclose (f);
      int ec = WIFEXITED (st) ? WEXITSTATUS (st) : -1;
      confirmed = !(ec == 0);
      if (WIFEXITED (st) && ec >= 90 && ec <= 99) { err = true; break; }
      if (confirmed && ec == 137) how = "hang: replay alone did not finish in 150 s";
    }
    if (err) {
      fprintf (stderr, "%s: internal error: %s\ncase %s\n%s\n%s\n", label.c_str (), how.c_str (), rs.c_str (), s.desc, outp.c_str ());
      rc = 4;
    }
    else if (!confirmed) {
      fprintf (stderr, "%s: unconfirmed failure %s (%s): %s\n%s\n", label.c_str (), rs.c_str (), how.c_str (), s.msg, outp.c_str ());
      rc = 5;
    }
    else {
      FILE *f = fopen (file.c_str (), "w");
      if (f) {
        fprintf (f, "property %s\nreplay: %s\n%s%s\n%s\n", prop.c_str (), cmd.c_str (), crash || hang ? how.c_str () : "", crash || hang ? "" : s.msg, outp.c_str ());
        fclose (f);
      }
      printf ("DETAIL %s\n", (crash || hang ? how + " | " + outp.substr (0, 1500) : std::string (s.msg) + " | " + s.desc).c_str ());
      printf ("VIOLATION property=%s replay=%s\n", prop.c_str (), file.c_str ());
      rc = 1;
    }
  }
  // statistics
  long c = 0, su = 0, ex = 0, sts = 0, tr = 0, va = 0, ch = 0, ms = 0, co = 0, sw = 0, ce = 0;
  std::vector<long> st_o (MAXST), st_t (MAXST), st_s (MAXST), st_e (MAXST), cn (MAXCNT), kn (64);
  std::vector<int> cut (MAXST);
  std::vector<std::string> samp;
  for (int w = 0; w < nw; ++w) {
    Slot &s = S->s[w];
    c += s.cases; su += s.subs; ex += s.execs; sts += s.states; tr += s.transitions; va += s.validated; ch += s.choices; ms += s.messages; co += s.collectives; sw += s.switches; ce += s.capexec;
    for (int i = 0; i < MAXST; ++i) { st_o[i] += s.st[i].outer; st_t[i] = std::max (st_t[i], s.st[i].outer_total); st_s[i] += s.st[i].subs; st_e[i] += s.st[i].execs; cut[i] |= s.st[i].cut; }
    for (int i = 0; i < MAXCNT; ++i) cn[i] += s.cnt[i];
    for (int i = 0; i < 64; ++i) kn[i] += s.known[i];
    for (int i = 0; i < s.nsamp; ++i) samp.push_back (s.samp[i]);
  }
  std::string js = strf ("{\"label\":%s,\"cases\":%ld,\"subs\":%ld,\"execs\":%ld,\"states\":%ld,\"transitions\":%ld,\"validated\":%ld,\"choices\":%ld,\"messages\":%ld,\"collectives\":%ld,\"switches\":%ld,\"capexec\":%ld,\"wall\":%.2f",
                         jstr (label).c_str (), c, su, ex, sts, tr, va, ch, ms, co, sw, ce, now () - t0);
  js += ",\"stages\":[";
  if (FILE *f = fopen ((outdir + "/" + label + ".stages").c_str (), "r")) {
    char b[1200];
    int i = 0;
    while (fgets (b, sizeof b, f)) {
      b[strcspn (b, "\n")] = 0;
      js += strf ("%s{\"space\":%s,\"cases\":%ld,\"of\":%ld,\"subcases\":%ld,\"executions\":%ld,\"complete\":%s}", i ? "," : "", jstr (b).c_str (), st_o[i], st_t[i], st_s[i], st_e[i], cut[i] ? "false" : "true");
      ++i;
    }
    fclose (f);
    unlink ((outdir + "/" + label + ".stages").c_str ());
  }
  js += "],\"counters\":{";
  if (FILE *f = fopen ((outdir + "/" + label + ".counters").c_str (), "r")) {
    unsigned k;
    char b[256];
    int i = 0;
    while (fscanf (f, "%u %255[^\n]", &k, b) == 2) js += strf ("%s%s:%ld", i++ ? "," : "", jstr (b).c_str (), cn[k]);
    fclose (f);
    unlink ((outdir + "/" + label + ".counters").c_str ());
  }
  js += "},\"known\":{";
  for (size_t i = 0; i < knownkeys.size () && i < 64; ++i) js += strf ("%s%s:%ld", i ? "," : "", jstr (knownkeys[i]).c_str (), kn[i]);
  js += "},\"samples\":[";
  for (size_t i = 0; i < samp.size () && i < 6; ++i) js += (i ? "," : "") + jstr (samp[i]);
  js += "]}";
  printf ("STATS %s\n", js.c_str ());
  (void) sb;
  return rc;
}
