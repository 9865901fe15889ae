// C27 Extruded 2D+1D forests adapt, balance and repartition columns exactly
#include "ref/p6.hh"
#include <p6est_communication.h>
#include <unistd.h>
using namespace br;

// ------------------------------------------------------------------- context
struct Ctx6
{
  int64_t H = R;
  size_t ds = 9;
  bool init = true, replace = true, orphans = false, plain = false;
  LayerFn layer;                        // answer of the layer callbacks (coarsen: by the parent)
  ColFn col;
  std::function<int (const Cell &, int64_t, int)> weight;
  std::vector<Events> ev, in, orph;     // what happened, per process
};
static Ctx6 X;
static char user_a;
static int me () { return vp::me (); }
static Cell cell (p4est_quadrant_t *c, p4est_topidx_t t) { return to_cell (*c, t); }
static void check_data (p6est_t *p, const Cell &c, p2est_quadrant_t *l, const char *what)
{
  if (p->user_pointer != &user_a) fail ("%s: user_pointer", what);
  if (p->data_size != X.ds) fail ("%s: data size", what);
  if (X.ds && !data6_ok (l->p.user_data, X.ds, c, l->z, l->level)) fail ("%s: layer %d level %d of column %s has lost its data", what, (int) l->z, l->level, str (c).c_str ());
}
extern "C" {
static void cb_init6 (p6est_t *p, p4est_topidx_t t, p4est_quadrant_t *c, p2est_quadrant_t *l)
{
  if (p->user_pointer != &user_a) fail ("init: user_pointer");
  if (X.ds) data6 ((unsigned char *) l->p.user_data, X.ds, cell (c, t), l->z, l->level);
  X.in[(size_t) me ()].add ("i", cell (c, t), l->z, l->level);
}
static int cb_rl (p6est_t *p, p4est_topidx_t t, p4est_quadrant_t *c, p2est_quadrant_t *l) { check_data (p, cell (c, t), l, "refine"); return X.layer (cell (c, t), l->z, l->level); }
static int cb_rc (p6est_t *p, p4est_topidx_t t, p4est_quadrant_t *c) { if (p->user_pointer != &user_a) fail ("refine columns: user_pointer"); return X.col (cell (c, t)); }
static int cb_cl (p6est_t *p, p4est_topidx_t t, p4est_quadrant_t *c, p2est_quadrant_t *l[])
{
  Cell k = cell (c, t);
  check_data (p, k, l[0], "coarsen");
  if (!l[1]) {
    if (!X.orphans) fail ("coarsen callback called with an orphan");
    X.orph[(size_t) me ()].add ("o", k, l[0]->z, l[0]->level);
    return 1;
  }
  check_data (p, k, l[1], "coarsen");
  int v = l[0]->level;
  if (v < 1 || l[1]->level != v || l[0]->z % len (v - 1) || l[1]->z != l[0]->z + len (v)) fail ("coarsen callback called without a family");
  return X.layer (k, l[0]->z, v - 1);
}
static int cb_cc (p6est_t *p, p4est_topidx_t t, p4est_quadrant_t *c[])
{
  if (p->user_pointer != &user_a) fail ("coarsen columns: user_pointer");
  if (!c[1]) { if (!X.orphans) fail ("coarsen callback called with an orphan"); return 1; }
  Cell k = parent (cell (c[0], t));
  for (int i = 0; i < NC; ++i) if (cell (c[i], t) != child (k, i)) fail ("coarsen columns: no family");
  return X.col (k);
}
static int cb_w (p6est_t *p, p4est_topidx_t t, p4est_quadrant_t *c, p2est_quadrant_t *l) { check_data (p, cell (c, t), l, "weight"); return X.weight (cell (c, t), l->z, l->level); }
static void cb_rep (p6est_t *p, p4est_topidx_t t, int noc, int nol, p4est_quadrant_t *oc[], p2est_quadrant_t *ol[], int nic, int nil, p4est_quadrant_t *ic[], p2est_quadrant_t *il[])
{
  if (noc != 1 && noc != NC) fail ("replace: %d outgoing columns", noc);
  for (int i = 0; i < nol; ++i) check_data (p, cell (oc[noc == 1 ? 0 : i], t), ol[i], "outgoing");
  for (int i = 0; i < nil; ++i) {
    Cell c = cell (ic[nic == 1 ? 0 : i], t);
    if (X.init) check_data (p, c, il[i], "incoming");
    else if (X.ds) { if (!il[i]->p.user_data) fail ("incoming layer without data"); data6 ((unsigned char *) il[i]->p.user_data, X.ds, c, il[i]->z, il[i]->level); }
  }
  auto &E = X.ev[(size_t) me ()];
  Cell c = cell (oc[0], t);
  if (noc == 1 && nol == 1 && nic == NC && nil == NC) {
    for (int i = 0; i < NC; ++i) if (cell (ic[i], t) != child (c, i) || il[i]->z != ol[0]->z || il[i]->level != ol[0]->level) fail ("replace: wrong incoming columns or layers");
    E.add ("S", c, ol[0]->z, ol[0]->level);
  }
  else if (noc == 1 && nol == 1 && nic == 1 && nil == 2) {
    if (cell (ic[0], t) != c) fail ("replace: column changed");
    for (int i = 0; i < 2; ++i) if (il[i]->level != ol[0]->level + 1 || il[i]->z != ol[0]->z + i * len (il[i]->level)) fail ("replace: wrong incoming layers");
    E.add ("L", c, ol[0]->z, ol[0]->level);
  }
  else if (noc == 1 && nol == 2 && nic == 1 && nil == 1) {
    if (cell (ic[0], t) != c) fail ("replace: column changed");
    for (int i = 0; i < 2; ++i) if (ol[i]->level != il[0]->level + 1 || ol[i]->z != il[0]->z + i * len (ol[i]->level)) fail ("replace: wrong outgoing layers");
    E.add ("M", c, il[0]->z, il[0]->level);
  }
  else if (noc == NC && nol == NC && nic == 1 && nil == 1) {
    Cell k = cell (ic[0], t);
    for (int i = 0; i < NC; ++i) if (cell (oc[i], t) != child (k, i) || ol[i]->z != il[0]->z || ol[i]->level != il[0]->level) fail ("replace: wrong outgoing columns or layers");
    E.add ("J", k, il[0]->z, il[0]->level);
  }
  else fail ("replace: %d columns %d layers by %d columns %d layers", noc, nol, nic, nil);
}
}
static void barrier (sc_MPI_Comm c) { sc_MPI_Barrier (c); }

// --------------------------------------------------------------------- steps
enum Kind { RL, RC, CL, CC, BAL, PART, GIVEN, COPY, RESET, FILE6, NKIND };
static const char *kind_name[] = {"refine-layers", "refine-columns", "coarsen-layers", "coarsen-columns", "balance", "partition", "partition-given", "copy", "reset-data", "save-load"};
struct Step
{
  Kind k;
  bool rec = false;
  int maxl = -1, var = 0, type = 2, maxd = 0, mind = 1;
  LayerFn layer;
  ColFn col;
  std::function<int (const Cell &, int64_t, int)> weight;
  // filled by plan
  Cols from, to;
  std::vector<int> g, h, num;           // distribution before and after
  size_t ds = 0;
  Events ev;
  bool weighted = false, pfc = false;
  long shipped = 0;
};
static long moved (const Cols &C, const std::vector<int> &g, const std::vector<int> &h)
{
  long n = 0;
  for (size_t i = 0; i < C.size (); ++i) if (owner_of (g, (int) i) != owner_of (h, (int) i)) n += (long) C[i].lv.size ();
  return n;
}
static void plan (Step &s, const std::shared_ptr<const Conn> &m, const Cols &C, const std::vector<int> &g, int64_t H, size_t &ds)
{
  int P = (int) g.size () - 1, ml = s.maxl < 0 ? QMAX : s.maxl;
  s.from = s.to = C;
  s.g = s.h = g;
  s.ds = ds;
  switch (s.k) {
  case RL: s.to = refine_layers (C, s.rec, ml, s.layer, s.ev); break;
  case RC: s.to = refine_columns (C, s.rec, ml, s.col, s.ev); s.h = follow (C, g, s.to); break;
  case CL: s.to = coarsen_layers (C, H, s.rec, s.layer, s.ev); break;
  case CC: s.to = coarsen_columns (C, s.h, s.rec, s.col, s.ev); break;
  case BAL: s.to = balance6 (m, C, s.type, s.maxd, s.mind, s.ev); s.h = follow (C, g, s.to); break;
  case PART: {
    std::vector<int> w;
    for (auto &k : C) { int64_t z = 0; int x = 0; for (int l : k.lv) { x += s.weighted ? s.weight (k.c, z, l) : 1; z += len (l); } w.push_back (x); }
    s.h = weighted_cuts (w, P, g);
    long tot = 0;
    for (int x : w) tot += x;
    if (s.pfc && tot) s.h = for_coarsening (cells_of (C), s.h);
    s.shipped = moved (C, g, s.h);
    break;
  }
  case GIVEN: {
    // distribution of the layers at random, moved to the ends of columns
    std::vector<int> cut {0};
    int n = layers_in (C, 0, (int) C.size ());
    std::vector<int> b;
    for (int p = 1; p < P; ++p) b.push_back ((int) (key6 (C[0].c, p, s.var, (uint64_t) n) % (uint64_t) (n + 1)));
    std::sort (b.begin (), b.end ());
    cut.insert (cut.end (), b.begin (), b.end ());
    cut.push_back (n);
    s.num.clear ();
    for (int p = 0; p < P; ++p) s.num.push_back (cut[(size_t) p + 1] - cut[(size_t) p]);
    for (int p = 1; p < P; ++p) { int k = 0; while (layers_in (C, 0, k) < cut[(size_t) p]) ++k; s.h[(size_t) p] = k; }
    if (s.pfc) s.h = for_coarsening (cells_of (C), s.h);
    s.shipped = moved (C, g, s.h);
    break;
  }
  case RESET: ds = ds == 0 ? 8 : ds == 9 ? 0 : ds == 8 ? 9 : 9; break;
  case FILE6: if (s.var & 1) s.h = equal_cuts ((int) C.size (), P); break;
  default: break;
  }
}
static void compare (std::vector<Events> &v, std::vector<Event> want, const char *what, const char *kind)
{
  std::vector<Event> got;
  for (auto &e : v) got.insert (got.end (), e.v.begin (), e.v.end ());
  std::sort (got.begin (), got.end ());
  std::sort (want.begin (), want.end ());
  if (got == want) return;
  std::string a, b;
  size_t i = 0, j = 0;
  while (i < got.size () || j < want.size ()) {
    if (j == want.size () || (i < got.size () && got[i] < want[j])) a += " " + str (got[i++]) + ",";
    else if (i == got.size () || want[j] < got[i]) b += " " + str (want[j++]) + ",";
    else ++i, ++j;
  }
  fail ("%s: %s: unexpected%s missing%s", kind, what, a.c_str (), b.c_str ());
}
static void clear_log (p6est_t *p)
{
  barrier (p->mpicomm);
  if (me () == 0) { size_t P = (size_t) p->mpisize; X.ev.assign (P, {}); X.in.assign (P, {}); X.orph.assign (P, {}); }
  barrier (p->mpicomm);
}
static const p8est_connect_type_t type6[] = {P8EST_CONNECT_FACE, P8EST_CONNECT_EDGE, P8EST_CONNECT_FULL};
struct Own { std::vector<p6est_connectivity_t *> k; };
static void execute (Step &s, p6est_t *&p, const std::string &dir, Own &own, int nr)
{
  int P = p->mpisize, r = p->mpirank;
  p6est_init_t ini = X.init ? cb_init6 : NULL;
  p6est_replace_t rep = X.replace ? cb_rep : NULL;
  size_t ds = s.ds;
  clear_log (p);
  if (r == 0) { X.layer = s.layer; X.col = s.col; X.weight = s.weight; X.ds = s.ds; }
  barrier (p->mpicomm);
  bool plain = s.maxl < 0 && !X.replace && !X.orphans && s.var % 2;
  switch (s.k) {
  case RL: if (plain) p6est_refine_layers (p, s.rec, cb_rl, ini); else p6est_refine_layers_ext (p, s.rec, s.maxl, cb_rl, ini, rep); break;
  case RC: if (plain) p6est_refine_columns (p, s.rec, cb_rc, ini); else p6est_refine_columns_ext (p, s.rec, s.maxl, cb_rc, ini, rep); break;
  case CL: if (plain) p6est_coarsen_layers (p, s.rec, cb_cl, ini); else p6est_coarsen_layers_ext (p, s.rec, X.orphans, cb_cl, ini, rep); break;
  case CC: if (plain) p6est_coarsen_columns (p, s.rec, cb_cc, ini); else p6est_coarsen_columns_ext (p, s.rec, X.orphans, cb_cc, ini, rep); break;
  case BAL: if (!X.replace && s.maxd == 0 && s.mind == 1) p6est_balance (p, type6[s.type], ini); else p6est_balance_ext (p, type6[s.type], s.maxd, s.mind, ini, rep); break;
  case PART: {
    p6est_weight_t w = s.weighted ? cb_w : NULL;
    p4est_gloidx_t n = s.pfc || s.var % 2 ? p6est_partition_ext (p, s.pfc, w) : p6est_partition (p, w);
    if (n != s.shipped) fail ("partition returns %lld shipped layers, expected %ld", (long long) n, s.shipped);
    break;
  }
  case GIVEN: {
    std::vector<p4est_locidx_t> num (s.num.begin (), s.num.end ()), q ((size_t) P), k ((size_t) P);
    p6est_partition_correct (p, num.data ());
    if (s.pfc) p6est_partition_for_coarsening (p, num.data ());
    for (int i = 0; i < P; ++i) if (num[(size_t) i] != layers_in (s.from, s.h[(size_t) i], s.h[(size_t) i + 1])) fail ("corrected distribution of layers: process %d gets %d layers, expected %d", i, (int) num[(size_t) i], layers_in (s.from, s.h[(size_t) i], s.h[(size_t) i + 1]));
    p6est_partition_to_p4est_partition (p, num.data (), q.data ());
    for (int i = 0; i < P; ++i) if (q[(size_t) i] != s.h[(size_t) i + 1] - s.h[(size_t) i]) fail ("distribution of columns: process %d gets %d, expected %d", i, (int) q[(size_t) i], s.h[(size_t) i + 1] - s.h[(size_t) i]);
    p4est_partition_to_p6est_partition (p, q.data (), k.data ());
    if (k != num) fail ("distribution of columns translates to other layers");
    p4est_gloidx_t n = p6est_partition_given (p, num.data ());
    if (n != s.shipped) fail ("partition_given returns %lld shipped layers, expected %ld", (long long) n, s.shipped);
    break;
  }
  case COPY: {
    p6est_t *q = s.var % 3 == 2 ? p6est_copy_ext (p, 1, 1) : s.var % 3 ? p6est_copy_ext (p, 1, 0) : p6est_copy (p, 1);
    if (q->columns == p->columns || q->layers == p->layers) fail ("copy is not deep");
    check_p6est (p, s.from, s.g, X.H, ds, true, &user_a, "copied");
    if (s.var % 2) {
      p6est_t *e = p6est_copy (p, 0);
      check_p6est (e, s.from, s.g, X.H, 0, false, &user_a, "copy without data");
      p6est_destroy (e);
    }
    // destroying one does not affect the other
    for (size_t i = 0; i < p->layers->elem_count; ++i) { p2est_quadrant_t *l = p2est_quadrant_array_index ((s.var % 3 == 2 ? q : p)->layers, i); if (ds) memset (l->p.user_data, 77, ds); }
    if (s.var % 3 == 2) { p6est_destroy (q); break; }
    p6est_destroy (p);
    p = q;
    break;
  }
  case RESET: {
    size_t n = ds == 0 ? 8 : ds == 9 ? 0 : 9;
    if (r == 0) X.ds = n;
    barrier (p->mpicomm);
    p6est_reset_data (p, n, cb_init6, &user_a);
    if (p->data_size != n) fail ("reset: data size");
    break;
  }
  case FILE6: {
    std::string f = dir + strf ("/s%d.p6est", nr);
    bool data = s.var / 2 % 2 || !ds;
    if (s.var % 2 && s.var % 4 == 3) p6est_save (f.c_str (), p, data); else p6est_save_ext (f.c_str (), p, data, s.var % 2 ? s.var / 4 % 2 : 1);
    barrier (p->mpicomm);
    p6est_connectivity_t *k = NULL;
    sc_MPI_Comm c = p->mpicomm;
    bool own_comm = p->mpicomm_owned;
    if (own_comm) c = sc_MPI_COMM_WORLD;
    p6est_t *q = p6est_load_ext (f.c_str (), c, ds, data, s.var % 2, s.var / 8 % 2, &user_a, &k);
    p6est_destroy (p);
    own.k.push_back (k);
    p = q;
    if (ds && !data) {
      // memory is there, contents are not
      check_p6est (p, s.to, s.h, X.H, ds, false, &user_a, "loaded without data");
      p6est_reset_data (p, ds, cb_init6, &user_a);
    }
    break;
  }
  default: break;
  }
  size_t nds = s.k == RESET ? (ds == 0 ? 8 : ds == 9 ? 0 : 9) : ds;
  barrier (p->mpicomm);
  check_p6est (p, s.to, s.h, X.H, nds, true, &user_a, kind_name[s.k]);
  barrier (p->mpicomm);
  if (r == 0 && s.k <= BAL) {
    if (X.replace) compare (X.ev, s.ev.v, "replacements", kind_name[s.k]);
    compare (X.in, X.init ? new_layers (s.ev) : std::vector<Event> (), "initializations", kind_name[s.k]);
    if (s.k == CL && X.orphans) {
      std::set<Event> have;
      for (auto &e : X.orph) have.insert (e.v.begin (), e.v.end ());
      for (auto &k : s.to) {
        int64_t z = 0;
        for (size_t i = 0; i < k.lv.size (); ++i) {
          int l = k.lv[i];
          bool fam = false;
          if (l > 0) { bool first = z % len (l - 1) == 0; fam = first ? i + 1 < k.lv.size () && k.lv[i + 1] == l : i > 0 && k.lv[i - 1] == l; }
          if (!fam && !have.count ({'o', k.c, z, l})) fail ("layer %lld of %s not passed as an orphan", (long long) z, str (k).c_str ());
          z += len (l);
        }
      }
    }
  }
  barrier (p->mpicomm);
}
// ---------------------------------------------------------------------- runs
static int mode_of (int k) { return k % 3; }
static void history (HostConn &hc, const Cols &C, const std::vector<int> &g, int64_t H, std::vector<Step> &steps, int k)
{
  // k selects callbacks and options deterministically
  int P = (int) g.size () - 1;
  static const size_t sizes[] = {9, 0, 8};
  X = Ctx6 ();
  X.H = H;
  size_t ds0 = X.ds = sizes[k / 3 % 3], ds = ds0;
  X.init = mode_of (k) != 1;
  X.replace = mode_of (k) != 0;
  X.orphans = k / 2 % 2;
  Cols c = C;
  std::vector<int> h = g;
  for (auto &s : steps) { s.ev.v.clear (); plan (s, hc.m, c, h, H, ds); c = s.to; h = s.h; }
  vp::Options o;
  o.leak_mpi = true;
  o.sync_send = k / 2 % 2;
  o.guard = k % 4 == 3;
  o.loose = k % 3 == 1;
  o.fill = k % 2 ? 0xA5 : 0x3C;
  E.transition ((long) steps.size ());
  E.validated ();
  E.run (P, o, [&](int) {
    rank_begin ();
    int m = me ();
    long live = vp::live_blocks (m);
    p6est_t *p = make_p6est (&hc.c, C, g, H, ds0, &user_a);
    p6est_connectivity_t *k0 = p->connectivity;
    Own own;
    check_p6est (p, C, g, H, ds0, true, &user_a, "given");
    int nr = 0;
    for (auto &s : steps) execute (s, p, E.scratch, own, nr++);
    p6est_destroy (p);
    p6est_connectivity_destroy (k0);
    for (auto *x : own.k) p6est_connectivity_destroy (x);
    if (vp::live_blocks (m) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (m) - live);
    rank_end ();
  });
}
static std::string say (const Step &s)
{
  std::string t = kind_name[s.k];
  if (s.k < BAL) t += strf (s.rec ? " recursive" : "");
  if (s.maxl >= 0) t += strf (" maxlevel %d", s.maxl);
  if (s.k == BAL) t += strf (" type %d max %d min %d", s.type, s.maxd, s.mind);
  if (s.k == PART || s.k == GIVEN) t += strf ("%s%s", s.weighted ? " weighted" : "", s.pfc ? " for coarsening" : "");
  if (s.var) t += strf (" variant %d", s.var);
  return t;
}
static uint64_t hash_of (const HostConn &hc, const Cols &C) { uint64_t h = 7; for (char c : hc.m->name) h = h * 131 + (unsigned char) c; for (auto &k : C) for (size_t i = 0; i < k.lv.size (); ++i) h = key6 (k.c, (int64_t) i, k.lv[i], h); return h; }
static void one (HostConn &hc, const Cols &C, const std::vector<int> &g, int64_t H, std::vector<Step> steps, int k)
{
  E.describe ([=, &hc] { std::string t; for (auto &s : steps) t += "; " + say (s); return strf ("%s cuts %s columns {%s} option %d%s", hc.m->name.c_str (), str (g).c_str (), str (C).c_str (), k, t.c_str ()); });
  history (hc, C, g, H, steps, k);
}
static LayerFn mask_layers (const Cols &C, unsigned mask)
{
  auto s = std::make_shared<std::set<Event>> ();
  int n = 0;
  for (auto &c : C) { int64_t z = 0; for (int l : c.lv) { if (mask >> n++ & 1) s->insert ({'x', c.c, z, l}); z += len (l); } }
  return [s](const Cell &c, int64_t z, int l) { return s->count ({'x', c, z, l}) > 0; };
}
static LayerFn hash_layers (uint64_t salt, int per, int maxl) { return [=](const Cell &c, int64_t z, int l) { return l < maxl && key6 (c, z, l, salt) % (uint64_t) per == 0; }; }
static ColFn hash_cols (uint64_t salt, int per, int maxl) { return [=](const Cell &c) { return c.l < maxl && key6 (c, 0, 0, salt) % (uint64_t) per == 0; }; }
static Step step (Kind k) { Step s; s.k = k; return s; }
// columns L with profiles selected by a number
static Cols with_profiles (const Cells &L, const std::vector<Lv> &pr, uint64_t salt) { Cols C; for (auto &c : L) C.push_back ({c, pr[(size_t) (key6 (c, 1, 1, salt) % pr.size ())]}); return C; }

void enumerate ()
{
  bool th = E.thorough;
  int rot = 0;
  auto unit = named ("unit");
  // (1) layers of one column: all answers
  for (int n : {1, 3, 5}) {
    E.stage ("one column of %d root layers: all profiles, all answers", n);
    HostConn hc (unit);
    int64_t H = root_height (n);
    auto pr = profiles (n, n == 1 ? 3 : n == 3 ? 3 : 4);
    for (auto &v : pr) {
      if (v.size () > 8) continue;
      int r0 = rot++ * 3;
      if (!E.take ()) continue;
      E.state ();
      Cols C {{root (0), v}};
      for (unsigned mask = 0; mask < 1u << v.size (); ++mask) for (int ml : {-1, 2}) {
        int k = r0++;
        if (!th && v.size () > 5 && (mask + (unsigned) k) % 4) continue;
        if (!E.sub ()) continue;
        Step s = step (RL);
        s.layer = mask_layers (C, mask);
        s.maxl = ml;
        s.rec = mask % 2;
        s.var = k;
        one (hc, C, {0, 1}, H, {s}, k);
      }
      // recursive refinement to every finer profile
      for (auto &w : pr) {
        std::set<std::pair<int64_t, int>> fin;
        int64_t z = 0;
        for (int l : w) { fin.insert ({z, l}); z += len (l); }
        int k = r0++;
        if (!th && k % 3) continue;
        if (!E.sub ()) continue;
        Step s = step (RL);
        s.rec = true;
        s.layer = [fin](const Cell &, int64_t z, int l) { for (auto &x : fin) if (x.first >= z && x.first < z + len (l) && x.second > l) return true; return false; };
        one (hc, C, {0, 1}, H, {s}, k);
      }
      // coarsening: all answers on the inner nodes of the tree
      std::vector<std::pair<int64_t, int>> in;
      {
        std::vector<std::pair<int64_t, int>> lay;
        int64_t z = 0;
        for (int l : v) { lay.push_back ({z, l}); z += len (l); }
        std::set<std::pair<int64_t, int>> s;
        for (auto &x : lay) for (int l = x.second - 1; l >= 0; --l) { int64_t y = x.first / len (l) * len (l); if (y + len (l) <= H) s.insert ({y, l}); }
        in.assign (s.begin (), s.end ());
      }
      for (unsigned mask = 0; mask < 1u << in.size (); ++mask) for (int rec = 0; rec < 2; ++rec) {
        int k = r0++;
        if (!th && in.size () > 4 && (mask + (unsigned) k) % 4) continue;
        if (!E.sub ()) continue;
        std::set<std::pair<int64_t, int>> acc;
        for (size_t i = 0; i < in.size (); ++i) if (mask >> i & 1) acc.insert (in[i]);
        Step s = step (CL);
        s.rec = rec;
        s.layer = [acc](const Cell &, int64_t z, int l) { return acc.count ({z, l}) > 0; };
        s.var = k;
        one (hc, C, {0, 1}, H, {s}, k);
      }
    }
  }
  // (2) to the deepest level
  E.stage ("layers at the deepest level");
  {
    HostConn hc (unit);
    for (int n : {1, 3}) for (int up = 0; up < 3; ++up) for (int ml : {-1, QMAX, QMAX - 1}) {
      int k = rot++;
      if (!E.take ()) continue;
      E.state ();
      int64_t H = root_height (n), at = up == 0 ? 0 : up == 1 ? H - 1 : H / 2 - 1;
      Cols C {{root (0), Lv ((size_t) n, log_root (n))}};
      if (!E.sub ()) continue;
      Step a = step (RL), b = step (CL), c = step (CL), d = step (BAL), e = step (FILE6);
      a.rec = true;
      a.maxl = ml;
      a.layer = [at](const Cell &, int64_t z, int l) { return z <= at && at < z + len (l); };
      b.layer = [](const Cell &, int64_t, int) { return false; };
      b.rec = k % 2;
      c.layer = [at](const Cell &, int64_t, int l) { return l > 3; };
      c.rec = true;
      one (hc, C, {0, 1}, H, {a, b, d, b, e, c}, k);
    }
  }
  // (3) columns
  for (auto nm : {"unit", "periodic", "brick221", "rotwrap", "moebius", "star"}) {
    auto m = named (nm);
    if (!m) continue;
    E.stage ("%s: columns refined and coarsened", nm);
    HostConn hc (m);
    auto fs = reachable (uniform (m->nt, 0), m->nt == 1 ? 3 : 2, 3, th ? 60 : 16);
    for (int n : {1, 3}) {
      auto pr = profiles (n, 3);
      for (auto &L : fs) for (int v = 0; v < 2; ++v) {
        int r0 = rot++;
        if (!E.take ()) continue;
        E.state ();
        Cols C = with_profiles (L, pr, (uint64_t) (r0 + v));
        parts (L, 1, 3, th ? 12 : 3, [&](int, const std::vector<int> &g) {
          for (int t = 0; t < 6; ++t) {
            int k = r0++;
            if (!E.sub ()) continue;
            Step s = step (t < 3 ? RC : CC);
            s.col = t % 3 == 2 ? hash_cols (0, 1, 9) : hash_cols ((uint64_t) k, 2, 4);
            s.rec = t % 3 == 1;
            s.maxl = t == 1 ? 3 : t == 0 && k % 2 ? 2 : -1;
            s.var = k;
            one (hc, C, g, root_height (n), {s}, k);
          }
        });
      }
    }
  }
  E.stage ("a family of columns: all profiles joined");
  {
    HostConn hc (unit);
    for (int n : {1, 3}) {
      auto pr = profiles (n, 2 + (n > 1));
      if (pr.size () > 9) pr.resize (9);
      size_t N = pr.size ();
      for (size_t x = 0; x < N * N * N * N; ++x) {
        int k = rot++;
        if (!th && N > 5 && key6 (root (0), (int64_t) x, 0) % 8) continue;
        if (!E.take ()) continue;
        E.state ();
        Cols C;
        size_t y = x;
        for (int i = 0; i < NC; ++i, y /= N) C.push_back ({child (root (0), i), pr[y % N]});
        if (!E.sub ()) continue;
        Step s = step (CC);
        s.col = [](const Cell &) { return true; };
        s.rec = k % 2;
        one (hc, C, {0, (int) C.size ()}, root_height (n), {s}, k);
      }
    }
  }
  // (4) balance
  auto bal = [&](HostConn &hc, const Cols &C, int64_t H, const std::vector<int> &g, int type, int k) {
    Step s = step (BAL);
    s.type = type;
    static const int dd[][2] = {{0, 1}, {0, 1}, {1, 1}, {2, -1}, {1, 0}, {0, 0}, {3, -3}};
    s.maxd = dd[k % 7][0];
    s.mind = dd[k % 7][1];
    one (hc, C, g, H, {s}, k);
  };
  for (int n : {1, 3}) for (int sh = 0; sh < 3; ++sh) {
    E.stage ("%d root layers, %s: balance of all pairs of profiles", n, sh == 0 ? "two columns sharing a face" : sh == 1 ? "diagonal columns" : "small and large columns");
    auto m = named (sh == 0 ? "brick221" : "unit");
    HostConn hc (m);
    auto pr = profiles (n, 3 + (n == 3 && th));
    if (!th && n == 1) { auto ch = pr; pr.clear (); for (auto &v : ch) if (v.size () <= 6) pr.push_back (v); }
    // deep ones
    Lv a, b;
    int b0 = log_root (n);
    for (int i = 1; i < n; ++i) { a.push_back (b0); b.push_back (b0); }
    if (n == 1) { a = {6, 6, 5, 4, 3, 2, 1}; b = {1, 3, 4, 5, 6, 6, 2}; }
    else { a.insert (a.begin (), {6, 6, 5, 4, 3}); b.insert (b.end (), {3, 4, 5, 6, 6}); }
    pr.push_back (a);
    pr.push_back (b);
    for (auto &v : pr) {
      int r0 = rot++ * 11;
      if (!E.take ()) continue;
      E.state ();
      for (auto &w : pr) for (int type = 0; type < 3; ++type) {
        int k = r0++;
        if (!E.sub ()) continue;
        Cols C;
        Lv low = pr[0];
        if (sh == 0) { for (int t = 0; t < m->nt; ++t) C.push_back ({root (t), t == 0 ? v : t == 1 ? w : low}); }
        else if (sh == 1) for (int i = 0; i < NC; ++i) C.push_back ({child (root (0), i), i == 0 ? v : i == 3 ? w : low});
        else {
          for (int i = 0; i < NC; ++i) C.push_back ({child (child (root (0), 0), i), i == 1 ? v : low});
          for (int i = 1; i < NC; ++i) C.push_back ({child (root (0), i), i == 3 ? w : low});
        }
        int N = (int) C.size ();
        std::vector<int> g = k % 3 == 0 ? std::vector<int> {0, N} : k % 3 == 1 ? std::vector<int> {0, 1, N} : std::vector<int> {0, N / 2, N / 2, N};
        bal (hc, C, root_height (n), g, type, k);
      }
    }
  }
  for (auto nm : {"unit", "periodic", "brick221", "rotwrap", "moebius", "star", "pillow", "corner", "bowtie", "disk2d"}) {
    auto m = named (nm);
    if (!m) continue;
    E.stage ("%s: balance", nm);
    HostConn hc (m);
    auto fs = reachable (uniform (m->nt, 0), m->nt == 1 ? 4 : 3, 4, th ? 150 : 24);
    for (int n : {1, 3}) for (auto &L : fs) {
      int r0 = rot++ * 5;
      if (!E.take ()) continue;
      E.state ();
      parts (L, 1, 3, th ? 10 : 3, [&](int, const std::vector<int> &g) {
        for (int type = 0; type < 3; ++type) {
          int k = r0++;
          if (!E.sub ()) continue;
          auto pr = profiles (n, 4);
          Cols C;
          for (auto &c : L) C.push_back ({c, key6 (c, 5, 5, (uint64_t) k) % 3 ? Lv ((size_t) n, log_root (n)) : pr[(size_t) (key6 (c, 1, 1, (uint64_t) k) % pr.size ())]});
          bal (hc, C, root_height (n), g, type, k);
        }
      });
    }
  }
  // (5) partition
  for (auto nm : {"unit", "brick221", "star"}) {
    auto m = named (nm);
    E.stage ("%s: partition", nm);
    HostConn hc (m);
    auto fs = reachable (uniform (m->nt, 0), 2, 3, th ? 40 : 8);
    for (int n : {1, 3}) {
      auto pr = profiles (n, 3);
      for (auto &L : fs) {
        int r0 = rot++ * 7;
        if (!E.take ()) continue;
        E.state ();
        parts (L, 1, 4, th ? 40 : 8, [&](int, const std::vector<int> &g) {
          for (int t = 0; t < 5; ++t) {
            int k = r0++;
            if (!E.sub ()) continue;
            Step s = step (t == 4 ? GIVEN : PART);
            s.pfc = k / 3 % 2;
            s.weighted = t > 0;
            s.var = k;
            uint64_t salt = (uint64_t) k;
            s.weight = [=](const Cell &c, int64_t z, int l) { return t == 1 ? (int) (key6 (c, z, l, salt) % 5) : t == 2 ? (key6 (c, z, l, salt) % 6 == 0 ? 100 : 0) : 0; };
            one (hc, with_profiles (L, pr, salt), g, root_height (n), {s}, k);
          }
        });
      }
    }
  }
  // (6) all sequences of operations
  for (auto nm : {"unit", "brick221", "rotwrap"}) {
    auto m = named (nm);
    int lenseq = th ? 4 : 3, total = 1;
    E.stage ("%s: all sequences of %d operations", nm, lenseq);
    HostConn hc (m);
    for (int i = 0; i < lenseq; ++i) total *= NKIND;
    Cells L = reachable (uniform (m->nt, 0), 2, 3, 40).back ();
    for (int x = 0; x < total; ++x) {
      int k = rot++;
      if (!th && strcmp (nm, "unit") && k % 3) continue;
      if (!E.take ()) continue;
      E.state ();
      for (int P = 1; P <= 3; ++P) {
        int q = k * 3 + P;
        if (!th && (q / 2 + P) % 2) continue;
        if (!E.sub ()) continue;
        std::vector<Step> steps;
        int y = x, n = q % 4 == 1 ? 3 : 1;
        for (int i = 0; i < lenseq; ++i, y /= NKIND) {
          Step s = step ((Kind) (y % NKIND));
          uint64_t salt = (uint64_t) (q * 17 + i);
          s.rec = (q + i) % 2;
          s.layer = s.k == RL ? hash_layers (salt, 3, 4) : hash_layers (salt, 1 + i % 2, 9);
          s.col = s.k == RC ? hash_cols (salt, 3, 3) : hash_cols (salt, 1 + i % 2, 9);
          s.weight = [=](const Cell &c, int64_t z, int l) { return (int) (key6 (c, z, l, salt) % 5); };
          s.weighted = q % 2;
          s.pfc = q / 2 % 2;
          s.type = (q + i) % 3;
          s.var = q + i;
          s.maxd = (q / 3) % 2 ? 1 : 0;
          steps.push_back (s);
        }
        int N = (int) L.size ();
        std::vector<int> g {0};
        for (int r = 1; r < P; ++r) g.push_back (P == 3 && q % 5 == 0 ? (r == 1 ? 0 : N / 2) : N * r / P);
        g.push_back (N);
        one (hc, with_profiles (L, profiles (n, 2 + (n > 1)), (uint64_t) q), g, root_height (n), steps, q);
      }
    }
  }
  // (7) new forests
  for (auto nm : {"unit", "brick221", "star"}) {
    auto m = named (nm);
    E.stage ("%s: new forests", nm);
    HostConn hc (m);
    for (int n : {1, 2, 3, 5, 6}) for (int mz : {-2, 0, 1, 3, 4}) for (int ml : {-1, 0, 2}) {
      int r0 = rot++;
      if (!E.take ()) continue;
      E.state ();
      for (int mq : {0, 1, 7, 23}) for (int fill = 0; fill < 2; ++fill) for (int P = 1; P <= 3; ++P) {
        int k = r0++;
        if (!th && k % 3) continue;
        if (!E.sub ()) continue;
        E.describe ([=] { return strf ("%s %d root layers min_zlevel %d min_level %d min_quadrants %d fill %d on %d processes", nm, n, mz, ml, mq, fill, P); });
        E.transition ();
        E.validated ();
        size_t ds = k % 2 ? 9 : 0;
        E.run (P, vp::Options (), [&](int r) {
          rank_begin ();
          long live = vp::live_blocks (me ());
          if (me () == 0) { X = Ctx6 (); X.ds = ds; X.ev.assign ((size_t) P, {}); X.in = X.orph = X.ev; }
          barrier (sc_MPI_COMM_WORLD);
          double h[3] = {0, 0, 1};
          p6est_connectivity_t *c = p6est_connectivity_new (&hc.c, NULL, h);
          bool plain = n == 1 && mz == 0 && ml == 0 && mq == 0 && fill;
          p6est_t *p = plain ? p6est_new (sc_MPI_COMM_WORLD, c, ds, cb_init6, &user_a) : p6est_new_ext (sc_MPI_COMM_WORLD, c, mq, ml, mz, n, fill, ds, cb_init6, &user_a);
          int lev = std::max (mz, log_root (n)), per = n << (lev - log_root (n));
          // the columns are those of a flat forest; every process knows them all
          p4est_t *q = p4est_new_ext (sc_MPI_COMM_WORLD, &hc.c, (mq + per - 1) / per, ml, fill, 0, NULL, NULL);
          static std::vector<Cells> all;
          if (r == 0) all.assign ((size_t) P, {});
          barrier (sc_MPI_COMM_WORLD);
          all[(size_t) r] = leaves_of (q);
          barrier (sc_MPI_COMM_WORLD);
          Cols C;
          std::vector<int> g {0};
          for (auto &v : all) { for (auto &x : v) C.push_back ({x, Lv ((size_t) per, lev)}); g.push_back ((int) C.size ()); }
          check_p6est (p, C, g, root_height (n), ds, true, &user_a, "new");
          // a process has at least as many layers as asked for
          if (layers_in (C, g[(size_t) r], g[(size_t) r + 1]) < mq && mq > 0 && fill) fail ("%d layers on process %d, minimum %d", layers_in (C, g[(size_t) r], g[(size_t) r + 1]), r, mq);
          std::vector<Event> want;
          for (int i = g[(size_t) r]; i < g[(size_t) r + 1]; ++i) for (int j = 0; j < per; ++j) want.push_back ({'i', C[(size_t) i].c, j * len (lev), lev});
          auto got = X.in[(size_t) r].v;
          std::sort (got.begin (), got.end ());
          std::sort (want.begin (), want.end ());
          if (got != want) fail ("new: %zu layers initialized, expected %zu", got.size (), want.size ());
          p4est_destroy (q);
          if (ml <= 0 && fill && !mq && P < 3) {
            // the same from flat columns
            p4est_t *f = p4est_new_ext (sc_MPI_COMM_WORLD, &hc.c, 0, ml, 1, 3, NULL, NULL);
            Cols D;
            for (auto &k : C) D.push_back ({k.c, Lv ((size_t) 1 << std::max (mz, 0), std::max (mz, 0))});
            std::vector<int> gg = g;
            p6est_t *e = p6est_new_from_p4est (f, NULL, h, mz, ds, cb_init6, &user_a);
            p4est_destroy (f);
            check_p6est (e, D, gg, R, ds, true, &user_a, "new from p4est");
            if (e->connectivity->top_vertices || e->connectivity->height[2] != 1 || e->connectivity->height[0] != 0) fail ("new from p4est: heights");
            free_p6est (e);
          }
          p6est_destroy (p);
          p6est_connectivity_destroy (c);
          barrier (sc_MPI_COMM_WORLD);
          if (r == 0) all.clear ();
          if (vp::live_blocks (me ()) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (me ()) - live);
          rank_end ();
        });
      }
    }
  }
  // (8) files between different numbers of processes
  for (auto nm : {"unit", "brick221"}) {
    auto m = named (nm);
    E.stage ("%s: files read by other numbers of processes", nm);
    HostConn hc (m);
    auto fs = reachable (uniform (m->nt, 0), 2, 3, th ? 20 : 5);
    int nr = 0;
    for (int n : {1, 3}) {
      auto pr = profiles (n, 3);
      for (auto &L : fs) {
        int r0 = rot++ * 7;
        if (!E.take ()) continue;
        E.state ();
        parts (L, 1, 4, th ? 20 : 4, [&](int P, const std::vector<int> &g) {
          for (int Q = 1; Q <= 5; ++Q) {
            int k = r0++;
            if (!th && k % 2) continue;
            if (!E.sub ()) continue;
            Cols C = with_profiles (L, pr, (uint64_t) k);
            int64_t H = root_height (n);
            bool sd = k % 3 > 0, ld = sd && k % 3 == 1, part = k / 3 % 2, head = k / 5 % 2;
            size_t ds = 9;
            std::string f = E.scratch + strf ("/f%d.p6est", nr++);
            E.describe ([=] { return strf ("%s cuts %s columns {%s} saved%s%s, read by %d processes%s%s", nm, str (g).c_str (), str (C).c_str (), sd ? " with data" : "", part ? " and partition" : "", Q, ld ? " with data" : "", head ? " by broadcast" : ""); });
            E.transition (2);
            E.validated ();
            E.run (P, vp::Options (), [&](int r) {
              rank_begin ();
              p6est_t *p = make_p6est (&hc.c, C, g, H, ds, &user_a);
              p->connectivity->height[0] = 0.25;
              // the top surface may be given by vertices
              if (k % 4 == 1) { size_t nv = (size_t) p->connectivity->conn4->num_vertices; p->connectivity->top_vertices = P4EST_ALLOC (double, 3 * nv); for (size_t i = 0; i < 3 * nv; ++i) p->connectivity->top_vertices[i] = (double) i / 3; }
              p6est_save_ext (f.c_str (), p, sd, part);
              (void) r;
              free_p6est (p);
              rank_end ();
            });
            E.run (Q, vp::Options (), [&](int r) {
              rank_begin ();
              long live = vp::live_blocks (me ());
              if (me () == 0) X = Ctx6 ();
              p6est_connectivity_t *c = NULL;
              bool autop = !part || P != Q || k / 7 % 2;
              p6est_t *p = autop ? p6est_load_ext (f.c_str (), sc_MPI_COMM_WORLD, ld ? ds : k % 2 ? ds : 0, ld, 1, head, &user_a, &c) : p6est_load_ext (f.c_str (), sc_MPI_COMM_WORLD, ld ? ds : k % 2 ? ds : 0, ld, 0, head, &user_a, &c);
              check_p6est (p, C, autop ? equal_cuts ((int) C.size (), Q) : g, H, ld ? ds : k % 2 ? ds : 0, ld, &user_a, "loaded");
              if (c != p->connectivity) fail ("load: connectivity");
              if (!p4est_connectivity_is_equal (c->conn4, &hc.c)) fail ("load: connectivity of the columns differs");
              if ((c->top_vertices != NULL) != (k % 4 == 1)) fail ("load: top vertices");
              if (c->top_vertices) { for (int i = 0; i < 3 * c->conn4->num_vertices; ++i) if (c->top_vertices[i] != (double) i / 3) fail ("load: top vertex %d", i); }
              else if (c->height[0] != 0.25 || c->height[1] != 0 || c->height[2] != 1) fail ("load: height");
              unsigned s = p6est_checksum (p);
              if (r && s) fail ("checksum %u on process %d", s, r);
              free_p6est (p);
              if (vp::live_blocks (me ()) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (me ()) - live);
              rank_end ();
            });
            unlink (f.c_str ());
          }
        });
      }
    }
  }
  // (9) checksums
  for (auto nm : {"unit", "brick221"}) {
    auto m = named (nm);
    E.stage ("%s: checksums of all meshes and partitions", nm);
    HostConn hc (m);
    auto fs = reachable (uniform (m->nt, 0), 2, 3, th ? 30 : 8);
    for (int n : {1, 3}) for (auto &L : fs) {
      int r0 = rot++;
      if (!E.take ()) continue;
      E.state ();
      if (!E.sub ()) continue;
      E.describe ([=] { return strf ("%s columns {%s}: checksums", nm, str (L).c_str ()); });
      auto pr = profiles (n, 3);
      int meshes = (int) std::min<size_t> (pr.size (), th ? 40 : 12);
      std::vector<std::vector<int>> cuts;
      parts (L, 1, 3, th ? 20 : 5, [&](int, const std::vector<int> &g) { cuts.push_back (g); });
      std::vector<std::vector<unsigned>> got ((size_t) meshes, std::vector<unsigned> (cuts.size ()));
      for (size_t x = 0; x < cuts.size (); ++x) {
        E.transition (meshes);
        E.run ((int) cuts[x].size () - 1, vp::Options (), [&](int r) {
          rank_begin ();
          for (int y = 0; y < meshes; ++y) {
            Cols C;
            for (size_t i = 0; i < L.size (); ++i) C.push_back ({L[i], pr[i == (size_t) r0 % L.size () ? (size_t) y : 0]});
            p6est_t *p = make_p6est (&hc.c, C, cuts[x], root_height (n), 0, NULL);
            unsigned s = p6est_checksum (p);
            if (r && s) fail ("checksum %u on process %d", s, r);
            if (!r) got[(size_t) y][x] = s;
            free_p6est (p);
          }
          rank_end ();
        });
      }
      E.validated ();
      std::map<unsigned, int> seen;
      int twice = 0;
      for (int y = 0; y < meshes; ++y) {
        for (size_t x = 1; x < cuts.size (); ++x) if (got[(size_t) y][x] != got[(size_t) y][0]) E.bad ("mesh %d: checksum %u when cut by %s, %u when cut by %s", y, got[(size_t) y][x], str (cuts[x]).c_str (), got[(size_t) y][0], str (cuts[0]).c_str ());
        if (seen[got[(size_t) y][0]]++) ++twice;
      }
      if (twice * 5 > meshes) E.bad ("%d of %d meshes have the checksum of another", twice, meshes);
    }
  }
  // (10) extruded connectivity
  E.stage ("extruded connectivities");
  {
    for (auto &nm : conn_names ()) {
      auto m = named (nm);
      if (!m) continue;
      HostConn hc (m);
      for (int top = 0; top < 2; ++top) {
        rot++;
        if (!E.take ()) continue;
        E.state ();
        if (top && !hc.c.num_vertices) continue;
        if (!E.sub ()) continue;
        E.describe ([=] { return strf ("%s extruded%s", nm.c_str (), top ? " to given vertices" : ""); });
        E.transition (2);
        E.validated ();
        E.run (1, vp::Options (), [&](int) {
          rank_begin ();
          long live = vp::live_blocks (me ());
          double h[3] = {0.5, -1.25, 3};
          std::vector<double> tv;
          for (int i = 0; i < 3 * hc.c.num_vertices; ++i) tv.push_back (1. / (i + 3));
          auto same = [&](p6est_connectivity_t *c, const char *what) {
            if (!p4est_connectivity_is_equal (c->conn4, &hc.c)) fail ("%s: columns differ", what);
            for (int i = 0; i < 3 * hc.c.num_vertices; ++i) if (c->conn4->vertices[i] != hc.verts[(size_t) i]) fail ("%s: vertices differ", what);
            if ((c->top_vertices != NULL) != (top != 0)) fail ("%s: top vertices", what);
            if (top) { for (size_t i = 0; i < tv.size (); ++i) if (c->top_vertices[i] != tv[i]) fail ("%s: top vertex coordinate %zu", what, i); }
            else for (int i = 0; i < 3; ++i) if (c->height[i] != h[i]) fail ("%s: height", what);
            for (int t = 0; t < hc.c.num_trees && hc.c.num_vertices; ++t) {
              double v[24];
              p6est_tree_get_vertices (c, t, v);
              for (int i = 0; i < 8; ++i) for (int j = 0; j < 3; ++j) {
                size_t at = (size_t) (3 * hc.ttv[(size_t) (4 * t + i % 4)] + j);
                double w = i < 4 ? hc.verts[at] : top ? tv[at] : hc.verts[at] + h[j];
                if (v[3 * i + j] != w) fail ("%s: tree %d corner %d coordinate %d is %g, expected %g", what, t, i, j, v[3 * i + j], w);
              }
            }
          };
          p6est_connectivity_t *c = p6est_connectivity_new (&hc.c, top ? tv.data () : NULL, h);
          same (c, "new");
          p6est_connectivity_destroy (c);
          if (vp::live_blocks (me ()) != live) fail ("%ld blocks of memory are not freed", vp::live_blocks (me ()) - live);
          rank_end ();
        });
      }
    }
  }
}
