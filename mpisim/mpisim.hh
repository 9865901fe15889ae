// mpisim: an MPI implementation in which all ranks are coroutines of one
// process and every freedom MPI leaves to the implementation is a choice point.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace vp
{

// ---------------------------------------------------------------- choices
struct Trace
{
  std::vector<int> pre;                 // forced choices
  std::vector<std::pair<int,int>> rec;  // (chosen, number of options)
  std::vector<const char *> tag;
};

struct Options
{
  bool sync_send = false;       // Send/Isend complete only when matched
  bool choices = false;         // expose matching/completion choices
  bool leak_mem = false;        // report unfreed memory
  bool leak_mpi = false;        // report leftover messages/requests/comms/...
  bool allow_abort = false;     // abort() in a rank is not a failure by itself
  bool guard = false;           // an inaccessible page follows every allocation
  bool loose = false;           // processes leave collectives as early as MPI permits
  unsigned char poison = 0xB7;  // content of buffers of pending receives
  unsigned char fill = 0xA5;    // content of fresh memory
  const char *shuffle = nullptr; // unused
};

enum Kind { OK = 0, FAIL, ABORT, DEADLOCK };

struct Outcome
{
  Kind kind = OK;
  int rank = -1;
  std::string why;
  long switches = 0;
  long messages = 0;
  long collectives = 0;
  long allocs = 0;
};

// Execute body on P simulated ranks.  Not reentrant.
Outcome run_world (int P, const Options & opt, Trace & tr,
                   const std::function<void(int)> &body);

bool in_rank ();
int me ();                      // world rank of the running coroutine
[[noreturn]] void fail (const char *fmt, ...) __attribute__((format (printf, 1, 2)));
// Choice point usable by harnesses (environment answers).
int choose (int n, const char *tag);
// harness level barrier that is not an MPI operation
void sync_point ();

// ---------------------------------------------------------------- memory
// Live bytes allocated by p4est/libsc on the current rank.
long live_blocks (int rank);
// run f with allocations hidden from the accounting (host side)
extern bool huge_null;          // allocations beyond the cap return NULL instead of failing
extern long memory_cap;         // bytes of live + quarantined memory before failing

// ---------------------------------------------------------------- I/O faults
// counts all stdio write/read/open/close calls made by p4est/libsc
struct IoFault
{
  long ops = 0;                 // operations performed
  long fail_at = -1;            // index of the operation that fails
  int mode = 0;                 // 0: error return 1: short
  bool writes = true, reads = true, opens = true, closes = true;
  int rank = -1;                // -1: any
};
extern IoFault iofault;
extern int node_size;           // ranks per shared memory node; 0: one node
extern bool verbose;

}
