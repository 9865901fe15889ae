// Case engine: enumerates cases in forked workers, replays failures, counts.
#pragma once
#include "mpisim/mpisim.hh"
#include <functional>
#include <string>

namespace vp
{
struct Engine
{
  // ---- configuration
  bool thorough = false;
  int maxdev = 1;               // deviations from default environment answers
  long maxexec = 400;           // executions per inner case
  // ---- enumeration
  void stage (const char *fmt, ...) __attribute__((format (printf, 2, 3)));
  bool take ();                 // next outer case: true if this worker runs it
  bool sub ();                  // next inner case of the current outer case
  bool expired () const;
  // describe the current inner case (evaluated only when needed)
  void describe (std::function<std::string()> f);
  // run one inner case under all schedules within the bound
  // returns false if a violation that is a known finding was seen
  bool run (int P, const Options & opt, const std::function<void(int)> &body,
            const std::function<void()> &before = nullptr, const std::function<void()> &after = nullptr);
  // exactly one execution, result to the caller
  Outcome once (int P, const Options & opt, const std::function<void(int)> &body);
  // report a violation found on the host side
  void bad (const char *fmt, ...) __attribute__((format (printf, 2, 3)));
  // key for known findings; default: none
  std::string key;
  void transition (long n = 1);
  void state (long n = 1);
  void validated (long n = 1);
  // generic named counter
  void count (const char *name, long n = 1);
  bool replaying () const;
  std::string scratch;          // private scratch directory of this worker
};
extern Engine E;
std::string strf (const char *fmt, ...) __attribute__((format (printf, 1, 2)));
}
void enumerate ();              // provided by the harness
