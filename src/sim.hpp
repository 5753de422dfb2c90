// A deterministic scheduler for real threads: interface. See sim_rt.cpp.
#pragma once
#include <cstdint>
#include <string>
#include <functional>

namespace sim {
enum Status { DONE,        // all threads have finished
              QUIESCENT,   // every unfinished thread is blocked, and nothing happens before the horizon
              STOPPED,     // stop() was called
              RUNAWAY };   // step limit
struct Config {
  std::function<uint64_t(uint64_t)> draw;         // a number in [0, n)
  std::function<void()> idle;                     // nobody can run; time is about to advance or the run is quiescent
  bool jumps = false;                             // let time pass while threads can run
  int64_t maxJump = 3600LL * 1000000000LL;        // at most this much at once
  int64_t horizon = INT64_MAX;                    // do not advance time beyond this (ns since the start)
  uint64_t stepLimit = 3000000;
  int slow = -1;                                  // this thread goes on when the others cannot, or hardly ever (-1: drawn)
  bool stackPoints = false;                       // a thread can be preempted where it uses its own stack, too
};
const int MAXT = 320;
void begin(const Config &c);                      // forget the previous case
void setHorizon(int64_t h);
int spawn(std::function<void()> job);             // from the controller, before go()
Status go();                                      // run until one of Status
bool finished(int t);
bool blocked(int t);
int64_t now();                                    // virtual ns since the start
void stop(const std::string &why);                // from a simulated thread or the idle callback
const std::string &stopReason();
const std::string &race();                        // first data race seen, or ""
const std::string &misuse();                      // first wrong use of a lock, or ""
uint64_t steps(); uint64_t switches(); uint64_t preemptions();
void sleep(int64_t ns);                           // of a simulated thread
// code of the library under test runs inside a Visible: its memory accesses
// are preemption points and are checked for races
struct Visible { Visible(); ~Visible(); };
}
