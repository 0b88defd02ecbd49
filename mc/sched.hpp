// Controlled thread scheduler: exactly one thread of the program under test runs at a time, every decision which one
// continues is a choice of the explorer. pthread mutexes, condition variables, thread creation and joining are
// interposed (link time). Memory accesses and atomics reported by -fsanitize=thread instrumentation feed a vector clock
// happens-before race detector and a use-after-free detector (freed blocks are quarantined until the execution ends).
#pragma once
#include <cstddef>
#include <functional>
#include <string>

namespace sched {
struct Hooks {
  void* ctx = nullptr;
  int (*choose)(void*, int n, const char* tag, bool deviation) = nullptr;
  void (*fail)(void*, const char* msg) = nullptr; // does not return
  void (*note)(void*, const char* msg) = nullptr; // may be null
  bool (*tolerate)(void*, const char* msg) = nullptr; // may be null; whether a data race is to be ignored (known finding)
};
struct Options {
  bool atomics = false;  // atomic operations are scheduling points, too
  bool locks = true;     // acquiring a mutex is a scheduling point even if it is free
  bool unlocks = false;  // scheduling point after releasing a mutex
  bool races = true;
  bool spurious = false; // condition waits may wake up spuriously (costs a deviation)
  int horizon = 20000;   // scheduling points per execution
};
void begin(const Hooks&, const Options&); // the calling thread becomes thread 0
void end();                               // all other threads must have been joined
bool active();
int self();                               // index of the running controlled thread, -1 outside
void point(const char* tag);              // scheduling point
unsigned long points();                   // scheduling points so far
int threads();                            // threads created so far (including thread 0)
void access(const void* p, size_t n, bool write); // a memory access done on behalf of the program (system call)
void settle();                            // runs all other threads until they block, without choices
void calm(bool);                          // no choices from now on: threads run until they block, lowest index first
void block_until(bool (*pred)(void*), void* arg, const char* tag); // blocks the running thread until pred holds
void quiet(int delta);                    // accesses of this thread aren't recorded while > 0
struct Quiet { Quiet() { quiet(1); } ~Quiet() { quiet(-1); } };
}
