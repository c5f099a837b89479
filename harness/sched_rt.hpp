// A controlled scheduler and happens-before race detector for code compiled with -fsanitize=thread.
//
// The instrumented code is linked with this runtime instead of the sanitizer's: every memory access,
// atomic operation, mutex, one-time initialisation and allocation of a modelled thread reaches it.
// Real threads are used, but only one runs at a time: at every synchronisation operation (and at
// explicit points) the runtime asks pick() which enabled thread continues.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Config {
  bool large = false;                                        // the bodies touch a lot of memory
  int preemptions = 2;                                       // switches away from a thread that could continue
  int (*pick)(int n, const char* label) = nullptr;           // resolves a scheduling choice
  void (*report)(const char* kind, const std::string& msg) = nullptr;  // race, deadlock, double initialisation
};
// Runs the bodies to completion under one schedule.
void run(const std::vector<std::function<void()>>& bodies, const Config& c);
void settle();                   // call once, after a trial run: adapts the granularity to the operations seen
void point(const char* label);   // a scheduling point inside a modelled thread
std::int64_t now();              // logical clock, advances by one millisecond (in ns) with every reading
int self();                      // index of the calling modelled thread, -1 outside
int real_tid(int i);             // kernel thread id of a modelled thread of the last run
void begin_session();            // function-local statics initialised from here on ...
void end_session();              // ... are destroyed and made uninitialised again
struct Stats { std::uint64_t accesses = 0, sync = 0, switches = 0, preemptions = 0, granules = 0, inits = 0; };
Stats stats();                   // of the last run
}  // namespace sched
