// Deterministic cooperative scheduler + environment control for the harness executables.
// The executables define the pthread synchronisation primitives, clock and file-system entry points
// themselves (ELF symbol interposition), so code of the repository runs unmodified.
#pragma once
#include <cstdint>
#include <string>

namespace ffv {
  // --- scheduler -----------------------------------------------------------------------------
  enum Policy { NONPREEMPT = 0, RANDOM = 1, PCT = 2, STARVE_MAIN = 3, STARVE_WORKERS = 4, STICKY = 5, ROUNDROBIN = 6 };
  void sched_start(uint64_t seed, int policy, uint64_t max_steps);  // the calling thread becomes thread 0
  // while alive, synchronisation calls of the running thread go to the real primitives without a switch
  struct Pause { bool was; Pause(); ~Pause(); };
  void sched_stop();                                                // all other threads must be finished
  bool sched_active();
  int  self();              // managed id of the calling thread (0 = main), -1 if unmanaged
  void yield_point();       // a preemption point
  void yield_hard();        // deschedule: let any other runnable thread run first if there is one
  uint64_t sched_steps();
  uint64_t sched_switches();
  uint64_t sched_hash();    // hash of the schedule taken (distinct schedules are counted with it)
  // called when no thread can run (what = "deadlock") or the step budget is exhausted ("livelock")
  extern void (*on_stuck)(const char* what, const std::string& detail);
  // --- virtual time --------------------------------------------------------------------------
  void time_virtual(bool on, int64_t start_s);
  void time_set_step_ns(int64_t ns_per_call);
  void time_advance_s(int64_t s);
  // --- file system fault injection --------------------------------------------------------------
  // Counts mutating operations on paths that contain `marker`; at operation number crash_at (1-based)
  // calls on_crash() (which must not return). mode 0: before the operation; mode 1: for writes, after half
  // of the bytes; mode 2: after the operation.
  void fs_watch(const char* marker, int64_t crash_at, int mode);
  int64_t fs_count();
  extern void (*on_crash)();
  extern void (*on_fs_op)(const char* op, const char* path, const char* path2, int64_t n);
}
namespace ffv { void access_points(uint64_t seed, uint64_t rate); uint64_t accesses(); }  // tsanhook.cpp
