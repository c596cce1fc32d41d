// Controlled scheduler and happens-before race detector behind the compiler's thread instrumentation.
#pragma once
#include <stdint.h>
#include <stddef.h>
enum { SCHED_MAXE = 60000, SCHED_OUT = 6000, SCHED_NT = 4 };
enum { EV_START = 0, EV_READ = 1, EV_WRITE = 2, EV_LOCK = 3, EV_UNLOCK = 4 };
struct SchedEv { uint64_t addr; uint8_t tid, kind, enabled, pad[5]; };
struct SchedShared {
  int nprefix; uint8_t prefix[SCHED_MAXE];
  int nev; SchedEv ev[SCHED_MAXE];
  int race; uint64_t raceAddr, racePc[2]; int raceKind[2], raceTid[2], raceSize;
  int deadlock, overflow, diverged, finished;
  uint64_t accesses, syncs;
  int outLen[SCHED_NT]; char out[SCHED_NT][SCHED_OUT];
};
extern "C" void sched_run(SchedShared* sh, int nthreads, void (*fn)(int tid));
