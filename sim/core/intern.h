#pragma once
#include <cstddef>
namespace sim {
void* realSym(const char* name);
// happens-before hooks; real ones live in the race-detector build, empty otherwise
extern void (*gRaceAcquire)(void*);
extern void (*gRaceRelease)(void*);
extern void (*gRaceCreate)(int child);
extern void (*gRaceStart)();
extern void (*gRaceJoin)(int child);
extern void (*gRaceRange)(const void* p, size_t n, bool write); // memory the kernel would read or write
extern bool gQuiet; // code which runs takes no steps
extern bool gRaceMode, gRaceFound;
int raceTid(); // thread whose accesses count, -1 if they don't
inline void raceRange(const void* p, size_t n, bool write) { if (gRaceRange) gRaceRange(p, n, write); }
inline void raceAcquire(void* p) { if (gRaceAcquire) gRaceAcquire(p); }
inline void raceRelease(void* p) { if (gRaceRelease) gRaceRelease(p); }
}
