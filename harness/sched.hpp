// Controlled scheduler and race detector for code compiled with -fsanitize=thread -fopenmp.
//
// sched.cpp supplies the OpenMP runtime (GOMP_*, omp_*) and the instrumentation callbacks
// (__tsan_*) itself; neither libgomp's threads nor the ThreadSanitizer runtime take part.
// A parallel region runs on real threads of which exactly one holds the token at any time.
// Which thread runs first, which one continues when the running one ends or blocks, and
// (within a preemption bound) whether the running one is preempted at a scheduling point
// are choices of the exploration engine. Every instrumented memory access inside a region
// is checked against the happens-before relation of the region (vector clocks, byte by byte).
#pragma once
#include "mc.hpp"
namespace sched {
// only: index of the parallel region whose schedule is explored (-1: every one, -2: none)
struct Opts { int team = 1; int preemptions = 0; bool at_accesses = false; int only = -1; };
void begin(vp::Ctx& c, const Opts& o);
// ends the controlled part; throws Violation if a race or misuse was seen
void end();
// Runs fn(0, d) ... fn(n-1, d) on n threads of an application (not an OpenMP team): the same
// scheduler and detector, but OpenMP constructs reached from fn see a team of one.
void threads(int n, void (*fn)(int, void*), void* d);
void forked();          // in a child process: forget the threads of the parent
struct Stats { uint64_t regions, points, accesses, switches; };
Stats stats();          // of the last begin()/end()
void label(const void* p, size_t n, const char* name);   // for messages
}
