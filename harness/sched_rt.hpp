// Interface of the controlled scheduler (sched_rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
namespace sched {
enum { MAXEV = 200000, MAXOUT = 30000 };
struct Event { uintptr_t pc, addr; uint8_t thread, write, can; };
struct Shared {   // what a child reports
    uint32_t nev; Event ev[MAXEV];
    uint64_t accesses, switches; int deadlock, finished; int threw[2];
    int nout[2]; double out[2][MAXOUT];
    int ndig[2]; double dig[2][MAXOUT];
    int nwhere; uintptr_t where[64];
};
extern Shared* S;
typedef void (*Body)(int thread);
void init();
void forget();                       // access sets and conflicts of an earlier pair
int mark_conflicts(int* total);
bool overflowed();
uint64_t granules();
void use_arena(int a);               // 0 explorer, 1 and 2 the threads, 3 the shared model
void run(Body a, Body b, int which, int first, const int* preempt, int n);
}  // namespace sched
