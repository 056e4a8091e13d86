// Deterministic cooperative scheduler: interposes the pthread layer so that exactly one thread runs at a
// time, every switch is decided from a seed, and blocking calls with deadlines use virtual time.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace sched {
struct Options {
    uint64_t seed{1};
    int policy{0};          // 0 random walk, 1 priorities with change points, 2 run-to-block
    double pswitch{0.3};    // random walk: probability of a switch at a sync point
    int changes{3};         // priorities: number of change points
    uint64_t horizon{4000}; // priorities: change points are placed in [0,horizon) steps
    uint64_t maxSteps{4000000};
    uint64_t maxVirtualNs{600ULL * 1000000000ULL};
};
// called on a stuck run: kind is "deadlock", "steps" or "virtualtime"; must not return
using StuckHandler = void (*)(const char* kind, const std::string& detail);
void start(const Options& o, StuckHandler h);  // turns the calling thread into thread 0
void stop();                                   // only valid when just thread 0 is left
bool active();
uint64_t steps();
uint64_t switches();
int self();
int liveThreads();
uint64_t virtualNow();
void nameSelf(const char* n);
void point();                                  // explicit scheduling point
// scheduling control for adversarial placement: a held thread is run only if nothing else can run
void deprioritise(bool on);
}
