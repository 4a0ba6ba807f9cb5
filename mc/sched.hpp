// Controlled scheduler for code compiled with -fsanitize=thread instrumentation and linked against sched_rt.cpp instead
// of the ThreadSanitizer runtime. Between begin() and end() exactly one thread runs at a time; at every atomic and
// synchronisation operation the scheduler decides who goes on. Decisions are recorded and can be replayed.
#pragma once
#include <cstdint>

namespace sched {
struct Decision { uint8_t n, chosen, free; };  // choices, the one taken, whether the running thread could not go on
constexpr int max_decisions = 1 << 20, max_threads = 140;
extern Decision* trace;
extern int decisions;
extern uint64_t points, accesses;
extern int threads_made, races;
extern char race_text[600];
// the calling thread becomes thread 0; decisions follow the prefix and then take the first choice (go on)
// at most `most` threads, the calling one included
void begin(const Decision* prefix, int n, int most = 12);
void end();
}  // namespace sched
