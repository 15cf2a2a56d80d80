// What the monitor of parallel loops found (shim/race.cpp).
#pragma once
#include <cstddef>
#include <vector>
namespace race {
struct Race { const void *pc, *other; bool write, owrite; long n; };
extern long g_races, g_accesses, g_lost; extern std::vector<Race> g_found; extern bool g_on;
void install(); void reset(); void stop();
void report(const void* a, const void* pc, bool write, const void* other, bool owrite, long n);
}
