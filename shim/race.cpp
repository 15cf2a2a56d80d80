// Monitor of parallel loops: the compiler reports every access of the instrumented code (-fsanitize=thread, linked against this file
// instead of its runtime); two iterations of one loop that touch the same array element, at least one of them writing and not both
// through atomics, are not ordered by anything, so the outcome would depend on the schedule.
#include "mcshim.h"
#include "race.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sys/mman.h>
#include <unistd.h>
namespace {
// arena: one address range for all array data, so that it can be told from everything else
const size_t ARENA = 1ull << 30; char* base = nullptr; size_t used = 0; std::map<size_t, std::vector<char*>>* pool = nullptr;
struct Head { size_t n; size_t pad; };
// one element (4 bytes): who wrote and who read it in the current loop. A store that leaves the value as it is cannot change what
// anybody else sees: it is a conflict only when another iteration stores something else.
struct Cell { uint64_t key; int loop; int w, r; bool wmulti, rmulti, changed, wna, rna; const void *wpc, *rpc; };   // na: some access was not atomic
Cell* tab = nullptr; const size_t N = 1 << 20;
bool active = false; int loop = 0, iter = -1, atomic_ = 0; long loopn = 0;
uintptr_t data0 = 0, data1 = 0;
struct Pending { char* p; size_t n; const void* pc; bool at; unsigned char old[16]; }; Pending pend{}; bool has = false;
Cell* cell(uintptr_t key) { size_t i = (key * 0x9E3779B97F4A7C15ull) >> 44; i &= N - 1; for (size_t q = 0;; q++, i = (i + 1) & (N - 1)) { if (tab[i].loop != loop || tab[i].key == key) break; if (q > 4096) { race::g_lost++; return nullptr; } }
    Cell& c = tab[i]; if (c.loop != loop) c = Cell{key, loop, -1, -1, false, false, false, false, false, nullptr, nullptr}; return &c; }
void read_(const void* a, uintptr_t key, const void* pc, bool at) { Cell* q = cell(key); if (!q) return; Cell& c = *q;
    if (c.w >= 0 && (c.w != iter || c.wmulti) && c.changed && !(at && !c.wna)) race::report(a, pc, false, c.wpc, true, loopn);
    if (c.r < 0) { c.r = iter; c.rpc = pc; } else if (c.r != iter) c.rmulti = true; c.rna |= !at; }
void write_(const void* a, uintptr_t key, const void* pc, bool at, bool silent) { Cell* q = cell(key); if (!q) return; Cell& c = *q;
    if (!silent) { if (c.w >= 0 && (c.w != iter || c.wmulti) && !(at && !c.wna)) race::report(a, pc, true, c.wpc, true, loopn); else if (c.r >= 0 && (c.r != iter || c.rmulti) && !(at && !c.rna)) race::report(a, pc, true, c.rpc, false, loopn); c.changed = true; }
    if (c.w < 0) { c.w = iter; c.wpc = pc; } else if (c.w != iter) c.wmulti = true; c.wna |= !at; }
void settle() { if (!has) return; has = false; Pending& d = pend; bool s4 = d.n >= 4; for (size_t k = 0; k < d.n; k += s4 ? 4 : 1) { uintptr_t key = (((uintptr_t)d.p + k) << 1) | !s4; write_(d.p, key, d.pc, d.at, memcmp(d.p + k, d.old + k, s4 ? 4 : 1) == 0); } }
bool watched(const void* a) { uintptr_t p = (uintptr_t)a; return (p >= (uintptr_t)base && p < (uintptr_t)base + ARENA) || (p >= data0 && p < data1); }
void access(void* a, size_t n, bool write, const void* pc) { if (!active) return; settle(); if (!watched(a)) return; race::g_accesses++;
    if (!write) { for (size_t k = 0; k < n; k += n < 4 ? 1 : 4) read_(a, (((uintptr_t)a + k) << 1) | (n < 4), pc, atomic_ > 0); return; }
    if (n > 16) { for (size_t k = 0; k < n; k += 4) write_(a, ((uintptr_t)a + k) << 1, pc, atomic_ > 0, false); return; }
    pend.p = (char*)a; pend.n = n; pend.pc = pc; pend.at = atomic_ > 0; memcpy(pend.old, a, n); has = true; }
}
extern "C" char __data_start, _end;
namespace race {
long g_races = 0, g_accesses = 0, g_lost = 0; std::vector<Race> g_found; bool g_on = false;
void report(const void* a, const void* pc, bool w, const void* other, bool ow, long n) { g_races++; for (auto& r : g_found) if (r.pc == pc && r.other == other) return; if (g_found.size() < 50) g_found.push_back({pc, other, w, ow, n}); }
void reset() { g_races = 0; g_found.clear(); g_accesses = 0; }
static void begin(long n) { if (!g_on) return; loop++; loopn = n; iter = -1; active = true; }
static void it(long i) { if (active) settle(); iter = (int)i; }
static void end() { if (active) settle(); active = false; }
void install() { mcshim::g_on_begin = begin; mcshim::g_on_iter = it; mcshim::g_on_end = end; if (!tab) tab = (Cell*)mmap(nullptr, N * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); data0 = (uintptr_t)&__data_start; data1 = (uintptr_t)&_end; }
void stop() { active = false; has = false; }
}
namespace mcshim {
void* arena_alloc(size_t n) { bool was = active; active = false; if (!base) { base = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { perror("arena"); _exit(3); } pool = new std::map<size_t, std::vector<char*>>; } size_t m = 64; while (m < n + sizeof(Head)) m *= 2; char* p; auto& v = (*pool)[m]; if (!v.empty()) { p = v.back(); v.pop_back(); memset(p, 0, n + sizeof(Head)); } else { p = base + used; used += m; if (used > ARENA) { fprintf(stderr, "arena full\n"); _exit(3); } } ((Head*)p)->n = m; active = was; return p + sizeof(Head); }
void arena_free(void* p) { if (!p) return; bool was = active; active = false; char* q = (char*)p - sizeof(Head); (*pool)[((Head*)q)->n].push_back(q); active = was; }
AtomicScope::AtomicScope() { atomic_++; } AtomicScope::~AtomicScope() { atomic_--; }
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); } void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
#define AT(bits, T) T __tsan_atomic##bits##_load(const volatile T* p, int) { return *p; } void __tsan_atomic##bits##_store(volatile T* p, T v, int) { *p = v; } T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { T o = *p; *p = v; return o; } T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { T o = *p; *p += v; return o; } T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { T o = *p; *p -= v; return o; } T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { T o = *p; *p |= v; return o; } T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { T o = *p; *p &= v; return o; } int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
