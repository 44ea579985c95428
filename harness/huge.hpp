// sizes and views beyond 32 bits: a large region of untouched memory, of which only a few pages are ever used
#pragma once
#include "pbt.hpp"
#include <sys/mman.h>
#include <chrono>
namespace huge {
static const size_t room = (size_t(1) << 33) + (size_t(1) << 20);
/** the region, all zeros; null when the system does not give it */
inline char* region() { static char *p = []{ void *m = mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return m == MAP_FAILED ? (char*)nullptr : (char*)m; }(); return p; }
/** a size around a power of two from 2^31 to 2^max */
inline size_t size(pbt::Src &s, unsigned max, unsigned spread = 40) { return (size_t(1) << (31 + s.draw(max - 30))) + (size_t)s.range(0, 2 * spread) - spread; }
/** a position in [0, len]: near the ends, or near a power of two */
inline size_t pos(pbt::Src &s, size_t len) { switch(s.draw(4)) { case 0: return s.range(0, 20); case 1: return len - s.range(0, 20); default: { size_t p = size(s, 33); return p > len ? len - p % 20 : p; } } }
/** none of the calls made here needs to scan a whole view, but an implementation may: such calls are made until they took 15 seconds in this process */
struct Watch { typedef std::chrono::steady_clock clock; clock::time_point t0; static double& total() { static double t = 0; return t; } Watch() : t0(clock::now()) {} ~Watch() { total() += std::chrono::duration<double>(clock::now() - t0).count(); } bool spent() const { return total() > 15; } };
/** writes at a place of the region, and clears it again */
struct Put { char *p; size_t n; Put(char *at, std::string const& t) : p(at), n(t.size()) { memcpy(p, t.data(), n); } ~Put() { memset(p, 0, n); } };
}
