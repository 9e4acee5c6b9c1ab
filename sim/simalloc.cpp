// The allocator seam: every operator new of the process.
#include "core.h"
#include <cstdlib>
#include <malloc.h>
namespace sim { namespace seam {
thread_local bool inSut = false;
long allocCount = 0, allocFailAt = 0, allocFired = 0;
bool allocPersist = false;
long taggedBlocks = 0, taggedBytes = 0;
uint64_t garbageSeed = 1;
int garbageMode = 1;
void (*onAllocFault)() = nullptr;            // a fault is about to happen
void (*onAlloc)(void *, size_t) = nullptr;   // the scheduler looks on
void (*onFree)(void *, size_t) = nullptr;

struct Header { uint64_t size; uint32_t magic, tag; };
static const uint32_t MAGIC = 0x51ACB10Cu;

static void fillGarbage(void * p, size_t n) {
    unsigned char * c = (unsigned char *) p;
    uint64_t w;
    switch (garbageMode) {
    case 0: memset(p, 0, n); return;
    case 2: memset(p, 0xFF, n); return;
    case 3: { double d = 1.0 + (double) (garbageSeed % 97); memcpy(&w, &d, 8); break; }
    default: w = garbageSeed * 0x9E3779B97F4A7C15ull | 0x0101010101010101ull; break;
    }
    size_t i = 0;
    for (; i + 8 <= n; i += 8) memcpy(c + i, &w, 8);
    if (i < n) memcpy(c + i, &w, n - i);
}
#if defined(__GNUC__)
__attribute__((noinline, no_sanitize_address, no_sanitize_undefined))
#endif
void smearStack() {
    volatile unsigned char buf[49152];
    uint64_t w = garbageMode == 0 ? 0 : (garbageMode == 2 ? ~0ull : (garbageSeed * 0x9E3779B97F4A7C15ull | 0x0101010101010101ull));
    if (garbageMode == 3) { double d = 1.0 + (double) (garbageSeed % 97); memcpy(&w, &d, 8); }
    volatile uint64_t * p = (volatile uint64_t *) (((uintptr_t) buf + 7) & ~(uintptr_t) 7);
    for (size_t i = 0; i < sizeof(buf) / 8 - 1; i++) p[i] = w;
}
static void * allocate(size_t n, bool nothrow) {
    bool tag = inSut;
    if (tag) {
        allocCount++;
        if (allocFailAt && (allocCount == allocFailAt || (allocPersist && allocCount > allocFailAt))) {
            allocFired++;
            if (onAllocFault) onAllocFault();
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    Header * h = (Header *) malloc(n + sizeof(Header));
    if (!h) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    h->size = n;
    h->magic = MAGIC;
    h->tag = tag;
    if (onAlloc) onAlloc(h + 1, n);
    if (tag) {
        taggedBlocks++;
        taggedBytes += (long) n;
        fillGarbage(h + 1, n);
    }
    return h + 1;
}
static void release(void * p) {
    if (!p) return;
    Header * h = (Header *) p - 1;
    if (h->magic != MAGIC) { fprintf(stderr, "SIM: release of memory that is not allocated\n"); abort(); }
    if (onFree) onFree(p, h->size);
    h->magic = 0xDEADBEEFu;
    if (h->tag) { taggedBlocks--; taggedBytes -= (long) h->size; memset(p, 0xDD, h->size); }
    free(h);
}
} }
void * operator new(size_t n) { return sim::seam::allocate(n, false); }
void * operator new[](size_t n) { return sim::seam::allocate(n, false); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return sim::seam::allocate(n, true); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::seam::allocate(n, true); }
void operator delete(void * p) noexcept { sim::seam::release(p); }
void operator delete[](void * p) noexcept { sim::seam::release(p); }
void operator delete(void * p, size_t) noexcept { sim::seam::release(p); }
void operator delete[](void * p, size_t) noexcept { sim::seam::release(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { sim::seam::release(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { sim::seam::release(p); }
