#include "val.hpp"
Sut sut;
unsigned long sutArgChanged = 0;
thread_local unsigned sutCellShift = 1;
thread_local int sutUse = 0;
void sutFillMul1(); void sutFillMul2(); void sutFillMul3(); void sutFillMul4();
void sutFillAdd(); void sutFillUni(); void sutFillFunc(); void sutFillCmp(); void sutFillIo();
void sutFillKonst1(); void sutFillKonst2(); void sutFillThr(); void sutFillArr();
void sutFill()
{
	sutFillMul1(); sutFillMul2(); sutFillMul3(); sutFillMul4();
	sutFillAdd(); sutFillUni(); sutFillFunc(); sutFillCmp(); sutFillIo();
	sutFillKonst1(); sutFillKonst2(); sutFillThr(); sutFillArr();
}

// Heap blocks this thread holds: counted here except where a sanitizer or
// valgrind has an allocator of its own.
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(OWN_ALLOCATOR)
#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if !__has_feature(address_sanitizer)
#include <cerrno>
static thread_local long blocks = 0;
static long liveBlocks() { return blocks; }
struct LiveInit { LiveInit() { sut.live = liveBlocks; } };
static LiveInit liveInit;
extern "C" {
void * __libc_malloc(size_t);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);
void __libc_free(void *);
void * malloc(size_t n) { void * const p = __libc_malloc(n); if (p) ++blocks; return p; }
void * calloc(size_t n, size_t m) { void * const p = __libc_calloc(n, m); if (p) ++blocks; return p; }
void * realloc(void * q, size_t n)
{
	void * const p = __libc_realloc(q, n);
	if (p && !q) ++blocks;
	if (!p && q && n == 0) --blocks;
	return p;
}
void free(void * p) { if (p) --blocks; __libc_free(p); }
void * memalign(size_t a, size_t n) { void * const p = __libc_memalign(a, n); if (p) ++blocks; return p; }
void * aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void ** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }
}
#endif
#endif
