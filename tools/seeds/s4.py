PRE = '''#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <new>
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
'''
SEEDS = [
dict(id="string-replace-long", prop="C04",
 edits=[("public/containers/string.h", "		sizet replacementLen = replacement.getLength();\n		int64 startPos = 0;", "		uint8 replacementLen = replacement.getLength();\n		int64 startPos = 0;")],
 needs="a replacement of more than 255 characters that holds the pattern itself",
 breaks="text that was just put in is searched, and replaced, again",
 demo=PRE+r'''
#include <unistd.h>
#include "containers/string.h"
int main()
{
	alarm(20);
	char r[301]; memset(r, 'b', 300); r[300] = 0; r[100] = 'a';
	String s{"xay"}; s.replaceAll(String{"a"}, String{r});
	if (s.getLength() != 302) { printf("length %zu\n", (size_t)s.getLength()); return 1; }
	return 0;
}
'''),
dict(id="string-find-terminator", prop="C04",
 edits=[("public/containers/string.h", "if (Memory::memcmp(&array[idx], pattern, patternLen) == 0) return idx;", "if (strncmp(&array[idx], pattern, patternLen) == 0) return idx;")],
 needs="a text and a pattern that hold the terminator, and differ only behind it",
 breaks="findIndex, findAll and replaceAll take a place for an occurrence that is not one",
 demo=PRE+r'''
#include "containers/string.h"
int main()
{
	String s{"ab\0cab\0d", 8}, p{"ab\0d", 4};
	if (s.findIndex(p) != 4) { printf("found at %lld\n", (long long)s.findIndex(p)); return 1; }
	return 0;
}
'''),
dict(id="pool-many-blocks", prop="C15",
 edits=[("public/hal/malloc_pool.h", "	/// Number of free blocks\n	uint32 numFreeBlocks;", "	/// Number of free blocks\n	uint16 numFreeBlocks;")],
 needs="a pool of more than 65535 blocks, at a moment when a multiple of 65536 of them are free",
 breaks="the allocator refuses a request though the pool has free blocks",
 demo=PRE+r'''
#include "hal/malloc_pool.h"
int main()
{
	const uint32 n = 65536 + 3;
	MallocPool m{n, 24};
	uint32 got = 0;
	while (got < n + 5 && m.alloc(24)) ++got;
	if (got != n) { printf("%u of %u blocks\n", got, n); return 1; }
	return 0;
}
'''),
dict(id="ansi-realloc-no-memory", prop="C17",
 edits=[("private/hal/malloc_ansi.cpp", "		sizet usableSize = malloc_usable_size(orig);\n		if (UNLIKELY(::posix_memalign(&out, alignment, size) != 0))\n			return nullptr;\n", "		sizet usableSize = malloc_usable_size(orig);\n		if (UNLIKELY(::posix_memalign(&out, alignment, size) != 0))\n			out = nullptr;\n		else\n"),
        ("private/hal/malloc_ansi.cpp", "		\n		if (LIKELY(usableSize))\n			Memory::memcpy(out, orig, PlatformMath::min(size, usableSize));", "		if (LIKELY(usableSize))\n			Memory::memcpy(out, orig, PlatformMath::min(size, usableSize));")],
 needs="a reallocation that the system has no memory for",
 breaks="the original block is given back although the reallocation failed, and its owner still holds it",
 demo=PRE+r'''
int main()
{
	MallocAnsi m;
	char * a = (char*)m.alloc(200);
	memset(a, 7, 200);
	if (m.realloc(a, (sizet)1 << 61)) return 0;
	char * b = (char*)m.alloc(200);
	if (b == a) { printf("block given out twice\n"); return 1; }
	for (int i = 0; i < 200; ++i) if (a[i] != 7) { printf("contents lost\n"); return 1; }
	m.free(a); m.free(b);
	return 0;
}
''', flags="-fsanitize=undefined"),
dict(id="pointer-of-cv", prop="C26",
 edits=[("public/templates/types.h", "template<typename T> struct IsPointerOf<const volatile T*, T>	{ enum {value = true}; };", "template<typename T> struct IsPointerOf<volatile const T*, const T>	{ enum {value = true}; };")],
 needs="a pointer to something const and volatile at once",
 breaks="IsPointerOf no longer recognises it, and recognises it as a pointer to const instead",
 demo=PRE+r'''
int main()
{
	if (!IsPointerOf<const volatile int*, int>::value || !IsVoidPointer<const volatile void*>::value) { puts("not recognised"); return 1; }
	return 0;
}
'''),
dict(id="regex-flag-kept", prop="C19",
 edits=[("public/regex/executor.h", "		outIsAccepted = false;\n\n		int32 numRead = 0;", "		int32 numRead = 0;")],
 needs="a caller whose flag is set before a step that leaves the automaton in a state it cannot enter, or goes past the end",
 breaks="the step reports an accepted input",
 demo=PRE+r'''
#include "regex/regex.h"
int main()
{
	Re::Regex r{"ab"};
	const char * in = "ac";
	auto x = ((const Re::Regex &)r).getAutomaton().createExecutor(in);
	bool ok = true, over = false;
	for (int k = 0; k < 100 && !over; ++k) { ok = true; over = x.step(ok); }
	if (!over || ok) { puts("ac is accepted by ab"); return 1; }
	return 0;
}
'''),
dict(id="array-align-dropped", prop="C01",
 edits=[("public/hal/malloc_object.h","malloc->alloc(n * allocUnitSize, allocUnitAlign)","malloc->alloc(n * allocUnitSize)")],
 needs="elements of a type with an alignment above that of a pointer, and an allocator that aligns as asked and no better",
 breaks="elements are put where their type does not allow",
 demo=PRE+r'''
#include "containers/array.h"
struct Strict : public MallocAnsi {
	virtual void * alloc(sizet n, sizet a) override { if (a < 8) a = 8; return (char*)MallocAnsi::alloc(n + a, 2 * a) + a; }
	virtual void * realloc(void *, sizet, sizet) override { abort(); }
	virtual void free(void * p) override {}
};
struct alignas(64) Wide { int x; };
int main()
{
	Strict m;
	Array<Wide> a{&m};
	for (int k = 0; k < 9; ++k) a.add(Wide{k});
	uintp p = (uintp)*a;
	asm volatile("" : "+r"(p));
	if (p % 64) { printf("elements at %lx\n", (long)p); return 1; }
	return 0;
}
''', flags=""),
]
