// Allocators (C15, C16, C17)
#define VT_MAIN
#include <algorithm>
#include "common.h"
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include "hal/malloc_object.h"
using namespace vt;
// a system that has no memory to give
static bool dry;
#include <cerrno>
extern "C" {
int __real_posix_memalign(void **, size_t, size_t); void * __real_malloc(size_t); void * __real_calloc(size_t, size_t); void * __real_realloc(void *, size_t);
void * __real_aligned_alloc(size_t, size_t); void * __real_memalign(size_t, size_t);
int __wrap_posix_memalign(void ** p, size_t a, size_t n) { return dry ? ENOMEM : __real_posix_memalign(p, a, n); }
void * __wrap_malloc(size_t n) { return dry ? nullptr : __real_malloc(n); }
void * __wrap_calloc(size_t n, size_t m) { return dry ? nullptr : __real_calloc(n, m); }
void * __wrap_realloc(void * p, size_t n) { return dry ? nullptr : __real_realloc(p, n); }
void * __wrap_aligned_alloc(size_t a, size_t n) { return dry ? nullptr : __real_aligned_alloc(a, n); }
void * __wrap_memalign(size_t a, size_t n) { return dry ? nullptr : __real_memalign(a, n); }
}
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

struct alignas(32) V32 { float x[8]; };
struct C3 { char c[3]; };
struct D24 { double a, b; char c; };

constexpr int SL = 2, H = 32;
struct Cell { bool held; int o; unsigned char * p; size_t s; unsigned seed; };
inline void swap(Cell & a, Cell & b) { Cell c = a; a = b; b = c; }
static Cell blk[H];
static unsigned serial;
static unsigned char pat(unsigned seed, size_t i) { return (unsigned char)(seed * 37u + i * 11u + (i >> 8) * 3u + 1u); }
static void fill(Cell & b) { b.seed = ++serial; for (size_t i = 0; i < b.s; ++i) b.p[i] = pat(b.seed, i); }
static size_t intact(const Cell & b, const unsigned char * p, size_t n) { size_t i = 0; while (i < n && p[i] == pat(b.seed, i)) ++i; return i; }

struct Slot
{
	int kind = 0;	// 1 pool 2 mpool 3 pooled 4 binned 5 ansi
	MemoryPool * pool = nullptr;
	MallocBase * m = nullptr;
	MallocPooled * pooled = nullptr;
	unsigned char * place = nullptr;
	size_t placeSize = 0;
	size_t bs = 0;
	std::vector<Cell> * many = nullptr;	// held in bulk
};
static Slot sl[SL];
// bytes the allocators hold: what is taken and not returned by the calls under test
static long taken;
struct Count { size_t b = __sanitizer_get_current_allocated_bytes(); bool on = true; void end() { if (on) taken += (long)__sanitizer_get_current_allocated_bytes() - (long)b; on = false; } ~Count() { end(); } };
#define COUNTED(...) do { Count _c; __VA_ARGS__; } while (0)

static std::string where(const void * p) { return "[" + std::to_string((uintptr_t)p >> 24) + "," + std::to_string((uintptr_t)p & 0xffffff) + "]"; }
static void addr(Ev & e, const void * p) { e.raw("a", where(p)); }
static bool byAddr(const Cell & a, const Cell & b) { return a.p < b.p; }
static void obs(Ev & e, int o)
{
	std::vector<int> bad, own;
	for (int h = 0; h < H; ++h) if (blk[h].held && intact(blk[h], blk[h].p, blk[h].s) != blk[h].s) bad.push_back(h);
	e.sq("bad", bad);
	if (o < 0) return;
	Slot & s = sl[o];
	if (s.kind == 1) e.u("fr", s.pool->getNumFreeBlocks()).b("ex", s.pool->isExhausted());
	if (s.kind == 3) e.u("np", s.pooled->getNumPools());
	if (s.kind == 1 || s.kind == 3)
	{
		for (int h = 0; h < H; ++h) if (blk[h].held && (s.kind == 1 ? s.pool->hasBlock(blk[h].p) : s.pooled->hasBlock(blk[h].p))) own.push_back(h);
		e.sq("own", own);
	}
	if (s.many)
	{
		int bbad = 0, bown = 0;
		for (auto & b : *s.many) bbad += intact(b, b.p, b.s) != b.s;
		e.i("bbad", bbad);
		if (s.kind == 1 || s.kind == 3) { for (auto & b : *s.many) bown += s.kind == 1 ? s.pool->hasBlock(b.p) : s.pooled->hasBlock(b.p); e.i("bown", bown); }
	}
	if (s.place)
	{
		bool in = true;
		if (s.many) for (auto & b : *s.many) if (b.p < s.place || b.p + b.s > s.place + s.placeSize) in = false;
		for (auto & b : blk) if (b.held && b.o == o && (b.p < s.place || b.p + b.s > s.place + s.placeSize)) in = false;
		e.b("in", in);
	}
}
static int log2i(size_t n) { int k = -1; while (n) { n >>= 1; ++k; } return k; }
static void * place(Slot & s, size_t n, size_t bs, size_t al)
{
	size_t a = al < 8 ? 8 : al;
	s.placeSize = n * ((bs + 8 + a - 1) / a * a);
	posix_memalign((void **)&s.place, a < 64 ? 64 : a, s.placeSize + 64);
	memset(s.place, 0xEE, s.placeSize + 64);
	return s.place;
}
static void drop(int o)
{
	Slot & s = sl[o];
	for (auto & b : blk) if (b.held && b.o == o) { if (s.kind == 5) COUNTED(s.m->free(b.p)); b.held = false; }
	if (s.many && s.kind == 5) for (auto & b : *s.many) COUNTED(s.m->free(b.p));
	delete s.many;
	COUNTED(delete s.pool; delete s.m);
	::free(s.place);
	s = Slot{};
}
template<typename T> static void * typed(MallocBase * m, void * orig, size_t n, bool re)
{
	MallocObject<T> x{m};
	return re ? (void *)x.realloc((T *)orig, n) : n == 1 ? (void *)x.alloc() : (void *)x.alloc(n);
}
static size_t tsize(int t) { return t == 0 ? 1 : t == 1 ? 3 : t == 2 ? 4 : t == 3 ? sizeof(D24) : sizeof(V32); }
static size_t talign(int t) { return t == 0 ? 1 : t == 1 ? 1 : t == 2 ? 4 : t == 3 ? alignof(D24) : alignof(V32); }
static void * typedAny(int t, MallocBase * m, void * orig, size_t n, bool re)
{
	return t == 0 ? typed<char>(m, orig, n, re) : t == 1 ? typed<C3>(m, orig, n, re) : t == 2 ? typed<int>(m, orig, n, re) : t == 3 ? typed<D24>(m, orig, n, re) : typed<V32>(m, orig, n, re);
}
// an allocator of objects that owns the allocator it takes them from
template<typename T, typename M> struct Owner : MallocBase
{
	MallocObject<T, M> x;
	template<typename ...A> Owner(A ... a) : x{a...} {}
	static size_t num(size_t n, size_t al) { if (n % sizeof(T) || (n && al != alignof(T))) { fprintf(stderr, "not an array of objects\n"); _exit(77); } return n / sizeof(T); }
	void * alloc(sizet n, sizet al) override { size_t k = num(n, al); return k == 1 ? x.alloc() : x.alloc(k); }
	void * realloc(void * p, sizet n, sizet al) override { return x.realloc((T *)p, num(n, al)); }
	void free(void * p) override { x.free((T *)p); }
};
void vtBegin() { for (auto & b : blk) b = Cell{}; serial = 0; taken = 0; }
void vtEnd()
{
	for (int o = 0; o < SL; ++o) drop(o);
	Ev e("End"); e.i("leak", taken).emit();
}
void vtExec(Toks & t)
{
	// "d" ahead of an operation: without memory from the system
	const bool poor = t.op() == "dalloc" || t.op() == "drealloc" || t.op() == "dfillup";
	const std::string op = t.op().substr(poor);
	int o = (int)t.i();
	Slot & s = sl[o];
	if (op == "new")
	{
		std::string k = t.s();
		size_t n = 0, bs = 0, al = 8, np = 0, mn = 1, inc = 1, nb = 1;
		if (k == "pool" || k == "mpool")
		{
			n = t.u(); bs = t.u(); al = t.u();
			bool pl = t.i();
			void * buf = pl ? place(s, n, bs, al) : nullptr;
			s.kind = k == "pool" ? 1 : 2;
			COUNTED(if (s.kind == 1) s.pool = new MemoryPool((uint32)n, bs, al, buf); else s.m = new MallocPool((uint32)n, bs, al, buf));
		}
		else if (k == "inl")
		{
			int w = (int)t.i();
			bool pl = t.i();
			s.kind = 2;
			if (w == 0) { n = 4; bs = 24; al = 8; void * b = pl ? place(s, n, bs, al) : nullptr; COUNTED((s.m = new MallocPoolInline<4, 24>(b))); }
			else if (w == 1) { n = 3; bs = 5; al = 16; void * b = pl ? place(s, n, bs, al) : nullptr; COUNTED((s.m = new MallocPoolInline<3, 5, 16>(b))); }
			else { n = 1; bs = 100; al = 64; void * b = pl ? place(s, n, bs, al) : nullptr; COUNTED((s.m = new MallocPoolInline<1, 100, 64>(b))); }
			k = "mpool";
		}
		else if (k == "pooled")
		{
			n = t.u(); bs = t.u(); al = t.u(); np = t.u();
			s.kind = 3;
			COUNTED(s.m = s.pooled = new MallocPooled((uint32)n, bs, al, (uint32)np));
		}
		else if (k == "pooleddef") { n = 1024; bs = 512; al = 16; np = 1; s.kind = 3; COUNTED(s.m = s.pooled = new MallocPooled); k = "pooled"; }
		else if (k == "binned")
		{
			size_t ps = t.u(), mx;
			mn = t.u(); mx = t.u(); inc = t.u(); al = t.u();
			np = 1; n = ps;
			nb = (log2i(mx) - log2i(mn)) / log2i(inc);
			s.kind = 4;
			COUNTED(s.m = new MallocBinned({ps, mn, mx, inc}, al));
		}
		else if (k == "binneddef") { mn = 8; inc = 8; nb = 5; al = 8; np = 1; n = 1 << 16; s.kind = 4; COUNTED(s.m = new MallocBinned); k = "binned"; }
		else if (k == "own")
		{
			// 0 pool, 1 pooled, 2 system; of bytes or of D24
			int w = (int)t.i(), ty = (int)t.i();
			s.kind = w == 2 ? 5 : 2;
			if (w < 2) { n = t.u(); bs = t.u(); al = t.u(); }
			if (w == 0) { COUNTED(if (ty) s.m = new Owner<D24, MallocPool>((uint32)n, (sizet)bs, (sizet)al); else s.m = new Owner<char, MallocPool>((uint32)n, (sizet)bs, (sizet)al)); k = "mpool"; }
			else if (w == 1) { np = t.u(); COUNTED(if (ty) s.m = new Owner<D24, MallocPooled>((uint32)n, (sizet)bs, (sizet)al, (uint32)np); else s.m = new Owner<char, MallocPooled>((uint32)n, (sizet)bs, (sizet)al, (uint32)np)); k = "pooled"; }
			else { COUNTED(if (ty) s.m = new Owner<D24, MallocAnsi>(); else s.m = new Owner<char, MallocAnsi>()); k = "ansi"; }
		}
		else if (k == "ansi") { s.kind = 5; COUNTED(s.m = new MallocAnsi); }
		else badop(t);
		s.bs = bs;
		Ev e("New");
		e.i("o", o + 1).str("k", k).u("n", n).u("bs", bs).u("al", al).u("np0", np).u("min", mn).u("inc", inc).u("nb", nb);
		obs(e, o); e.emit();
		return;
	}
	if (op == "delete") { drop(o); Ev e("Delete"); e.i("o", o + 1); obs(e, -1); e.emit(); return; }
	if (op == "foreign")
	{
		int x; bool r = false;
		static char stat[64];
		if (s.kind == 1) { r = s.pool->hasBlock(&x) || s.pool->hasBlock(stat) || s.pool->hasBlock(nullptr); if (s.place) r = r || s.pool->hasBlock(s.place - 1) || s.pool->hasBlock(s.place + s.placeSize); }
		if (s.kind == 3) r = s.pooled->hasBlock(&x) || s.pooled->hasBlock(stat);
		Ev e("Foreign"); e.i("o", o + 1).b("r", r); obs(e, o); e.emit();
		return;
	}
	if (op == "fillup")
	{
		size_t size = t.u(), al = t.u(), max = t.u(), n = 0;
		int grew = 0;
		const unsigned before = serial;
		if (!s.many) s.many = new std::vector<Cell>;
		for (; n < max; ++n)
		{
			const long was = taken;
			void * p;
			dry = poor;
			COUNTED(p = s.kind == 1 ? s.pool->acquireBlock() : s.m->alloc(size, al));
			dry = false;
			grew += taken > was;
			if (!p) break;
			Cell c{true, o, (unsigned char *)p, size, 0};
			fill(c);
			s.many->push_back(c);
		}
		std::sort(s.many->begin(), s.many->end(), byAddr);
		// where all are, and which of them were held before
		std::string q = "[", old = "[";
		size_t k = 0;
		for (auto & b : *s.many)
		{
			if (k++) q += ',';
			q += where(b.p);
			if (b.seed <= before) { if (old.size() > 1) old += ','; old += std::to_string(k); }
		}
		Ev e("FillUp");
		e.i("o", o + 1).b("dry", poor).u("s", size).u("al", al).u("max", max).raw("q", q + "]").raw("old", old + "]");
		if (s.kind != 5) e.i("grew2", grew);
		obs(e, o); e.emit();
		return;
	}
	if (op == "bulkfree")
	{
		// every m-th block, in order, backwards or shuffled
		size_t m = t.u();
		int how = (int)t.i();
		if (!s.many || s.many->empty()) return;
		std::vector<Cell> go, stay;
		for (size_t k = 0; k < s.many->size(); ++k) (k % m ? stay : go).push_back((*s.many)[k]);
		if (how == 1) std::reverse(go.begin(), go.end());
		if (how == 2) for (size_t k = go.size(); k > 1; --k) std::swap(go[k - 1], go[(k * 7919 + 13) % k]);
		*s.many = stay;
		for (auto & b : go) COUNTED(if (s.kind == 1) s.pool->releaseBlock(b.p); else s.m->free(b.p));
		Ev e("BulkFree");
		e.i("o", o + 1).u("m", m);
		obs(e, o); e.emit();
		return;
	}
	int h = (int)t.i();
	Cell & b = blk[h];
	// scripts do not know which requests fail
	if (b.held ? b.o != o || op == "alloc" || op == "talloc" : op == "free") { t.k = t.t.size(); return; }
	if (op == "free")
	{
		Count c;
		if (s.kind == 1) s.pool->releaseBlock(b.p); else if (serial % 3 == 0) MallocObject<unsigned char>{s.m}.free(b.p); else s.m->free(b.p);
		c.end();
		b.held = false;
		Ev e("Free"); e.i("o", o + 1).i("h", h); obs(e, o); e.emit();
		return;
	}
	bool re = op == "realloc" || op == "trealloc";
	if (!re && op != "alloc" && op != "talloc") badop(t);
	size_t size, al;
	void * p;
	void * orig = b.held ? b.p : nullptr;
	const long was = taken;
	if (op == "talloc" || op == "trealloc")
	{
		int ty = (int)t.i();
		size_t n = t.u();
		size = n * tsize(ty); al = talign(ty);
		COUNTED(p = typedAny(ty, s.m, orig, n, re));
	}
	else
	{
		size = t.u(); al = t.u();
		Count c;
		dry = poor;
		if (s.kind == 1) p = s.pool->acquireBlock();
		else if (re) p = al ? s.m->realloc(orig, size, al) : s.m->realloc(orig, size);
		else p = al ? s.m->alloc(size, al) : s.m->alloc(size);
		dry = false;
		c.end();
		if (!al) al = 8;
	}
	const bool grew = taken > was;
	Ev e(re && orig ? "Realloc" : "Alloc");
	e.i("o", o + 1).i("h", h).u("s", size).u("al", al).b("null", !p).b("dry", poor);
	if (s.kind != 5) e.b("grew", grew);
	if (orig && !size) b.held = false;
	if (p)
	{
		addr(e, p);
		size_t keep = 0;
		if (orig) { size_t m = b.s < size ? b.s : size; keep = intact(b, (unsigned char *)p, m); }
		e.u("kept", keep);
		b = Cell{true, o, (unsigned char *)p, size, 0};
		if (size) fill(b);
	}
	obs(e, o); e.emit();
}
