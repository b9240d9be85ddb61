// Integer and memory helpers (C22)
#define VT_MAIN
#include "common.h"
#include <type_traits>
#include <cmath>
#include "core_types.h"
#include "hal/platform_math.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
using namespace vt;

typedef __int128 Wide;
static double unit = 1;			// of floating-point numbers
// ---------------------------------------------------------------- numbers
static std::string big(Wide v)
{
	unsigned __int128 m = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v;
	std::string o = std::string("{\"neg\":") + (v < 0 ? "true" : "false") + ",\"mag\":[";
	for (int i = 0; i < 9; ++i) { if (i) o += ","; o += std::to_string((int)(m & 255)); m >>= 8; }
	return o + "]}";
}
template<typename T> static std::string num(T v)
{
	if constexpr (std::is_floating_point<T>::value)
	{
		// not a whole number: what no number is
		v *= (T)unit;
		if (!(v > T(-9e18) && v < T(9e18)) || v != (T)(long long)v || (v == 0 && std::signbit(v))) return "{\"neg\":true,\"mag\":[0,0,0,0,0,0,0,0,0]}";
		return big((long long)v);
	}
	else return big((Wide)v);
}
template<typename T> struct Type { using type = T; };
template<typename F> static void withType(const std::string & t, F && f)
{
	if (t == "i8") f(Type<int8>{}); else if (t == "i16") f(Type<int16>{}); else if (t == "i32") f(Type<int32>{}); else if (t == "i64") f(Type<int64>{});
	else if (t == "u8") f(Type<uint8>{}); else if (t == "u16") f(Type<uint16>{}); else if (t == "u32") f(Type<uint32>{}); else if (t == "u64") f(Type<uint64>{});
	else if (t == "f32") f(Type<float32>{}); else f(Type<float64>{});
}
#define TYPE(x) typename decltype(x)::type
template<typename T> static T arg(const std::string & s)
{
	if (std::is_floating_point<T>::value) return (T)(strtod(s.c_str(), nullptr) / unit);
	return s[0] == '-' ? (T)strtoll(s.c_str(), nullptr, 10) : (T)strtoull(s.c_str(), nullptr, 10);
}
struct MinOp { template<typename ... A> auto operator()(const A & ... a) const { return PlatformMath::min(a...); } };
struct MaxOp { template<typename ... A> auto operator()(const A & ... a) const { return PlatformMath::max(a...); } };
template<typename Op, typename T> static T many(const Op & op, const std::vector<T> & v)
{
	switch (v.size())
	{
		case 2: return op(v[0], v[1]);
		case 3: return op(v[0], v[1], v[2]);
		case 4: return op(v[0], v[1], v[2], v[3]);
		case 5: return op(v[0], v[1], v[2], v[3], v[4]);
		default: return op(v[0], v[1], v[2], v[3], v[4], v[5]);
	}
}
template<typename Op> static std::string mixed(const Op & op, const std::string & t, const std::vector<std::string> & v)
{
	std::string r;
#define MIX(name, A, B, C) if (t == name) { auto x = op(arg<A>(v[0]), arg<B>(v[1]), arg<C>(v[2])); static_assert(std::is_same<decltype(x), A>::value, ""); return num(x); }
	MIX("i32,i8,i64", int32, int8, int64) MIX("i64,i8,i32", int64, int8, int32) MIX("u64,u8,u16", uint64, uint8, uint16)
	MIX("u32,u16,u8", uint32, uint16, uint8) MIX("i32,u8,i16", int32, uint8, int16) MIX("i16,i8,i32", int16, int8, int32)
	MIX("f64,i8,i32", float64, int8, int32) MIX("f64,f32,i16", float64, float32, int16) MIX("u16,u8,u64", uint16, uint8, uint64)
#undef MIX
	withType(t.substr(0, t.find(',')), [&](auto a) { withType(t.substr(t.find(',') + 1), [&](auto b)
	{
		auto x = op(arg<TYPE(a)>(v[0]), arg<TYPE(b)>(v[1]));
		static_assert(std::is_same<decltype(x), TYPE(a)>::value, "");
		r = num(x);
	}); });
	return r;
}
// also as constants
static_assert(PlatformMath::max(1, 7, 3) == 7 && PlatformMath::min(4, 2, 9) == 2 && PlatformMath::abs(-3) == 3 && PlatformMath::log2(1000u) == 9, "");
static_assert(PlatformMath::align2Up(9, 8) == 16 && PlatformMath::align2Down(9, 8) == 8 && PlatformMath::log2(uint64(1) << 63) == 63, "");

static void math(Toks & t, const std::string & op)
{
	const std::string ty = t.s();
	std::vector<std::string> v;
	if (op == "min" || op == "max")
	{
		while (t.more()) v.push_back(t.s());
		std::string r, a;
		std::vector<std::string> tys;
		std::istringstream is(ty);
		for (std::string x; std::getline(is, x, ',');) tys.push_back(x);
		if (tys.size() == 1)
			withType(ty, [&](auto T)
			{
				std::vector<TYPE(T)> w;
				for (auto & x : v) w.push_back(arg<TYPE(T)>(x));
				r = num(op == "min" ? many(MinOp{}, w) : many(MaxOp{}, w));
			});
		else r = op == "min" ? mixed(MinOp{}, ty, v) : mixed(MaxOp{}, ty, v);
		for (size_t i = 0; i < v.size(); ++i) withType(tys[i < tys.size() ? i : 0], [&](auto T) { a += (i ? "," : "") + num(arg<TYPE(T)>(v[i])); });
		Ev(op == "min" ? "Min" : "Max").raw("v", "[" + a + "]").raw("r", r).emit();
		return;
	}
	withType(ty, [&](auto T)
	{
		using N = TYPE(T);
		const N x = arg<N>(t.s());
		if (op == "abs") Ev("Abs").raw("v", num(x)).raw("r", num(PlatformMath::abs(x))).emit();
		else if (op == "pow")
		{
			const std::string u = t.s();
			const long long n = t.i();
			withType(u, [&](auto U) { if constexpr (!std::is_floating_point<TYPE(U)>::value) Ev("Pow").raw("v", num(x)).i("n", n).raw("r", num(PlatformMath::pow(x, (TYPE(U))n))).emit(); });
		}
		else if constexpr (!std::is_floating_point<N>::value)
		{
			if (op == "log2") { Ev("Log2").raw("v", num(x)).raw("r", num(PlatformMath::log2(x))).emit(); return; }
			const int k = (int)t.i();
			const sizet al = sizet(1) << k;
			if (op == "down") Ev("Down").raw("v", num(x)).i("n", k).raw("r", num(PlatformMath::align2Down(x, al))).emit();
			else if (op == "up") Ev("Up").raw("v", num(x)).i("n", k).raw("r", num(PlatformMath::align2Up(x, al))).emit();
			else badop(t);
		}
		else badop(t);
	});
}
// ---------------------------------------------------------------- memory
static std::vector<unsigned char> mem;			// exactly as long as the range, for ASan
// elements; lifetimes visible or not
struct Cells
{
	virtual ~Cells() {}
	virtual bool run(const std::string & op, long a, long b, long n) = 0;
	virtual bool make(long i, int x) = 0;
	virtual std::string show(long n) = 0;
	virtual bool seen() const { return true; }
	virtual bool triv() const { return false; }
};
// only the assignment has an effect of its own
struct Assigned
{
	int v; static int assigned;
	Assigned() = default;
	Assigned(int x) : v(x) {}
	Assigned(const Assigned &) = default;
	Assigned & operator=(const Assigned & o) { v = o.v; ++assigned; return *this; }
};
int Assigned::assigned = 0;
struct Plain { int v; char pad[5]; Plain() = default; Plain(int x) : v(x), pad{} {} };
inline int value(const Tracked & t) { return t.use("read"); }
inline int value(int x) { return x; }
inline int value(const Plain & p) { return p.v; }
inline int value(const Assigned & p) { return p.v; }
template<typename T, bool copyable, bool lives> struct CellsOf : Cells
{
	T * p; long len;
	CellsOf(long n) : p((T *)::malloc(n * sizeof(T) + !n)), len(n) { for (long i = 0; i < n; ++i) if (!lives) *(int *)(void *)(p + i) = -5; }
	~CellsOf() { ::free((void *)p); }
	bool seen() const override { return lives; }
	bool triv() const override { return !lives; }
	bool make(long i, int x) override { new (p + i) T(x); return true; }
	bool run(const std::string & op, long a, long b, long n) override
	{
		if (op == "default") PlatformMemory::constructDefaultElements(p + a, p + a + n);
		else if (op == "destroy") PlatformMemory::destroyElements(p + a, p + a + n);
		else if (op == "emove") PlatformMemory::moveElements(p + b, p + a, n);
		else if constexpr (copyable)
		{
			if (op == "ccopy") PlatformMemory::constructCopyElements(p + b, (const T *)p + a, n);
			else PlatformMemory::copyElements(p + b, (const T *)p + a, n);
		}
		else return false;
		return true;
	}
	std::string show(long n) override
	{
		std::vector<int> o;
		for (long i = 0; i < len; ++i)
			if constexpr (lives) o.push_back(reg().alive.count(p + i) ? value(p[i]) : -1);
			else o.push_back(value(p[i]));
		return seq(o);
	}
};
static std::unique_ptr<Cells> cells;
static void showCells(Ev & e) { e.raw("c", cells->show(0)).i("errors", reg().errors).b("seen", cells->seen()); }

void vtBegin() {}
void vtEnd()
{
	Ev e("End");
	e.b("seen", cells && cells->seen());
	cells.reset();
	e.i("left", (long long)reg().alive.size()).emit();
	reg().alive.clear();
	mem.clear(); mem.shrink_to_fit();
}
void vtExec(Toks & t)
{
	const std::string op = t.op();
	unit = 1;
	if (op == "unit")
	{
		// the next numbers are fractions
		const long u = t.i();
		t.t.erase(t.t.begin(), t.t.begin() + 2); t.k = 0;
		unit = u;
		math(t, t.op());
	}
	else if (op == "bytes")
	{
		const std::string h = t.h();
		std::vector<unsigned char> v(h.begin(), h.end());
		mem.swap(v);
		Ev("Bytes").sq("v", mem).sq("m", mem).emit();
	}
	else if (op == "set")
	{
		const long i = t.i(); mem[i] = (unsigned char)t.i();
		Ev("Set").i("i", i).i("x", mem[i]).sq("m", mem).emit();
	}
	else if (op == "copy" || op == "mov")
	{
		const long b = t.i(), a = t.i(), n = t.i();
		unsigned char * m = mem.data();
		void * r = op == "copy" ? PlatformMemory::memcpy(m + b, m + a, n) : PlatformMemory::memmov(m + b, m + a, n);
		Ev(op == "copy" ? "Copy" : "Move").i("b", b).i("a", a).i("n", n).i("r", (unsigned char *)r - m).sq("m", mem).emit();
	}
	else if (op == "cmp")
	{
		const long a = t.i(), b = t.i(), n = t.i();
		const auto r = PlatformMemory::memcmp(mem.data() + a, mem.data() + b, n);
		Ev("Cmp").i("a", a).i("b", b).i("n", n).i("r", r < 0 ? -1 : r > 0 ? 1 : 0).b("z", r == 0).sq("m", mem).emit();
	}
	else if (op == "cells")
	{
		const std::string k = t.s();
		const long n = t.i();
		if (k == "tracked") cells.reset(new CellsOf<Tracked, true, true>(n));
		else if (k == "moveonly") cells.reset(new CellsOf<MoveOnly, false, true>(n));
		else if (k == "int") cells.reset(new CellsOf<int, true, false>(n));
		else if (k == "assigned") cells.reset(new CellsOf<Assigned, true, false>(n));
		else cells.reset(new CellsOf<Plain, true, false>(n));
		Ev e("Cells"); e.i("n", n); showCells(e); e.emit();
	}
	else if (op == "make")
	{
		const long i = t.i(); const int x = (int)t.i();
		cells->make(i, x);
		Ev e("Make"); e.i("i", i).i("x", x); showCells(e); e.emit();
	}
	else if (op == "makes")
	{
		const long a = t.i(), n = t.i(); const int x = (int)t.i();
		for (long k = 0; k < n; ++k) cells->make(a + k, x + (int)k);
		Ev e("MakeMany"); e.i("a", a).i("n", n).i("x", x); showCells(e); e.emit();
	}
	else if (op == "default" || op == "destroy")
	{
		const long a = t.i(), n = t.i();
		cells->run(op, a, 0, n);
		Ev e(op == "default" ? "Default" : "Destroy"); e.i("a", a).i("n", n);
		if (op == "default") e.b("triv", cells->triv());
		showCells(e); e.emit();
	}
	else if (op == "emove" || op == "ccopy" || op == "ecopy")
	{
		const long b = t.i(), a = t.i(), n = t.i();
		if (!cells->run(op, a, b, n)) return;
		Ev e(op == "emove" ? "EMove" : op == "ccopy" ? "CCopy" : "ECopy"); e.i("b", b).i("a", a).i("n", n); showCells(e); e.emit();
	}
	else math(t, op);
}
