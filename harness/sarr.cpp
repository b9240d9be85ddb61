// Arrays of fixed length (C24)
#define VT_MAIN
#include "slots.h"
#include "templates/array.h"
#include "containers/string.h"
using namespace vt;

namespace vt { inline int val(const String & s) { return s.getLength() == 0 ? 0 : atoi(*s) - 5000000; } inline int val(signed char x) { return x; } inline int val(long x) { return (int)x; } }
struct Two { int a, b; Two() : a(0), b(0) {} Two(int x) : a(x), b(-x) {} };
namespace vt { inline int val(const Two & x) { return x.a == -x.b ? x.a : -99999; } }
namespace vt { template<> String mk<String>(int x) { return String(std::to_string(x + 5000000).c_str()); } }

template<typename X, int N> struct Box : public vt::Slots<StaticArray<X, N>>
{
	using P = StaticArray<X, N>;
	using S = vt::Slots<P>;
	using S::a; using S::rest; using S::moved; using S::fin;
	std::string contents(const P & c) override
	{
		for (int k = 0; k < S::N; ++k) if (a[k] == &c && moved[k]) return c.getCount() == N ? "[]" : "[-1]";
		std::vector<int> v, w, x, y;
		for (uint64 i = 0; i < c.getCount() && i < 64; ++i) { v.push_back(val(c[i])); w.push_back(val((*c)[i])); x.push_back(val(const_cast<P &>(c)[i])); y.push_back(val((*const_cast<P &>(c))[i])); }
		if (v != w || v != x || v != y) return "[-1]";
		return seq(v);
	}
	template<size_t ...I> static P * values(const std::vector<int> & v, std::index_sequence<I...>)
	{
		if (v.size() && v[0] % 2) { X x[] = {mk<X>(v[I])...}; return new P(x[I]...); }
		return new P(mk<X>(v[I])...);
	}
	template<int k> static P * make(const std::vector<int> & v)
	{
		if ((int)v.size() == k) return values(v, std::make_index_sequence<k>());
		if constexpr (k < N) return make<k + 1>(v); else return nullptr;
	}
	template<size_t ...I> static P * list(const std::vector<int> & v, std::index_sequence<I...>) { X x[N] = {mk<X>(v[I])...}; return v[0] % 2 ? new P(makeStaticArray(x)) : new P(makeStaticArray<X, N>({mk<X>(v[I])...})); }
	void exec(Toks & t)
	{
		const std::string op = t.op();
		int o = (int)t.i();
		auto ev = [&](const char * n) { return Ev(n).i("o", o + 1); };
		auto done = [&](const std::vector<int> & v) { moved[o] = false; auto e = ev("Make"); e.i("n", N).sq("xs", v); fin(e); };
		if (op == "new") { a[o] = new P; moved[o] = false; auto e = ev("New"); e.i("n", N); fin(e); return; }
		if (op == "make") { auto v = rest(t); if (v.size() > N) v.resize(N); a[o] = make<1>(v); done(v); return; }
		if (op == "buf")
		{
			auto v = rest(t); v.resize(N);
			{
				std::vector<X> b; for (int x : v) b.push_back(mk<X>(x));
				a[o] = new P((const X *)b.data());
				for (int i = 0; i < N; ++i) if (val(b[i]) != v[i]) Ev("BadOperand").emit();
			}
			done(v); return;
		}
		if (op == "list") { auto v = rest(t); v.resize(N); a[o] = list(v, std::make_index_sequence<N>()); done(v); return; }
		if (op == "copync") { int p = (int)t.i(); P & s = *a[p]; a[o] = new P(s); moved[o] = false; auto e = ev("Copy"); e.i("p", p + 1); fin(e); return; }
		if (op == "assignnc") { int p = (int)t.i(); P & s = *a[p]; *a[o] = s; auto e = ev("Assign"); e.i("p", p + 1); fin(e); return; }
		if (S::common(t, o)) return;
		if (op == "write") { int i = (int)t.i() % N, x = (int)t.i(); if (x % 2) (*a[o])[i] = mk<X>(x); else (**a[o])[i] = mk<X>(x); auto e = ev("Write"); e.i("i", i).i("x", x); fin(e); }
		else if (op == "read")
		{
			int i = (int)t.i() % N;
			const P & c = *a[o];
			auto e = ev("Read");
			e.i("i", i).i("x", val(c[i])).u("count", c.getCount());
			fin(e);
		}
		else badop(t);
	}
};
struct Any { virtual void begin() = 0; virtual void end() = 0; virtual void exec(Toks & t) = 0; };
template<typename B> struct W : Any { B b; void begin() override { b.begin(); } void end() override { b.end(); } void exec(Toks & t) override { b.exec(t); } };
static Any * pick()
{
	if (arg("i1")) return new W<Box<int, 1>>;
	if (arg("i3")) return new W<Box<int, 3>>;
	if (arg("t3")) return new W<Box<Tracked, 3>>;
	if (arg("t8")) return new W<Box<Tracked, 8>>;
	if (arg("s2")) return new W<Box<String, 2>>;
	if (arg("c5")) return new W<Box<signed char, 5>>;
	if (arg("l13")) return new W<Box<long, 13>>;
	if (arg("w4")) return new W<Box<Two, 4>>;
	_exit(77);
}
static Any * box() { static Any * b = pick(); return b; }
void vtBegin() { box()->begin(); }
void vtEnd() { box()->end(); }
void vtExec(Toks & t) { box()->exec(t); }
