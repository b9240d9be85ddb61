#define VT_MAIN
#include "slots.h"
#include "templates/optional.h"
#include "containers/string.h"
using namespace vt;

namespace vt { inline int val(const String & s) { return atoi(*s) - 5000000; } }
struct Agg { int x; char pad[40]; int y; };
namespace vt { inline int val(const Agg & a) { return a.x == a.y ? a.x : -999999; } }
struct alignas(32) Wide { double d; Wide(int x) : d(x) { if ((uintptr_t)this % 32) d = -1; } };
namespace vt { inline int val(const Wide & a) { return (uintptr_t)&a % 32 ? -999998 : (int)a.d; } }
namespace vt { template<> String mk<String>(int x) { return String(std::to_string(x + 5000000).c_str()); } }
namespace vt { template<> Agg mk<Agg>(int x) { return Agg{x, {}, x}; } }

template<typename T> struct Box : public vt::Slots<Optional<T>>
{
	using O = Optional<T>;
	using S = vt::Slots<O>;
	using S::a; using S::moved; using S::fin;
	long held(const O & c) override { return IsSameType<T, Tracked>::value && c.hasValue() ? 1 : 0; }
	std::string contents(const O & c) override
	{
		for (int k = 0; k < S::N; ++k) if (a[k] == &c && moved[k]) return "[]";
		return c.hasValue() ? seq(std::vector<int>{val(*c)}) : "[]";
	}
	void exec(Toks & t)
	{
		const std::string op = t.op();
		int o = (int)t.i();
		auto ev = [&](const char * n) { return Ev(n).i("o", o + 1); };
		auto live = [&] { moved[o] = false; };
		if (op == "newv") { int x = (int)t.i(); if (x % 2) { T y = mk<T>(x); a[o] = new O(y); if (val(y) != x) Ev("BadOperand").emit(); } else a[o] = new O(mk<T>(x)); live(); auto e = ev("NewFrom"); e.sq("xs", std::vector<int>{x}); fin(e); return; }
		if (op == "copync") { int p = (int)t.i(); a[o] = new O(*a[p]); live(); auto e = ev("Copy"); e.i("p", p + 1); fin(e); return; }
		if (op == "assign") live();
		if (S::common(t, o)) return;
		O & c = *a[o];
		if (op == "setv") { int x = (int)t.i(); if (x % 2) { T y = mk<T>(x); O & r = (c = y); S::chk(&r == &c); if (val(y) != x) Ev("BadOperand").emit(); } else { O & r = (c = mk<T>(x)); S::chk(&r == &c); } live(); auto e = ev("Engage"); e.i("x", x); fin(e); }
		else if (op == "emplace") { int x = (int)t.i(); if (x % 2) { T y = mk<T>(x); c.emplace(y); if (val(y) != x) Ev("BadOperand").emit(); } else c.emplace(mk<T>(x)); live(); auto e = ev("Engage"); e.i("x", x); fin(e); }
		else if (op == "diseng") { c.reset(); live(); auto e = ev("Clear"); fin(e); }
		else if (op == "write") { int x = (int)t.i(); if (x % 2) *c = mk<T>(x); else *c.operator->() = mk<T>(x); auto e = ev("Engage"); e.i("x", x); fin(e); }
		else if (op == "swap") { int p = (int)t.i(); ::swap(*a[o], *a[p]); auto e = ev("Swap"); e.i("p", p + 1); fin(e); }
		else if (op == "take") { int r; { T y(*::move(c)); r = val(y); } c.reset(); auto e = ev("Take"); e.i("r", r); fin(e); }
		else if (op == "query")
		{
			const O & k = c;
			auto e = ev("Query");
			e.b("has", k.hasValue()).b("bl", k ? true : false).b("nb", !c);
			std::vector<int> v;
			if (k.hasValue() && !moved[o]) { const T && rr = *(const O &&)k; v = {val(*k), val(*c), val(*k.operator->()), val(*c.operator->()), val(rr)}; }
			e.sq("vs", v);
			fin(e);
		}
		else badop(t);
	}
};
struct Any { virtual void begin() = 0; virtual void end() = 0; virtual void exec(Toks & t) = 0; };
template<typename B> struct W : Any { B b; void begin() override { b.begin(); } void end() override { b.end(); } void exec(Toks & t) override { b.exec(t); } };
static Any * pick()
{
	if (arg("int")) return new W<Box<int>>;
	if (arg("tracked")) return new W<Box<Tracked>>;
	if (arg("string")) return new W<Box<String>>;
	if (arg("agg")) return new W<Box<Agg>>;
	if (arg("wide")) return new W<Box<Wide>>;
	_exit(77);
}
static Any * box() { static Any * b = pick(); return b; }
void vtBegin() { box()->begin(); }
void vtEnd() { box()->end(); }
void vtExec(Toks & t) { box()->exec(t); }
