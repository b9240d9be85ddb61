#define VT_MAIN
#include "common.h"
#include "algorithm/sort.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/string.h"
using namespace vt;

static int DIV = 1000;	// 100000 when "div100000" is given
namespace vt { template<> String mk<String>(int x) { return String(std::to_string(x).c_str()); } }
namespace vt { inline int val(const String & s) { return atoi(*s); } }
struct Cmp
{
	int c;
	template<typename A, typename B> int32 operator()(const A & x, const B & y) const
	{
		int a = val(x) / DIV, b = val(y) / DIV;
		switch (c)
		{
			case 0: return a - b;
			case 1: return b - a;
			case 2: return 0;
			case 3: return a % 2 - b % 2;
			case 4: return a < b ? -1000000 : a > b ? 1000000 : 0;
			default: return a / 2 - b / 2;
		}
	}
};
// the sequence lives in a container or between guards in raw memory
template<typename T> struct Raw
{
	std::vector<T> m; size_t n;
	Raw() : n(0) {}
	static int g(int k) { return wide() ? (k < 2 ? 30 - k : 2 - k) : -91 - k; }
	void fill(const std::vector<int> & v) { m.clear(); n = v.size(); m.reserve(n + 4); m.push_back(mk<T>(g(0))); m.push_back(mk<T>(g(1))); for (int x : v) m.push_back(mk<T>(x)); m.push_back(mk<T>(g(2))); m.push_back(mk<T>(g(3))); }
	T * at(int i) { return m.data() + 2 + i; }
	bool guard() { return m.empty() || (val(m[0]) == g(0) && val(m[1]) == g(1) && val(m[n + 2]) == g(2) && val(m[n + 3]) == g(3)); }
	std::vector<int> get() { std::vector<int> v; for (size_t k = 0; k < n; ++k) v.push_back(val(*at((int)k))); return v; }
};
template<typename T> struct Arr
{
	Array<T> a;
	void fill(const std::vector<int> & v) { a.reset(); for (int x : v) a.add(mk<T>(x)); }
	// array iterators cannot be assigned, sorting an array takes plain pointers
	T * at(int i) { return a.getCount() ? &a[0] + i : nullptr; }
	bool guard() { return true; }
	std::vector<int> get() { std::vector<int> v; for (uint64 k = 0; k < a.getCount(); ++k) v.push_back(val(a[k])); return v; }
};
template<typename T> struct Lst
{
	List<T> a;
	void fill(const std::vector<int> & v) { a.empty(); for (int x : v) a.pushBack(mk<T>(x)); }
	auto at(int i) { auto it = a.begin(); while (i-- > 0) ++it; return it; }
	bool guard() { return true; }
	std::vector<int> get() { std::vector<int> v; for (auto it = a.begin(); it != a.end(); ++it) v.push_back(val(*it)); return v; }
};
struct Any { virtual void clear() = 0; virtual void exec(Toks & t) = 0; };
template<template<typename> class S, template<typename> class X, typename T, typename U> struct Box : Any
{
	S<T> s; X<U> x;
	void clear() override { s.fill({}); x.fill({}); }
	std::vector<int> rest(Toks & t) { std::vector<int> v; while (t.more()) v.push_back((int)t.i()); return v; }
	void out(Ev & e, bool both = false)
	{
		e.sq("a", s.get());
		if (both) e.sq("x", x.get());
		e.i("er", reg().errors).b("guard", s.guard() && x.guard()).emit();
	}
	int index(const decltype(s.at(0)) & it) { size_t n = s.get().size(); auto i = s.at(0); for (size_t k = 0; k <= n; ++k) { if (i == it) return (int)k; if (k < n) ++i; } return -1; }
	void exec(Toks & t) override
	{
		const std::string op = t.op();
		if (op == "fill") { auto v = rest(t); s.fill(v); x.fill({}); Ev e("Fill"); e.sq("xs", v); out(e); return; }
		if (op == "args") { auto v = rest(t); x.fill(v); Ev e("Args"); e.sq("xs", v); out(e); return; }
		int lo = (int)t.i(), hi = (int)t.i(), c = (int)t.i();
		if (op == "sort")
		{
			if (wide() && c == 0) Sort::quicksort(s.at(lo), s.at(hi), ThreeWayCompare{});
			else if (c % 2) { const Cmp k{c}; Sort::quicksort(s.at(lo), s.at(hi), k); } else Sort::quicksort(s.at(lo), s.at(hi), Cmp{c});
			Ev e("Sort"); e.i("lo", lo).i("hi", hi).i("c", c); out(e);
		}
		else if (op == "argsort")
		{
			if (wide() && c == 0) Sort::argquicksort(s.at(lo), s.at(hi), x.at(0), ThreeWayCompare{});
			else if (c % 2) { const Cmp k{c}; Sort::argquicksort(s.at(lo), s.at(hi), x.at(0), k); } else Sort::argquicksort(s.at(lo), s.at(hi), x.at(0), Cmp{c});
			Ev e("ArgSort"); e.i("lo", lo).i("hi", hi).i("c", c); out(e, true);
		}
		else if (op == "part")
		{
			int p = (int)t.i(), r;
			{ T pv = mk<T>(p); r = index(Sort::partition(s.at(lo), s.at(hi), pv, Cmp{c})); }
			Ev e("Part"); e.i("lo", lo).i("hi", hi).i("c", c).i("p", p).i("r", r); out(e);
		}
		else badop(t);
	}
};
static Any * pick()
{
	if (arg("div100000")) DIV = 100000;
	if (arg("block")) return new Box<Arr, Raw, Block, Block>;
	if (arg("wide"))
	{
		wide() = true; DIV = 1;
		return arg("i64") ? (Any *)new Box<Raw, Arr, int64, Block> : arg("u32") ? (Any *)new Box<Arr, Lst, uint32, Tracked> : arg("f64") ? (Any *)new Box<Lst, Raw, float64, Tracked> : arg("i8") ? (Any *)new Box<Raw, Raw, int8, Tracked> : (Any *)new Box<Raw, Raw, int, Tracked>;
	}
	if (arg("array")) return new Box<Arr, Raw, int, int>;
	if (arg("list")) return new Box<Lst, Arr, int, int>;
	if (arg("tracked")) return new Box<Raw, Arr, Tracked, Tracked>;
	if (arg("tlist")) return new Box<Lst, Lst, Tracked, int>;
	if (arg("string")) return new Box<Arr, Arr, String, int>;
	return new Box<Raw, Raw, int, int>;
}
static Any * box() { static Any * b = pick(); return b; }
void vtBegin() { reg().errors = 0; box()->clear(); }
void vtEnd() { Ev("End").i("er", reg().errors).emit(); }
void vtExec(Toks & t) { box()->exec(t); }
