// swap and the default comparators (C26)
#define VT_MAIN
#include "common.h"
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "containers/string.h"
#include "templates/utility.h"
#include "templates/functional.h"
#include "templates/type_info.h"
#include <type_traits>
using namespace vt;

// has only the two operators the comparator documents
struct Ordered
{
	int x; Ordered(int a = 0) : x(a) {}
	operator int() const { return x; }
	friend bool operator<(const Ordered & a, const Ordered & b) { return a.x < b.x; }
	friend bool operator>(const Ordered & a, const Ordered & b) { return a.x > b.x; }
	friend bool operator==(const Ordered &, const Ordered &) = delete;
};
namespace vt { template<> String mk<String>(int x) { char b[16]; snprintf(b, 16, "%c%06d", x < 0 ? '#' : '*', x + 500000); return String(b); } }
template<class V> int rd(const V & v) { return (int)v; }
template<> int rd<String>(const String & s) { return atoi(*s + 1) - 500000; }

struct IBox { virtual ~IBox() {} virtual void exec(const std::string & op, Toks & t) = 0; };
template<class V> struct Box : IBox
{
	std::vector<V *> v;
	~Box() { for (V * p : v) delete p; }
	void fin(Ev & e)
	{
		std::vector<int> a;
		for (V * p : v) a.push_back(rd(*p));
		e.sq("all", a);
		if (arg("tracked") || arg("moveonly")) e.i("bad", reg().errors).i("live", (long long)reg().alive.size());
		e.emit();
	}
	void cmp(Ev & e, V & a, V & b)
	{
		const V & ca = a; const V & cb = b;
		const V * pa = &a; const V * pb = &b;
		ThreeWayCompare c; const ThreeWayCompare cc{}; NullCompare z; const NullCompare zz{};
		e.sq("r", std::vector<int>{c(ca, cb), c(a, b), cc(ca, b), c((V &&)a, (V &&)b), c((V &&)a, cb), c((const V *)pa, (const V *)pb), cc((const V *)pa, (const V *)pb)});
		e.sq("z", std::vector<int>{z(ca, cb), z(a, b), zz((V &&)a, cb), z((const V *)pa, (const V *)pb)});
	}
	template<class U> void across(Ev & e, int i, U u, std::true_type) { ThreeWayCompare c; e.sq("r", std::vector<int>{c(*v[i], u), c(u, *v[i])}); }
	void exec(const std::string & op, Toks & t) override
	{
		if (op == "fill")
		{
			std::vector<int> xs; while (t.more()) xs.push_back(t.i());
			for (V * p : v) delete p;
			v.clear();
			for (int x : xs) v.push_back(new V(mk<V>(x)));
			Ev e("Fill"); e.sq("v", xs); fin(e);
		}
		else if (op == "swap")
		{
			int i = t.i(), j = t.i();
			swap(*v[i - 1], *v[j - 1]);
			Ev e("Swap"); e.i("i", i).i("j", j); fin(e);
		}
		else if (op == "cmp")
		{
			int i = t.i(), j = t.i();
			Ev e("Compare"); e.i("i", i).i("j", j);
			cmp(e, *v[i - 1], *v[j - 1]); fin(e);
		}
		else if (op == "across")
		{
			int i = t.i(), x = t.i(), w = t.i();
			Ev e("Across"); e.i("i", i).i("x", x);
			if constexpr (std::is_arithmetic<V>::value)
			{
				V & a = *v[i - 1];
				ThreeWayCompare c;
				if (w == 0) e.sq("r", std::vector<int>{c(a, (short)x), c((short)x, a)});
				else if (w == 1) e.sq("r", std::vector<int>{c(a, (long long)x), c((long long)x, a)});
				else if (w == 2) e.sq("r", std::vector<int>{c(a, (double)x), c((double)x, a)});
				else { const int y = x; const V * pa = &a; e.sq("r", std::vector<int>{c((const V *)pa, (const int *)&y), c((const int *)&y, (const V *)pa)}); }
			}
			else _exit(77);
			fin(e);
		}
		else if (op == "debug")
		{
			#define D(N) { Ev e("Debug"); e.str("type", #N).str("name", std::string(*TypeDebugInfo<N>::debugName, TypeDebugInfo<N>::debugName.getLength())); fin(e); }
			D(void) D(int8) D(int16) D(int32) D(int64) D(uint8) D(uint16) D(uint32) D(uint64)
		}
		else _exit(77);
	}
};
static std::unique_ptr<IBox> box;
void vtBegin()
{
	box.reset();
	const std::string & ty = args[0];
	if (ty == "int") box.reset(new Box<int32>);
	else if (ty == "i8") box.reset(new Box<int8>);
	else if (ty == "i64") box.reset(new Box<int64>);
	else if (ty == "double") box.reset(new Box<double>);
	else if (ty == "string") box.reset(new Box<String>);
	else if (ty == "ordered") box.reset(new Box<Ordered>);
	else if (ty == "tracked") box.reset(new Box<Tracked>);
	else if (ty == "moveonly") box.reset(new Box<MoveOnly>);
	else _exit(77);
}
void vtEnd() { box.reset(); Ev("End").i("left", (long long)reg().alive.size()).emit(); }
void vtExec(Toks & t) { box->exec(t.op(), t); }
