#define VT_MAIN
#include "common.h"
#include "slots.h"
#include "containers/array.h"
using namespace vt;

// trivial default constructor, everything else is not trivial
struct Semi
{
	int v; const Semi * self;
	Semi() = default;
	Semi(int x) : v(x), self(this) {}
	Semi(const Semi & o) : v(o.get()), self(this) {}
	Semi(Semi && o) : v(o.get()), self(this) { o.v = MOVED; }
	Semi & operator=(const Semi & o) { v = o.get(); self = this; return *this; }
	Semi & operator=(Semi && o) { int x = o.get(); if (&o != this) o.v = MOVED; v = x; self = this; return *this; }
	~Semi() { self = nullptr; }
	int get() const { return self == this ? v : DEAD; }
};
namespace vt { inline int val(const Semi & s) { return s.get(); } }
template<typename T> struct Box : public vt::Slots<Array<T>, true, copies<T>>
{
	using A = Array<T>;
	using S = vt::Slots<A, true, copies<T>>;
	static constexpr bool C = copies<T>;
	using S::a; using S::fin; using S::rest; using S::moved;

	A * makeOn(MallocBase * m) override { return new A(m); }
	long held(const A & c) override { return (long)c.getCount(); }
	std::string contents(const A & c) override
	{
		std::vector<int> v;
		uint64 n = c.getCount();
		if (n > 100000) n = 100000;
		for (uint64 j = 0; j < n; ++j) v.push_back(val(c[j]));
		return seq(v);
	}

	void exec(Toks & t)
	{
		const std::string op = t.op();
		int o = (int)t.i();
		auto ev = [&](const char * n) { return Ev(n).i("o", o + 1); };
		if (S::common(t, o)) return;
		if (op == "newcap")
		{
			int slack = (int)t.i(); auto v = rest(t);
			a[o] = new A((uint64)(v.size() + slack), (uint64)v.size());
			for (size_t j = 0; j < v.size(); ++j) (*a[o])[j] = T(v[j]);
			auto e = ev("NewFrom"); e.sq("xs", v); fin(e);
		}
		else if (op == "newbuf")
		{
			int slack = (int)t.i(); auto v = rest(t);
			if constexpr (C)
			{
				std::vector<T> b(v.begin(), v.end());
				a[o] = new A(b.data(), (uint64)b.size(), (uint64)slack);
			}
			auto e = ev("NewFrom"); e.sq("xs", v); fin(e);
		}
		else if (op == "newstatic")
		{
			auto v = rest(t);
			if constexpr (C)
			{
				const StaticArray<T, 3> s{T{v[0]}, T{v[1]}, T{v[2]}};
				a[o] = new A(s);
			}
			auto e = ev("NewFrom"); e.sq("xs", v); fin(e);
		}
		else if (op == "ins")
		{
			uint64 i = t.u(); auto v = rest(t);
			int r = v[0];
			if (v.size() == 1) { T x(v[0]); r = val(a[o]->insertAt(i, pass(x))); if (C && val(x) != v[0]) r = MOVED; }
			else if (v.size() == 2) { T x(v[0]), y(v[1]); a[o]->insertAt(i, pass(x), pass(y)); }
			else a[o]->insertAt(i, T(v[0]), T(v[1]), T(v[2]));
			auto e = ev("Insert"); e.i("i", i).sq("xs", v).i("r", r); fin(e);
		}
		else if (op == "insfirst" || op == "inslast" || op == "add" || op == "push")
		{
			auto v = rest(t);
			int r = v[0];
			bool f = op == "insfirst";
			if (v.size() == 1)
			{
				T x(v[0]);
				r = val(f ? a[o]->insertFirst(pass(x)) : op == "add" ? a[o]->add(pass(x)) : op == "push" ? a[o]->push(move(x)) : a[o]->insertLast(pass(x)));
				if (C && op != "push" && val(x) != v[0]) r = MOVED;
			}
			else if (v.size() == 2)
			{
				T x(v[0]), y(v[1]);
				if (f) a[o]->insertFirst(pass(x), pass(y)); else a[o]->insertLast(pass(x), pass(y));
				if (C && (val(x) != v[0] || val(y) != v[1])) r = MOVED;
			}
			else { if (f) a[o]->insertFirst(T(v[0]), T(v[1]), T(v[2])); else a[o]->insertLast(T(v[0]), T(v[1]), T(v[2])); }
			auto e = ev(f ? "InsertFirst" : "InsertLast"); e.sq("xs", v).i("r", r); fin(e);
		}
		// beyond the end; what is in between is for the caller to construct
		else if (op == "insfar")
		{
			if constexpr (C)
			{
				uint64 i = t.u(); auto v = rest(t);
				A & c = *a[o];
				const uint64 n = c.getCount();
				int r = v[0];
				if (v.size() == 1) { T x(v[0]); r = val(c.insertAt(i, pass(x))); }
				else if (v.size() == 2) { T x(v[0]), y(v[1]); c.insertAt(i, pass(x), pass(y)); }
				else c.insertAt(i, T(v[0]), T(v[1]), T(v[2]));
				for (uint64 k = n; k < i && k < c.getCount(); ++k) new (&c[k]) T(0);
				auto e = ev("InsertFar"); e.i("i", i).sq("xs", v).i("r", r); fin(e);
			}
		}
		// items of the array itself
		else if (op == "insown")
		{
			if constexpr (C)
			{
				uint64 i = t.u(); auto v = rest(t);
				A & c = *a[o];
				int r = val(c[v[0]]);
				if (v.size() == 1) r = val(i == 0 ? c.insertFirst(c[v[0]]) : i == c.getCount() ? c.insertLast(c[v[0]]) : c.insertAt(i, c[v[0]]));
				else if (v.size() == 2) { if (i == 0) c.insertFirst(c[v[0]], c[v[1]]); else if (i == c.getCount()) c.insertLast(c[v[0]], c[v[1]]); else c.insertAt(i, c[v[0]], c[v[1]]); }
				else c.insertAt(i, ((const A &)c)[v[0]], c[v[1]], c[v[2]]);
				auto e = ev("InsertOwn"); e.i("i", i).sq("is", v).i("r", r); fin(e);
			}
		}
		else if (op == "initown")
		{
			if constexpr (C)
			{
				uint64 i = t.u(), k = t.u();
				int r = val((*a[o])(i, (*a[o])[k]));
				auto e = ev("InitOwn"); e.i("i", i).i("k", k).i("r", r); fin(e);
			}
		}
		else if (op == "set") { uint64 i = t.u(); int x = (int)t.i(); if (x & 1) (*a[o])[i] = T(x); else a[o]->getAt(i) = T(x); auto e = ev("Write"); e.i("i", i).i("x", x); fin(e); }
		else if (op == "grow")
		{
			uint64 i = t.u(); int fill = (int)t.i(), x = (int)t.i();
			uint64 n = a[o]->getCount();
			growAt(o, n, i, fill, x);
			auto e = ev("Grow"); e.i("i", i).i("fill", fill).i("x", x); fin(e);
		}
		else if (op == "getinit")
		{
			uint64 i = t.u(); int x = (int)t.i();
			int r;
			{ T y(x); r = val((*a[o])(i, pass(y))); }
			auto e = ev("GetOrInit"); e.i("i", i).i("x", x).i("r", r); fin(e);
		}
		else if (op == "rem") { uint64 i = t.u(); uint64 n = t.u(); if (n == 1 && i % 2) a[o]->removeAt(i); else a[o]->removeAt(i, n); auto e = ev("Remove"); e.i("i", i).i("n", n); fin(e); }
		else if (op == "remfirst") { a[o]->removeFirst(); auto e = ev("RemoveFirst"); fin(e); }
		else if (op == "remlast") { a[o]->removeLast(); auto e = ev("RemoveLast"); fin(e); }
		else if (op == "pop" || op == "popfirst" || op == "poplast")
		{
			uint64 i = op == "pop" ? t.u() : 0; int r;
			{
				T x(-5);
				if (op == "pop") a[o]->popAt(i, x); else if (op == "popfirst") a[o]->popFirst(x); else a[o]->popLast(x);
				r = val(x);
			}
			auto e = ev(op == "pop" ? "Pop" : op == "popfirst" ? "PopFirst" : "PopLast"); e.i("i", i).i("r", r); fin(e);
		}
		else if (op == "empty" || op == "clear" || op == "wipe" || op == "areset")
		{
			if (op == "empty") a[o]->empty(); else if (op == "clear") a[o]->clear(); else if (op == "wipe") a[o]->wipe(); else a[o]->reset();
			auto e = ev("Clear"); fin(e);
		}
		else if (op == "query")
		{
			const A & c = *a[o];
			std::vector<int> f, b, pf, d;
			size_t lim = 100000;
			for (auto it = c.begin(); it != c.end() && f.size() < lim; ++it) f.push_back(val(*it));
			for (auto it = a[o]->begin(); it != a[o]->end() && pf.size() < lim;) pf.push_back(val(*it++));
			{
				auto it = c.end(); auto bg = c.begin();
				bool post = c.getCount() % 2;
				while (!(it == bg) && b.size() < lim)
				{
					if (post) { it--; b.push_back(val(*it)); } else { --it; b.push_back(val(*it)); }
				}
			}
			for (uint64 j = 0; j < c.getNum() && j < lim; ++j) d.push_back(val((*c)[j]));
			auto e = ev("Query");
			e.sq("f", f).sq("bk", b).sq("pf", pf).sq("data", d).i("n", c.getSize()).b("emp", c.isEmpty()).i("bytes", c.getBytes() / sizeof(T));
			fin(e);
		}
		else if (op == "setit")
		{
			int64 i = t.i(); int x = (int)t.i();
			auto it = a[o]->begin(); it += i;
			switch (x % 4)
			{
				case 0: *it = T(x); break;
				case 1: *it.operator->() = T(x); break;
				case 2: a[o]->begin()[i] = T(x); break;
				default: { int64 k = 0; for (auto & y : *a[o]) { if (k++ == i) y = T(x); } }
			}
			const A & c = *a[o];
			auto ci = c.begin(); ci += i;
			auto e = ev("WriteIt"); e.i("i", i).i("x", x).i("r", val(*ci.operator->())).i("r2", val(ci[0])); fin(e);
		}
		else if (op == "iter")
		{
			int64 i = t.i(), j = t.i();
			A & c = *a[o];
			auto x = c.begin() + i, y = c.end() - (c.getCount() - j);
			auto z = c.begin(); z += i;
			int mi;
			{ auto w = c.end(); w -= c.getCount() - i; mi = val(*w); if (val(*z) != mi) mi = -999; }
			auto e = ev("Iter");
			e.i("i", i).i("j", j).i("a", val(*x)).i("b", val(*y)).i("sub", val(c.begin()[j])).i("mi", mi)
			 .b("eq", x == y).b("ne", x != y).b("lt", x < y).b("gt", x > y).b("le", x <= y).b("ge", x >= y);
			fin(e);
		}
		else badop(t);
	}
	void growAt(int o, uint64 n, uint64 i, int fill, int x);
};
template<typename T> void Box<T>::growAt(int o, uint64 n, uint64 i, int fill, int x)
{
	(*a[o])(i) = T(x);
	for (uint64 j = n; j < i; ++j) (*a[o])[j] = T(fill);
}
template<> void Box<MoveOnly>::growAt(int o, uint64 n, uint64 i, int fill, int x)
{
	if (i < n) { (*a[o])(i) = MoveOnly(x); return; }
	new (&(*a[o])(i)) MoveOnly(x);
	for (uint64 j = n; j < i; ++j) new (&(*a[o])[j]) MoveOnly(fill);
}
template<> void Box<Tracked>::growAt(int o, uint64 n, uint64 i, int fill, int x)
{
	// the new cells are documented as not constructed: the caller constructs them
	if (i < n) { (*a[o])(i) = Tracked(x); return; }
	new (&(*a[o])(i)) Tracked(x);
	for (uint64 j = n; j < i; ++j) new (&(*a[o])[j]) Tracked(fill);
}
struct Any { virtual void begin() = 0; virtual void end() = 0; virtual void exec(Toks & t) = 0; };
template<typename B> struct W : Any { B b; void begin() override { b.begin(); } void end() override { b.end(); } void exec(Toks & t) override { b.exec(t); } };
static Any * pick()
{
	if (arg("tracked")) return new W<Box<Tracked>>;
	if (arg("moveonly")) return new W<Box<MoveOnly>>;
	if (arg("semi")) return new W<Box<Semi>>;
	if (arg("block")) return new W<Box<Block>>;
	if (arg("byte")) return new W<Box<signed char>>;
	if (arg("f64")) return new W<Box<double>>;
	return new W<Box<int>>;
}
static Any * box() { static Any * b = pick(); return b; }
void vtBegin() { box()->begin(); }
void vtEnd() { box()->end(); }
void vtExec(Toks & t) { box()->exec(t); }
