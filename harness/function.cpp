#define VT_MAIN
#include "slots.h"
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "templates/function.h"
using namespace vt;

struct Probe { int kind, base, calls; };
using Fn = Function<int(int, Probe *)>;
static int obj[3];	// objects with a method, shared by everything bound to them

static int plain1(int x, Probe * p) { if (p) { *p = {1, 7, 0}; return 0; } return 7 + x; }
static int plain2(int x, Probe * p) noexcept { if (p) { *p = {2, 9, 0}; return 0; } return 9 + x; }
static int plain3(int x, Probe * p, ...) { if (p) { *p = {2, 9, 0}; return 0; } return 9 + x; }
struct Small { int base, calls = 0; Small(int b) : base(b) {} int operator()(int x, Probe * p) { if (p) { *p = {3, base, calls}; return 0; } return base + x + 100 * calls++; } };
struct Big
{
	char pad[300]; Tracked base; int calls = 0; char pad2[100];
	Big(int b) : base(b) { memset(pad, b, 300); memset(pad2, b, 100); }
	int operator()(int x, Probe * p)
	{
		int b = val(base);
		for (char ch : pad) if (ch != (char)b) b = -77777;
		for (char ch : pad2) if (ch != (char)b) b = -77777;
		if (p) { *p = {4, b, calls}; return 0; }
		return b + x + 100 * calls++;
	}
};
struct alignas(64) Wide { int base, calls = 0; Wide(int b) : base(b) {} int operator()(int x, Probe * p) { int b = (uintptr_t)this % 64 ? -88888 : base; if (p) { *p = {7, b, calls}; return 0; } return b + x + 100 * calls++; } };
struct Obj { int * n; int add(int x) { return ++*n * 1000 + x; } };
struct ConstCall { int base; int operator()(int x, Probe * p) const { if (p) { *p = {8, base, 0}; return 0; } return base + x; } };

// how an argument reaches the target
struct Cp
{
	int v; static int copies;
	Cp(int x) : v(x) {}
	Cp(const Cp & o) : v(o.v) { ++copies; }
	Cp(Cp && o) : v(o.v) { o.v = -5; }
};
int Cp::copies = 0;
struct Got { int cat, v, copies; const void * at; };
static Got got;
template<typename R> struct Cat
{
	R note(int k, const Cp & c, int a, int b) { got = {k, c.v + 1000 * a + 10000 * b, Cp::copies, &c}; return R(); }
	R operator()(int a, Cp & c, int && b) { return note(1, c, a, b); }
	R operator()(int a, const Cp & c, int && b) { return note(2, c, a, b); }
	R operator()(int a, Cp && c, int && b) { return note(3, c, a, b); }
	R operator()(int a, const Cp && c, int && b) { return note(4, c, a, b); }
	R operator()(int a, Cp & c, int & b) { return note(5, c, a, b); }
	R operator()(int a, const Cp & c, int & b) { return note(6, c, a, b); }
	R operator()(int a, Cp && c, int & b) { return note(7, c, a, b); }
	R operator()(int a, const Cp && c, int & b) { return note(8, c, a, b); }
};
template<typename R, typename A> struct Fwd
{
	static bool run(int how, bool rv, int x)
	{
		Function<R(int, A, int)> f{Cat<R>{}};
		Function<R(int, A, int)> g{f};
		Cp c(x);
		Cp::copies = 0;
		const Function<R(int, A, int)> & k = how == 2 ? g : f;
		if constexpr (__is_constructible(A, Cp &)) { if (!rv) { if (how) k(1, c, 2); else f(1, c, 2); return got.at == &c; } }
		if constexpr (__is_constructible(A, Cp &&)) { if (rv) { if (how) k(1, (Cp &&)c, 2); else f(1, (Cp &&)c, 2); return got.at == &c; } }
		_exit(77);
	}
};

struct P2 { int first, second; };
struct HeapOnly { int * p; explicit HeapOnly(int x) : p(new int(x)) {} HeapOnly(HeapOnly && o) : p(o.p) { o.p = nullptr; } HeapOnly(const HeapOnly &) = delete; ~HeapOnly() { delete p; } };
static int inc(int & x) { return ++x; }
static const int & pick(const P2 & p) { return p.second; }
static int fact(int n) { return n; }

struct Box : public vt::Slots<Fn>
{
	static Probe probe(const Fn & c) { Probe p{-1, -1, -1}; const_cast<Fn &>(c)(0, &p); return p; }
	long held(const Fn & c) override { if (!c) return 0; int k = probe(c).kind; return k == 4 || k == 5; }
	std::string contents(const Fn & c) override
	{
		if (!c) return "[]";
		Probe p = probe(c);
		return seq(std::vector<int>{p.kind, p.base, p.calls});
	}
	void begin() override { vt::Slots<Fn>::begin(); memset(obj, 0, sizeof obj); }
	void fin(Ev & e) { e.sq("ob", std::vector<int>{obj[0], obj[1], obj[2]}); vt::Slots<Fn>::fin(e); }
	Fn * bind(int kind, int b)
	{
		bool lv = b % 2;
		switch (kind)
		{
			case 1: return lv ? new Fn(plain1) : new Fn(&plain1);
			case 2: { auto * p = &plain2; return lv ? new Fn(p) : b % 3 ? new Fn(plain2) : new Fn(plain3); }
			case 3: if (lv) { Small s(b); auto * f = new Fn(s); s.base = -1; return f; } return new Fn(Small(b));
			case 4: if (lv) { Big s(b); auto * f = new Fn(s); s.base = Tracked(-1); memset(s.pad, 0, 300); return f; } else { Big s(b); return new Fn(::move(s)); }
			case 5:
			{
				Tracked t(b); int n = 0;
				auto l = [t, n](int x, Probe * p) mutable { if (p) { *p = {5, val(t), n}; return 0; } return val(t) + x + 100 * n++; };
				if (lv) return new Fn(l);
				return new Fn(::move(l));
			}
			case 6:
			{
				Obj o{&obj[b % 3]}; int id = b % 3;
				return new Fn([o, id](int x, Probe * p) mutable { if (p) { *p = {6, id, 0}; return 0; } return o.add(x); });
			}
			case 7: if (lv) { const Wide w(b); return new Fn(w); } return new Fn(Wide(b));
			case 8: { const ConstCall c{b}; if (lv) return new Fn(c); return new Fn(ConstCall{b}); }
		}
		_exit(77);
	}
	void exec(Toks & t)
	{
		const std::string op = t.op();
		int o = (int)t.i();
		if (op == "bind") { int k = (int)t.i(), b = (int)t.i(); a[o] = bind(k, b); moved[o] = false; auto e = ev("Bind", o); e.i("kind", k).i("b", b); fin(e); return; }
		if (op == "rebind") { int k = (int)t.i(), b = (int)t.i(); Fn * f = bind(k, b); Fn & r = (*a[o] = ::move(*f)); chk(&r == a[o]); if (*f) Ev("StillBound").emit(); delete f; moved[o] = false; auto e = ev("Rebind", o); e.i("kind", k).i("b", b); fin(e); return; }
		if (op == "sig") { int w = o, x = (int)t.i(); Ev e("Sig"); sig(e, w, x); fin(e); return; }
		if (op == "fwd")
		{
			int ret = o, par = (int)t.i(), rv = (int)t.i(), how = (int)t.i(), x = (int)t.i();
			bool same = false;
			auto go = [&](auto r) { using R = decltype(r);
				if (par == 0) same = ret ? Fwd<R, Cp>::run(how, rv, x) : Fwd<void, Cp>::run(how, rv, x);
				else if (par == 1) same = ret ? Fwd<R, Cp &>::run(how, rv, x) : Fwd<void, Cp &>::run(how, rv, x);
				else if (par == 2) same = ret ? Fwd<R, const Cp &>::run(how, rv, x) : Fwd<void, const Cp &>::run(how, rv, x);
				else if (par == 3) same = ret ? Fwd<R, Cp &&>::run(how, rv, x) : Fwd<void, Cp &&>::run(how, rv, x);
				else same = ret ? Fwd<R, const Cp &&>::run(how, rv, x) : Fwd<void, const Cp &&>::run(how, rv, x); };
			go(int());
			Ev e("Fwd"); e.i("par", par).b("rv", rv).i("x", x).i("cat", got.cat).i("v", got.v).i("copies", got.copies).b("same", same); fin(e); return;
		}
		if (op == "assign") moved[o] = false;
		bool lv = op == "copync";
		if (lv) { int p = (int)t.i(); a[o] = new Fn(*a[p]); moved[o] = false; auto e = ev("Copy", o); e.i("p", p + 1); fin(e); return; }
		if (op == "query") { auto e = ev("Query", o); e.b("bl", *a[o] ? true : false).b("nb", !*a[o]); fin(e); return; }
		if (op == "call" || op == "ccall")
		{
			int x = (int)t.i();
			int r = op == "call" ? (*a[o])(x, nullptr) : (*(const Fn *)a[o])(x, nullptr);
			auto e = ev("Call", o); e.i("x", x).i("r", r); fin(e); return;
		}
		if (common(t, o)) return;
		badop(t);
	}
	bool common(Toks & t, int o)
	{
		const std::string & op = t.op();
		if (op == "new") { a[o] = make(); moved[o] = false; auto e = ev("New", o); fin(e); }
		else if (op == "copy") { int p = (int)t.i(); a[o] = new Fn((const Fn &)*a[p]); moved[o] = false; auto e = ev("Copy", o); e.i("p", p + 1); fin(e); }
		else if (op == "move") { int p = (int)t.i(); a[o] = new Fn(::move(*a[p])); moved[o] = false; moved[p] = true; auto e = ev("Move", o); e.i("p", p + 1); fin(e); }
		else if (op == "delete") { delete a[o]; a[o] = nullptr; moved[o] = false; auto e = ev("Delete", o); fin(e); }
		else if (op == "assign") { int p = (int)t.i(); Fn & r = (*a[o] = (const Fn &)*a[p]); auto e = ev("Assign", o); e.i("p", p + 1); chk(&r == a[o]); fin(e); }
		else if (op == "massign") { int p = (int)t.i(); Fn & r = (*a[o] = ::move(*a[p])); moved[p] = true; moved[o] = false; auto e = ev("MoveAssign", o); e.i("p", p + 1); chk(&r == a[o]); fin(e); }
		else return false;
		return true;
	}
	void end() override
	{
		for (int k = 0; k < N; ++k) { delete a[k]; a[k] = nullptr; moved[k] = false; }
		Ev e("End");
		fin(e);
	}
	void sig(Ev & e, int w, int x)
	{
		int r = -1, y = x; bool ok = true;
		if (w == 0) { Function<void(int &)> f([](int & z) { z += 5; }); f(y); r = y; }
		else if (w == 1) { Function<int(int &)> f(inc); r = f(y) * 1000 + y; }
		else if (w == 2) { P2 p{1, x}; Function<const int &(const P2 &)> f(pick); const int & q = f(p); ok = &q == &p.second; r = q; }
		else if (w == 3) { Function<int(HeapOnly)> f([](HeapOnly p) { return *p.p; }); HeapOnly m(x); r = f(::move(m)); ok = !m.p; }
		else if (w == 4) { Function<int(Tracked, const Tracked &)> f([](Tracked p, const Tracked & q) { return val(p) * 10 + val(q); }); Tracked p(x), q(3); r = f(p, q); ok = val(p) == x && val(q) == 3; }
		else if (w == 5) { Function<HeapOnly(HeapOnly &&)> f([](HeapOnly && s) { ++*s.p; return HeapOnly(::move(s)); }); HeapOnly s(x - 1), z = f(::move(s)); ok = !s.p; r = *z.p; }
		else if (w == 6) { Function<int(int)> f([](int n) { return n; }); Function<int(int)> g([&](int n) { return n <= 0 ? 0 : n + g(n - 1); }); r = g(x % 10); (void)fact; }
		else if (w == 7) { int n = x; Function<int()> f([n]() mutable { return n++; }); f(); f(); r = f(); }
		else if (w == 8) { Function<int(int, int, int, int, int, int, int, int)> f([](int a, int b, int c, int d, int p, int q, int s, int u) { return a + 3 * b + 5 * c + 7 * d + 11 * p + 13 * q + 17 * s + 19 * u; }); r = f(x, 1, 2, 3, 4, 5, 6, 7); }
		else if (w == 9) { Function<int(int)> f([](int n) { return n + 1; }); Function<int(int)> g(f), h(::move(f)); ok = !f; Function<int(Function<int(int)>, int)> ap([](Function<int(int)> k, int n) { return k(k(n)); }); r = ap(g, x) + h(x); }
		else if (w == 10) { Tracked t(x); Function<Tracked(Tracked &&)> f([](Tracked && s) { return Tracked(::move(s)); }); Tracked u = f(::move(t)); ok = val(t) == MOVED; r = val(u); }
		else if (w == 11) { struct Poly { virtual int f(int n) { return n; } }; struct D : Poly { int f(int n) override { return n * 2; } }; D d; Poly & b = d; Function<int(int)> f([&b](int n) { return b.f(n); }); r = f(x); }
		e.i("w", w).i("x", x).i("r", r).b("ok", ok);
	}
};
static Box * box() { static Box * b = new Box; return b; }
void vtBegin() { box()->begin(); }
void vtEnd() { box()->end(); }
void vtExec(Toks & t) { box()->exec(t); }
