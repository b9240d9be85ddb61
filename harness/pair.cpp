#define VT_MAIN
#include "slots.h"
#include "containers/pair.h"
#include "containers/tuple.h"
#include "containers/string.h"
using namespace vt;


static int fl(int x) { return x >= 0 ? x / 10 : -((9 - x) / 10); }
struct ByTen { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { return (fl(val(a)) - fl(val(b))) * 2; } };
namespace vt { inline int val(const String & s) { return atoi(*s) - 5000000; } inline int val(long x) { return (int)x; } }
namespace vt { template<> String mk<String>(int x) { return String(std::to_string(x + 5000000).c_str()); } }

template<typename P> struct Acc;
template<typename A, typename B, typename C> struct Acc<Pair<A, B, C>>
{
	using P = Pair<A, B, C>;
	static constexpr int N = 2;
	static constexpr int div = IsSameType<C, ByTen>::value ? 10 : 1;
	static P * make(const std::vector<int> & v)
	{
		if (v[0] % 2) { A a = mk<A>(v[0]); B b = mk<B>(v[1]); auto * p = new P(a, b); if (val(a) != v[0] || val(b) != v[1]) Ev("BadOperand").emit(); return p; }
		return new P(mk<A>(v[0]), mk<B>(v[1]));
	}
	static std::vector<int> get(const P & p, int how) { return how ? std::vector<int>{val(p.getKey()), val(p.getVal())} : std::vector<int>{val(p.first), val(p.second)}; }
	static void set(P & p, int i, int x) { if (i == 0) p.first = mk<A>(x); else if (x % 2) p.second = mk<B>(x); else p.getVal() = mk<B>(x); }
	static int sgn(int x) { return x < 0 ? -1 : x > 0; }
	static void compare(Ev & e, const P & x, const P & y)
	{
		typename P::FindPair f;
		e.b("ord", true).i("div", div);
		e.b("eq", x == y).b("ne", x != y).b("lt", x < y).b("gt", x > y).b("le", x <= y).b("ge", x >= y);
		e.i("pp", sgn(f(x, y))).i("pk", sgn(f(x, y.first))).i("kp", sgn(f(x.first, y)));
	}
};
template<typename ...L> struct Acc<Tuple<L...>>
{
	using P = Tuple<L...>;
	static constexpr int N = sizeof...(L);
	template<size_t ...I> static P * make(const std::vector<int> & v, std::index_sequence<I...>) { return new P(mk<L>(v[I])...); }
	static P * make(const std::vector<int> & v) { return make(v, std::make_index_sequence<N>()); }
	template<size_t ...I> static std::vector<int> get(const P & p, std::index_sequence<I...>) { return {val(p.template get<I>())...}; }
	template<size_t ...I> static std::vector<int> getm(P & p, std::index_sequence<I...>) { return {val(p.template get<I>())...}; }
	// first item of each type
	static std::vector<int> byType(const P & p) { return {val(p.template get<L>())...}; }
	static std::vector<int> byTypeM(P & p) { return {val(p.template get<L>())...}; }
	static std::vector<int> get(const P & p, int how) { return how ? getm(const_cast<P &>(p), std::make_index_sequence<N>()) : get(p, std::make_index_sequence<N>()); }
	template<size_t I> static void set1(P & p, int i, int x) { using T = typename std::remove_reference<decltype(p.template get<I>())>::type; if (i == (int)I) p.template get<I>() = mk<T>(x); }
	template<size_t ...I> static void setn(P & p, int i, int x, std::index_sequence<I...>) { (set1<I>(p, i, x), ...); }
	static void set(P & p, int i, int x) { setn(p, i, x, std::make_index_sequence<N>()); }
	// for each position, the first position with the same type
	static std::vector<int> firstOf()
	{
		std::vector<int> out;
		const char * names[] = {typeid(L).name()...};
		for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) if (!strcmp(names[i], names[j])) { out.push_back(j + 1); break; }
		return out;
	}
	static void compare(Ev & e, const P & x, const P & y)
	{
		e.b("ord", false);
		e.sq("firsts", firstOf()).sq("bt", byType(x)).sq("btm", byTypeM(const_cast<P &>(x))).u("n", x.getCount()).u("n2", x.getLength()).u("n3", x.getSize());
	}
};

template<typename T> constexpr long isT() { return std::is_same<T, Tracked>::value ? 1 : 0; }
template<typename A, typename B, typename C> long tracked(const Pair<A, B, C> *) { return isT<A>() + isT<B>(); }
template<typename ...L> long tracked(const Tuple<L...> *) { return (isT<L>() + ... + 0); }

template<typename P> struct Box : public vt::Slots<P>
{
	using S = vt::Slots<P>;
	using A = Acc<P>;
	using S::a; using S::rest; using S::moved; using S::fin;
	long held(const P &) override { return tracked((const P *)nullptr); }
	std::string contents(const P & c) override
	{
		for (int k = 0; k < S::N; ++k) if (a[k] == &c && moved[k]) return "[]";
		auto v = A::get(c, 0);
		if (v != A::get(c, 1)) return "[-1]";
		return seq(v);
	}
	void exec(Toks & t)
	{
		const std::string op = t.op();
		int o = (int)t.i();
		auto ev = [&](const char * n) { return Ev(n).i("o", o + 1); };
		if (op == "make") { auto v = rest(t); v.resize(A::N); a[o] = A::make(v); moved[o] = false; auto e = ev("Make"); e.sq("xs", v); fin(e); return; }
		if (S::common(t, o)) return;
		if (op == "write") { int i = (int)t.i(), x = (int)t.i(); i %= A::N; A::set(*a[o], i, x); auto e = ev("Write"); e.i("i", i).i("x", x); fin(e); }
		else if (op == "cmp") { int p = (int)t.i(); auto e = ev("Compare"); e.i("p", p + 1); A::compare(e, *a[o], *a[p]); fin(e); }
		else badop(t);
	}
	P * make() override { return nullptr; }
};
struct Any { virtual void begin() = 0; virtual void end() = 0; virtual void exec(Toks & t) = 0; };
template<typename B> struct W : Any { B b; void begin() override { b.begin(); } void end() override { b.end(); } void exec(Toks & t) override { b.exec(t); } };
static Any * pick()
{
	wide() = arg("wide");
	if (arg("i64")) return new W<Box<Pair<int64, Tracked, ThreeWayCompare>>>;
	if (arg("u32")) return new W<Box<Pair<uint32, int, ThreeWayCompare>>>;
	if (arg("f64")) return new W<Box<Pair<float64, Block, ThreeWayCompare>>>;
	if (arg("t5")) return new W<Box<Tuple<int8, float64, Block, int64, int8, float32>>>;
	if (arg("pii")) return new W<Box<Pair<int, int, ThreeWayCompare>>>;
	if (arg("ptt")) return new W<Box<Pair<Tracked, Tracked, ThreeWayCompare>>>;
	if (arg("pten")) return new W<Box<Pair<Tracked, int, ByTen>>>;
	if (arg("psi")) return new W<Box<Pair<String, Tracked, ThreeWayCompare>>>;
	if (arg("t1")) return new W<Box<Tuple<int, long>>>;
	if (arg("t2")) return new W<Box<Tuple<Tracked, int, String, Tracked, int>>>;
	if (arg("t3")) return new W<Box<Tuple<Tracked, Tracked, Tracked>>>;
	if (arg("t4")) return new W<Box<Tuple<String, long, int, Tracked, String, long>>>;
	_exit(77);
}
static Any * box() { static Any * b = pick(); return b; }
void vtBegin() { box()->begin(); }
void vtEnd() { box()->end(); }
void vtExec(Toks & t) { box()->exec(t); }
