#define VT_MAIN
#include "slots.h"
#include "containers/set.h"
#include "containers/array.h"
using namespace vt;

static int DIV = 1;
template<typename T> int keyOf(const T & x) { return val(x) / DIV; }
struct K { int k; };
inline int keyOf(const K & x) { return x.k; }
namespace vt { template<> K mk<K>(int k) { return K{k}; } }
struct ByKey { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { return (keyOf(a) - keyOf(b)) * 3; } };
template<typename C, typename V> struct KeyArg { using T = K; };
template<typename V> struct KeyArg<ThreeWayCompare, V> { using T = V; };

template<typename T, typename C> struct Box : public vt::Slots<Set<T, C>>
{
	using A = Set<T, C>;
	using S = vt::Slots<A>;
	using S::a; using S::rest; using S::moved; using S::fin;
	using KA = typename KeyArg<C, T>::T;
	static constexpr size_t LIM = 100000;

	long held(const A & c) override { return (long)c.getCount(); }
	std::string contents(const A & c) override
	{
		std::vector<int> v;
		for (auto it = c.begin(); it != c.end() && v.size() < LIM; ++it) v.push_back(val(*it));
		return seq(v);
	}
	void exec(Toks & t)
	{
		const std::string op = t.op();
		int o = (int)t.i();
		if (S::common(t, o)) return;
		auto ev = [&](const char * n) { return Ev(n).i("o", o + 1); };
		A * c = a[o];
		auto key = [&](int k) { return mk<KA>(k); };
		if (op == "set")
		{
			auto v = rest(t);
			int r = v[0];
			if (v.size() == 1)
			{
				if (v[0] % 2) { T x = mk<T>(v[0]); r = val(c->set(x)); if (val(x) != v[0]) r = MOVED; }
				else r = val(c->set(mk<T>(v[0])));
			}
			else if (v.size() == 2) { T x = mk<T>(v[0]); c->set(x, mk<T>(v[1])); r = val(x); }
			else c->set(mk<T>(v[0]), mk<T>(v[1]), mk<T>(v[2]));
			auto e = ev("Add"); e.sq("xs", v).i("r", r).i("n", v.size()); fin(e);
		}
		// many items at once: the numbers 1..n in an empty set, and all multiples of m out of it
		else if (op == "bulk") { long n = t.i(), how = t.i(); S::each(n, how, [&](int k) { c->set(mk<T>(k)); }); auto e = ev("Bulk"); e.i("n", n); fin(e); }
		else if (op == "bulkrem") { long n = t.i(), m = t.i(), how = t.i(); bool ok = true; S::each(n, how, [&](int k) { if (k % m == 0) ok = c->remove(mk<T>(k)) && ok; }); auto e = ev("BulkRemove"); e.i("m", m).b("ok", ok); fin(e); }
		else if (op == "has")
		{
			auto ks = rest(t);
			const A & k = *c;
			auto e = ev("Has");
			{
			T out = mk<T>(-1); T out2 = mk<T>(-1);
			bool h = k.get(key(ks[0])), h2 = c->get(key(ks[0]), out), h3 = k.get(key(ks[0]), out2);
			bool an, al;
			if (ks.size() == 1) { an = k.any(key(ks[0])); al = k.all(key(ks[0])); }
			else if (ks.size() == 2) { an = k.any(key(ks[0]), key(ks[1])); al = k.all(key(ks[0]), key(ks[1])); }
			else { an = k.any(key(ks[0]), key(ks[1]), key(ks[2])); al = k.all(key(ks[0]), key(ks[1]), key(ks[2])); }
			e.sq("ks", ks).b("h", h).b("h2", h2).b("h3", h3).i("out", val(out)).i("out2", val(out2)).b("any", an).b("all", al);
			std::vector<int> from, range, crange;
			{ auto e2 = c->end(); for (auto i = c->begin(key(ks[0])); i != e2 && from.size() < LIM; ++i) from.push_back(val(*i)); }
			{ auto e2 = c->end(key(ks[0])); for (auto i = c->begin(key(ks[0])); i != e2 && range.size() < LIM; ++i) range.push_back(val(*i)); }
			{ auto e2 = k.end(key(ks[0])); for (auto i = k.begin(key(ks[0])); i != e2 && crange.size() < LIM; ++i) crange.push_back(val(*i)); }
			e.sq("from", from).sq("range", range).sq("crange", crange);
			}
			fin(e);
		}
		// an item of the set itself
		else if (op == "own")
		{
			auto ks = rest(t);
			if (c->getCount() == 0) return;
			ks[0] %= (int)c->getCount();
			auto it = c->begin(); for (int k = 0; k < ks[0]; ++k) ++it;
			int r = 0; bool ok = true;
			if (ks[1] == 0) r = val(c->set(*it));
			else if (ks[1] == 1) ok = c->remove(*it);
			else { const A & k = *c; auto ci = k.begin(); for (int j = 0; j < ks[0]; ++j) ci++; ok = k.get(*ci.operator->()) && k.any(*it, *ci) && k.all(*it, *ci); r = val(*it.operator->()); }
			auto e = ev("Own"); e.i("i", ks[0]).i("w", ks[1]).i("r", r).b("ok", ok); fin(e);
		}
		else if (op == "rem")
		{
			int k = (int)t.i();
			bool ok; { const T x = mk<T>(k * DIV + (DIV > 1 ? DIV - 1 : 0)); ok = c->remove(x); }
			auto e = ev("Remove"); e.i("k", k).b("ok", ok).i("out", -1).b("has", false); fin(e);
		}
		else if (op == "remo")
		{
			int k = (int)t.i();
			int r; bool ok; { T out = mk<T>(-1); ok = c->remove(key(k), out); r = val(out); }
			auto e = ev("Remove"); e.i("k", k).b("ok", ok).i("out", r).b("has", true); fin(e);
		}
		else if (op == "uni" || op == "int" || op == "dif")
		{
			int p = (int)t.i();
			A & r = op == "uni" ? (*c += *a[p]) : op == "int" ? (*c *= *a[p]) : (*c -= *a[p]);
			auto e = ev(op == "uni" ? "Union" : op == "int" ? "Inter" : "Diff"); e.i("p", p + 1); S::chk(&r == c); fin(e);
		}
		else if (op == "puni" || op == "pint" || op == "pdif")
		{
			int p = (int)t.i(), q = (int)t.i();
			const A & x = *a[p]; const A & y = *a[q];
			a[o] = op == "puni" ? new A(x + y) : op == "pint" ? new A(x * y) : new A(x - y);
			moved[o] = false;
			auto e = ev(op == "puni" ? "PUnion" : op == "pint" ? "PInter" : "PDiff"); e.i("p", p + 1).i("q", q + 1); fin(e);
		}
		else if (op == "cmp")
		{
			int p = (int)t.i();
			const A & x = *c; const A & y = *a[p];
			auto e = ev("Compare"); e.i("p", p + 1).b("eq", x == y).b("ne", x != y).b("le", x <= y).b("ge", x >= y).b("lt", x < y).b("gt", x > y); fin(e);
		}
		else if (op == "query")
		{
			const A & k = *c;
			std::vector<int> f, cf, pf;
			for (auto & x : *c) { if (f.size() > LIM) break; f.push_back(val(x)); }
			for (auto & x : k) { if (cf.size() > LIM) break; cf.push_back(val(x)); }
			for (auto it = c->getTree().begin(); it != c->getTree().end() && pf.size() < LIM; it++) pf.push_back(val(*it));
			auto e = ev("Query");
			e.u("n", k.getSize()).u("n2", k.getCount()).u("n3", k.getNumItems()).u("n4", k.getTree().getNumNodes()).sq("f", f).sq("cf", cf).sq("pf", pf);
			fin(e);
		}
		else badop(t);
	}
};
struct Any { virtual void begin() = 0; virtual void end() = 0; virtual void exec(Toks & t) = 0; };
template<typename B> struct W : Any { B b; void begin() override { b.begin(); } void end() override { b.end(); } void exec(Toks & t) override { b.exec(t); } };
static Any * pick()
{
	bool tr = arg("tracked");
	if (arg("div")) { DIV = 100; return tr ? (Any *)new W<Box<Tracked, ByKey>> : (Any *)new W<Box<int, ByKey>>; }
	if (arg("wide"))
	{
		wide() = true;
		return arg("i64") ? (Any *)new W<Box<int64, ThreeWayCompare>> : arg("u32") ? (Any *)new W<Box<uint32, ThreeWayCompare>> : arg("u64") ? (Any *)new W<Box<uint64, ThreeWayCompare>>
			: arg("f32") ? (Any *)new W<Box<float32, ThreeWayCompare>> : arg("f64") ? (Any *)new W<Box<float64, ThreeWayCompare>> : arg("i8") ? (Any *)new W<Box<int8, ThreeWayCompare>> : (Any *)new W<Box<int, ThreeWayCompare>>;
	}
	if (arg("block")) return new W<Box<Block, ByKey>>;
	return tr ? (Any *)new W<Box<Tracked, ByKey>> : (Any *)new W<Box<int, ThreeWayCompare>>;
}
static Any * box() { static Any * b = pick(); return b; }
void vtBegin() { box()->begin(); }
void vtEnd() { box()->end(); }
void vtExec(Toks & t) { box()->exec(t); }
