#define VT_MAIN
#include "slots.h"
#include "containers/map.h"
#include "containers/string.h"
using namespace vt;

struct ByVal { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { return (val(a) - val(b)) * 5; } };
struct ByValRev { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { return val(b) - val(a); } };

// keys made of strings: the model key k is written as k letters 'a'
namespace vt { inline int val(const String & s) { int n = (int)s.getLength(); for (int k = 0; k < n; ++k) if (s[k] != 'a') return -1; return n; } }
namespace vt { template<> String mk<String>(int x) { return String(std::string(x, 'a').c_str()); } }

template<typename KT, typename VT, typename C> struct Box : public vt::Slots<Map<KT, VT, C>>
{
	using A = Map<KT, VT, C>;
	using S = vt::Slots<A>;
	using S::a; using S::rest; using S::moved; using S::fin;
	static constexpr size_t LIM = 100000;

	template<typename It> static void add(std::string & s, It & it) { auto & p = *it; if (s.size() > 1) s += ","; s += "[" + std::to_string(val(p.first)) + "," + std::to_string(val(p.second)) + "]"; }
	template<typename It, typename E2> static std::string walk(It it, E2 end) { std::string s = "["; for (size_t n = 0; it != end && n < LIM; ++it, ++n) add(s, it); return s + "]"; }
	A * makeOn(MallocBase * m) override { return new A(m); }
	long held(const A & c) override { return (long)c.getCount() * ((long)IsSameType<KT, Tracked>::value + (long)IsSameType<VT, Tracked>::value); }
	std::string contents(const A & c) override { return walk(c.begin(), c.end()); }
	void exec(Toks & t)
	{
		const std::string op = t.op();
		int o = (int)t.i();
		if (S::common(t, o)) return;
		auto ev = [&](const char * n) { return Ev(n).i("o", o + 1); };
		A * c = a[o];
		if (op == "ins")
		{
			int k = (int)t.i(), v = (int)t.i(), r;
			if ((k + v) % 2) { KT kk = mk<KT>(k); VT vv = mk<VT>(v); r = val(c->insert(kk, vv)); if (val(kk) != k || val(vv) != v) r = MOVED; }
			else { KT kk = mk<KT>(k); VT vv = mk<VT>(v); r = val(c->insert((KT &&)kk, (VT &&)vv)); if (!gone(kk) || !gone(vv)) r = MOVED; }
			auto e = ev("Insert"); e.i("k", k).i("v", v).i("r", r); fin(e);
		}
		else if (op == "put")
		{
			int k = (int)t.i(), v = (int)t.i();
			int bad = 0;
			if ((k + v) % 2) { KT kk = mk<KT>(k); (*c)[kk] = mk<VT>(v); if (val(kk) != k) bad = 1; }
			else (*c)[mk<KT>(k)] = mk<VT>(v);
			auto e = ev("Put"); e.i("k", k).i("v", v).i("bad", bad); fin(e);
		}
		else if (op == "idx")
		{
			int k = (int)t.i();
			int r = val((*c)[mk<KT>(k)]);
			auto e = ev("Index"); e.i("k", k).i("r", r); fin(e);
		}
		// many pairs at once: <k, 7 k mod 1000> for 1..n in an empty map, and all multiples of m out of it
		else if (op == "bulk") { long n = t.i(), how = t.i(); S::each(n, how, [&](int k) { if (k % 2) c->insert(mk<KT>(k), mk<VT>(k * 7 % 1000)); else (*c)[mk<KT>(k)] = mk<VT>(k * 7 % 1000); }); auto e = ev("Bulk"); e.i("n", n); fin(e); }
		else if (op == "bulkrem") { long n = t.i(), m = t.i(), how = t.i(); bool ok = true; S::each(n, how, [&](int k) { if (k % m == 0) { const KT x = mk<KT>(k); if (k % 2) ok = c->remove(x) && ok; else { VT out = mk<VT>(-1); ok = c->pop(x, out) && val(out) == k * 7 % 1000 && ok; } } }); auto e = ev("BulkRemove"); e.i("m", m).b("ok", ok); fin(e); }
		else if (op == "find")
		{
			int k = (int)t.i();
			auto e = ev("Find");
			{
			const KT key = mk<KT>(k);
			const A & cc = *c;
			std::string it = "[", cit = "[";
			{ auto i = c->find(key); if (i != c->end()) add(it, i); }
			{ auto i = cc.find(key); if (i != cc.end()) add(cit, i); }
			int r; bool ok, has;
			{ VT out = mk<VT>(-1); ok = cc.find(key, out); r = val(out); has = cc.has(key); }
			e.i("k", k).raw("it", it + "]").raw("cit", cit + "]").b("ok", ok).b("has", has).i("r", r);
			e.raw("from", walk(c->begin(key), c->end())).raw("range", walk(c->begin(key), c->end(key))).raw("crange", walk(cc.begin(key), cc.end(key)));
			}
			fin(e);
		}
		else if (op == "setit")
		{
			int k = (int)t.i(), v = (int)t.i();
			bool ok = false;
			{ const KT key = mk<KT>(k); auto i = c->find(key); if (i != c->end()) { if (v % 2) (*i).second = mk<VT>(v); else i->second = mk<VT>(v); ok = true; } }
			auto e = ev("WriteIt"); e.i("k", k).i("v", v).b("ok", ok); fin(e);
		}
		// a key and a value of the map itself
		else if (op == "own")
		{
			int i = (int)t.i(), j = (int)t.i(), w = (int)t.i();
			int n = (int)c->getCount();
			if (n == 0) return;
			i %= n; j %= n;
			auto it = c->begin(), jt = c->begin(); for (int k = 0; k < i; ++k) ++it; for (int k = 0; k < j; ++k) ++jt;
			int r = 0; bool ok = true;
			if (w == 0) r = val(c->insert(it->first, jt->second));
			else if (w == 1) r = val((*c)[it->first] = jt->second);
			else if (w == 2) ok = c->remove(it->first);
			else { const A & k = *c; ok = k.has(it->first) && k.find(it->first) != k.end(); r = val(jt->second); }
			auto e = ev("Own"); e.i("i", i).i("j", j).i("w", w).i("r", r).b("ok", ok); fin(e);
		}
		else if (op == "rem") { int k = (int)t.i(); bool ok; { const KT key = mk<KT>(k); ok = c->remove(key); } auto e = ev("Remove"); e.i("k", k).b("ok", ok); fin(e); }
		else if (op == "pop") { int k = (int)t.i(); bool ok; int r; { VT out = mk<VT>(-1); const KT key = mk<KT>(k); ok = c->pop(key, out); r = val(out); } auto e = ev("Pop"); e.i("k", k).b("ok", ok).i("r", r); fin(e); }
		else if (op == "remit")
		{
			int i = (int)t.i();
			auto it = c->begin(); for (int k = 0; k < i; ++k) ++it;
			auto jt = c->remove(it);
			auto e = ev("RemoveIt"); e.i("i", i).raw("nx", walk(jt, c->end())); fin(e);
		}
		else if (op == "query")
		{
			const A & k = *c;
			std::string f = walk(c->begin(), c->end()), cf = walk(k.begin(), k.end()), pf = "[";
			size_t n = 0;
			for (auto & p : *c) { if (n++ > LIM) break; if (pf.size() > 1) pf += ","; pf += "[" + std::to_string(val(p.getKey())) + "," + std::to_string(val(p.getVal())) + "]"; }
			auto e = ev("Query"); e.u("n", k.getCount()).u("n2", k.getNumNodes()).u("n3", k.getSize()).raw("f", f).raw("cf", cf).raw("pf", pf + "]"); fin(e);
		}
		else badop(t);
	}
};
struct Any { virtual void begin() = 0; virtual void end() = 0; virtual void exec(Toks & t) = 0; };
template<typename B> struct W : Any { B b; void begin() override { b.begin(); } void end() override { b.end(); } void exec(Toks & t) override { b.exec(t); } };
static Any * pick()
{
	if (arg("wide"))
	{
		wide() = true;
		return arg("i64") ? (Any *)new W<Box<int64, Tracked, ThreeWayCompare>> : arg("u32") ? (Any *)new W<Box<uint32, Tracked, ThreeWayCompare>> : arg("u64") ? (Any *)new W<Box<uint64, Block, ThreeWayCompare>>
			: arg("f32") ? (Any *)new W<Box<float32, Tracked, ThreeWayCompare>> : arg("f64") ? (Any *)new W<Box<float64, Block, ThreeWayCompare>> : arg("i8") ? (Any *)new W<Box<int8, Block, ThreeWayCompare>> : (Any *)new W<Box<int, Tracked, ThreeWayCompare>>;
	}
	if (arg("string")) return new W<Box<String, int, ThreeWayCompare>>;
	if (arg("tracked")) return arg("rev") ? (Any *)new W<Box<Tracked, Tracked, ByValRev>> : (Any *)new W<Box<Tracked, Tracked, ByVal>>;
	return arg("rev") ? (Any *)new W<Box<int, int, ByValRev>> : (Any *)new W<Box<int, int, ThreeWayCompare>>;
}
static Any * box() { static Any * b = pick(); return b; }
void vtBegin() { box()->begin(); }
void vtEnd() { box()->end(); }
void vtExec(Toks & t) { box()->exec(t); }
