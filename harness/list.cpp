#define VT_MAIN
#include "slots.h"
#include "containers/list.h"
using namespace vt;

template<typename T> struct Box : public vt::Slots<List<T>>
{
	using A = List<T>;
	using S = vt::Slots<A>;
	using S::a; using S::fin; using S::rest; using S::moved;
	static constexpr size_t LIM = 100000;

	A * makeOn(MallocBase * m) override { return new A(m); }
	long held(const A & c) override { return (long)c.getLength(); }
	std::string contents(const A & c) override
	{
		std::vector<int> v;
		for (auto it = c.begin(); it != c.end() && v.size() < LIM; ++it) v.push_back(val(*it));
		return seq(v);
	}
	Link<T> * at(A & c, int i) { auto * k = c.getHead(); while (i-- > 0) k = k->next; return k; }

	void exec(Toks & t)
	{
		const std::string op = t.op();
		int o = (int)t.i();
		if (S::common(t, o)) return;
		auto ev = [&](const char * n) { return Ev(n).i("o", o + 1); };
		A * c = a[o];
		if (op == "newrange")
		{
			auto v = rest(t);
			{ std::vector<T> b(v.begin(), v.end()); const T * p = b.data(); a[o] = new A(p, p + b.size()); }
			auto e = ev("NewRange"); e.sq("xs", v); fin(e);
		}
		else if (op == "empty") { c->empty(); auto e = ev("Clear"); fin(e); }
		else if (op == "pushback" || op == "pushfront")
		{
			bool b = op == "pushback";
			auto v = rest(t);
			int r = v[0];
			if (v.size() == 1 && v[0] % 2) { T x(v[0]); r = val(b ? c->pushBack(x) : c->pushFront(x)); if (val(x) != v[0]) r = MOVED; }
			else if (v.size() == 1) { T x(v[0]); r = val(b ? c->pushBack((T &&)x) : c->pushFront((T &&)x)); if (!gone(x)) r = MOVED; }
			else if (v.size() == 2)
			{
				T x(v[0]), y(v[1]);
				if (b) c->pushBack(x, y); else c->pushFront(x, y);
				if (val(x) != v[0] || val(y) != v[1]) r = MOVED;
			}
			else
			{
				// handed over: the source must have been moved from, not copied
				T x(v[0]), y(v[1]);
				if (b) c->pushBack((T &&)x, (T &&)y, T(v[2])); else c->pushFront((T &&)x, (T &&)y, T(v[2]));
				if (!gone(x) || !gone(y)) r = MOVED;
			}
			auto e = ev(b ? "PushBack" : "PushFront"); e.sq("xs", v).i("r", r); fin(e);
		}
		else if (op == "set") { int i = (int)t.i(), x = (int)t.i(); at(*c, i)->data = T(x); auto e = ev("Write"); e.i("i", i).i("x", x); fin(e); }
		else if (op == "rem") { int i = (int)t.i(); c->remove(at(*c, i)); auto e = ev("RemoveLink"); e.i("i", i); fin(e); }
		else if (op == "remit") { int i = (int)t.i(); auto it = c->begin(); for (int k = 0; k < i; ++k) ++it; c->remove(it); auto e = ev("RemoveIt"); e.i("i", i); fin(e); }
		else if (op == "setit")
		{
			int i = (int)t.i(), x = (int)t.i();
			auto it = c->begin(); for (int k = 0; k < i; ++k) ++it;
			if (x % 3 == 0) *it = T(x); else if (x % 3 == 1) *it.operator->() = T(x); else { int k = 0; for (auto & y : *c) { if (k++ == i) y = T(x); } }
			auto e = ev("WriteIt"); e.i("i", i).i("x", x).i("r", val(*it.operator->())); fin(e);
		}
		// an item of the list itself
		else if (op == "pushown") { int i = (int)t.i(); bool bk = t.i(); const T & x = at(*c, i)->data; int r = val(bk ? c->pushBack(x) : c->pushFront(x)); auto e = ev("PushOwn"); e.i("i", i).b("back", bk).i("r", r); fin(e); }
		// many items at once
		else if (op == "bulk") { long n = t.i(); std::vector<int> v; for (int k = 1; k <= n; ++k) { v.push_back(k % 1009); c->pushBack(T(k % 1009)); } auto e = ev("PushBack"); e.sq("xs", v).i("r", v[0]); fin(e); }
		else if (op == "drain") { long n = t.i(); bool ok = true; for (long k = 0; k < n; ++k) { if (k % 3) { T x(-5); ok = c->popFront(x) && ok; } else ok = c->removeFront() && ok; } auto e = ev("Drain"); e.i("n", n).b("ok", ok); fin(e); }
		else if (op == "remend") { c->remove(c->end()); auto e = ev("RemoveEnd"); fin(e); }
		else if (op == "remback") { bool ok = c->removeBack(); auto e = ev("RemoveBack"); e.b("ok", ok); fin(e); }
		else if (op == "remfront") { bool ok = c->removeFront(); auto e = ev("RemoveFront"); e.b("ok", ok); fin(e); }
		else if (op == "popback" || op == "popfront")
		{
			int r; bool ok;
			{ T x(-5); ok = op == "popback" ? c->popBack(x) : c->popFront(x); r = val(x); }
			auto e = ev(op == "popback" ? "PopBack" : "PopFront"); e.b("ok", ok).i("r", r); fin(e);
		}
		else if (op == "query")
		{
			const A & k = *c;
			std::vector<int> f, cf, pf, links, bk, ibk, hd, tl;
			for (auto it = c->begin(); it != c->end() && f.size() < LIM; ++it) f.push_back(val(*it));
			for (auto & x : k) { if (cf.size() >= LIM) break; cf.push_back(val(x)); }
			for (auto it = c->begin(); !(it == c->end()) && pf.size() < LIM;) pf.push_back(val(*(it++)));
			for (auto * n = k.getHead(); n && links.size() < LIM; n = n->next) links.push_back(val(n->data));
			for (auto * n = c->getTail(); n && bk.size() < LIM; n = n->prev) bk.push_back(val(n->data));
			if (k.getHead())
			{
				auto it = c->begin();
				for (uint64 j = 1; j < k.getLength() && j < LIM; ++j) ++it;
				bool post = k.getLength() % 2;
				for (uint64 j = 0; j < k.getLength() && j < LIM; ++j) { ibk.push_back(val(*it)); if (post) it--; else --it; }
				hd.push_back(val(k.getHead()->data)); tl.push_back(val(k.getTail()->data));
			}
			bool ends = k.getHead() ? k.getTail() && !k.getHead()->prev && !k.getTail()->next : !k.getTail();
			auto e = ev("Query");
			e.u("n", k.getLength()).sq("f", f).sq("cf", cf).sq("pf", pf).sq("links", links).sq("bk", bk).sq("ibk", ibk).sq("hd", hd).sq("tl", tl).b("ends", ends);
			str(e, k);
			fin(e);
		}
		else badop(t);
	}
	void str(Ev & e, const A & k);
};
template<> void Box<int>::str(Ev & e, const A & k) { if (k.getLength() > 2000) return; String s = k.toString(); e.str("str", *s); }
template<typename T> void Box<T>::str(Ev & e, const A & k) {}
struct Any { virtual void begin() = 0; virtual void end() = 0; virtual void exec(Toks & t) = 0; };
template<typename B> struct W : Any { B b; void begin() override { b.begin(); } void end() override { b.end(); } void exec(Toks & t) override { b.exec(t); } };
static Any * pick()
{
	if (arg("tracked")) return new W<Box<Tracked>>;
	if (arg("block")) return new W<Box<Block>>;
	if (arg("byte")) return new W<Box<signed char>>;
	return new W<Box<int>>;
}
static Any * box() { static Any * b = pick(); return b; }
void vtBegin() { box()->begin(); }
void vtEnd() { box()->end(); }
void vtExec(Toks & t) { box()->exec(t); }
