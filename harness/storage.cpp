#define VT_MAIN
#include "slots.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/tree.h"
#include "containers/set.h"
#include "containers/map.h"
#include "containers/string.h"
using namespace vt;

namespace vt { template<> String mk<String>(int x) { return String(std::string(x % 40, 'a' + x % 26).c_str()); } }

template<typename T, typename M> void ins(Array<T, M> & c, int x) { T y = mk<T>(x); c.insertAt(c.getCount() / 2, y); }
template<typename T, typename M> void rem(Array<T, M> & c) { if (c.getCount()) c.removeAt(c.getCount() / 2); }
template<typename T, typename M> void clr(Array<T, M> & c) { c.reset(); }
template<typename T, typename M> uint64 cnt(const Array<T, M> & c) { return c.getCount(); }
template<typename T, typename M> void ins(List<T, M> & c, int x) { if (x % 2) c.pushBack(mk<T>(x)); else c.pushFront(mk<T>(x)); }
template<typename T, typename M> void rem(List<T, M> & c) { if (c.getLength() % 2) c.removeBack(); else c.removeFront(); }
template<typename T, typename M> void clr(List<T, M> & c) { c.empty(); }
template<typename T, typename M> uint64 cnt(const List<T, M> & c) { return c.getLength(); }
template<typename T, typename M> void ins(BinaryTree<T, ThreeWayCompare, M> & c, int x) { if (x % 3) c.insert(T(x)); else c.insertUnique(T(x)); }
template<typename T, typename M> void rem(BinaryTree<T, ThreeWayCompare, M> & c) { if (c.getRoot()) c.removeNode(c.getRoot()); }
template<typename T, typename M> void clr(BinaryTree<T, ThreeWayCompare, M> & c) { c.empty(); }
template<typename T, typename M> uint64 cnt(const BinaryTree<T, ThreeWayCompare, M> & c) { return c.getCount(); }
template<typename T, typename M> void ins(Set<T, ThreeWayCompare, M> & c, int x) { c.set(T(x)); }
template<typename T, typename M> void rem(Set<T, ThreeWayCompare, M> & c) { if (c.getCount()) { T x = *c.begin(); c.remove(x); } }
template<typename T, typename M> void clr(Set<T, ThreeWayCompare, M> & c) { while (c.getCount()) rem(c); }
template<typename T, typename M> uint64 cnt(const Set<T, ThreeWayCompare, M> & c) { return c.getCount(); }
template<typename T, typename M> void ins(Map<T, T, ThreeWayCompare, M> & c, int x) { T y = mk<T>(x); if (x % 2) c[y] = mk<T>(x + 1); else c.insert(y, mk<T>(x + 2)); }
template<typename T, typename M> void rem(Map<T, T, ThreeWayCompare, M> & c) { if (c.getCount()) c.remove(c.begin()); }
template<typename T, typename M> void clr(Map<T, T, ThreeWayCompare, M> & c) { while (c.getCount()) rem(c); }
template<typename T, typename M> uint64 cnt(const Map<T, T, ThreeWayCompare, M> & c) { return c.getCount(); }

template<typename A, bool Own> struct Box : public vt::Slots<A, !Own>
{
	using S = vt::Slots<A, !Own>;
	using S::a; using S::fin;
	std::string contents(const A & c) override { return std::to_string(cnt(c)); }
	A * makeOn(MallocBase * m) override { if constexpr (!Own && std::is_constructible<A, MallocBase *>::value) return new A(m); else return nullptr; }
	void exec(Toks & t)
	{
		const std::string op = t.op();
		int o = (int)t.i();
		if (S::common(t, o)) return;
		auto ev = [&](const char * n) { return Ev(n).i("o", o + 1); };
		if (op == "ins") { ins(*a[o], (int)t.i()); auto e = ev("Ins"); fin(e); }
		else if (op == "rem") { rem(*a[o]); auto e = ev("Rem"); fin(e); }
		else if (op == "clr") { clr(*a[o]); auto e = ev("Clr"); fin(e); }
		else badop(t);
	}
};
struct Any { virtual void begin() = 0; virtual void end() = 0; virtual void exec(Toks & t) = 0; };
template<typename A, bool Own> struct W : Any { Box<A, Own> b; void begin() override { b.begin(); } void end() override { b.end(); } void exec(Toks & t) override { b.exec(t); } };
static Any * pick()
{
	using M = OwnedMalloc;
	using C = ThreeWayCompare;
	if (arg("owned"))
	{
		if (arg("array")) return new W<Array<int, M>, true>;
		if (arg("list")) return new W<List<int, M>, true>;
		if (arg("tree")) return new W<BinaryTree<int, C, M>, true>;
		if (arg("set")) return new W<Set<int, C, M>, true>;
		if (arg("map")) return new W<Map<int, int, C, M>, true>;
	}
	if (arg("nested"))
	{
		if (arg("array")) return new W<Array<String>, false>;
		if (arg("list")) return new W<List<String>, false>;
		if (arg("map")) return new W<Map<String, String>, false>;
	}
	if (arg("array")) return new W<Array<int>, false>;
	if (arg("list")) return new W<List<int>, false>;
	if (arg("tree")) return new W<BinaryTree<int>, false>;
	if (arg("set")) return new W<Set<int>, false>;
	if (arg("map")) return new W<Map<int, int>, false>;
	_exit(77);
}
static Any * box() { static Any * b = pick(); return b; }
void vtBegin() { box()->begin(); }
void vtEnd() { box()->end(); }
void vtExec(Toks & t) { box()->exec(t); }
