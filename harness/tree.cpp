#define VT_MAIN
#include "slots.h"
#include "containers/tree.h"
using namespace vt;

static int DIV = 1;
template<typename T> int keyOf(const T & x) { return val(x) / DIV; }
struct K { int k; };	// a bare search key
inline int keyOf(const K & x) { return x.k; }
namespace vt { template<> K mk<K>(int k) { return K{k}; } }
struct ByKey { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { int x = keyOf(a), y = keyOf(b); return x < y ? -1 : x > y ? 1 : 0; } };
// any positive/negative number may be returned by a comparator, not only +-1
struct ByKeyRev { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { return (keyOf(b) - keyOf(a)) * 7; } };

template<typename C, typename V> struct KeyArg { using T = K; };
template<typename V> struct KeyArg<ThreeWayCompare, V> { using T = V; };

// The same collection kept by hand with the nodes' own interface (a node is documented as standalone)
template<typename T, typename C> struct NodeTree
{
	using NodeT = BinaryNode<T, C>;
	using Iterator = TreeIterator<NodeT>;
	using ConstIterator = TreeConstIterator<NodeT>;
	NodeT * root = nullptr;
	NodeTree() {}
	NodeTree(MallocBase *) {}
	NodeTree(const NodeTree & o) { copyOf(o); }
	NodeTree(NodeTree && o) : root(o.root) { o.root = nullptr; }
	NodeTree & operator=(const NodeTree & o) { if (&o != this) { empty(); copyOf(o); } return *this; }
	NodeTree & operator=(NodeTree && o) { if (&o != this) { empty(); root = o.root; o.root = nullptr; } return *this; }
	~NodeTree() { empty(); }
	void copyOf(const NodeTree & o) { for (auto * n = o.getMin(); n; n = n->next) insert(n->data); }
	// from the last to the first: a node is taken out of the tree, then it is the caller's
	void empty() { while (root) drop(root->getMax()); }
	NodeT * drop(NodeT * n)
	{
		NodeT * valid = n;
		NodeT * u;
		if (n->next) u = n->remove(valid); else { u = n->remove(); valid = nullptr; }
		if (u == root) root = u->left ? u->left : u->right;
		if (root) root = root->getRoot();
		delete u;
		return valid;
	}
	template<typename U> NodeT * fresh(U && x) { return new NodeT(std::forward<U>(x)); }
	template<typename U> T & first(U && x) { root = fresh(std::forward<U>(x)); root->color = BinaryNodeColor::BLACK; return root->data; }
	template<typename U> T & insert(U && x)
	{
		if (!root) return first(std::forward<U>(x));
		NodeT * n = root->insert(fresh(std::forward<U>(x)));
		root = root->getRoot();
		return n->data;
	}
	template<typename U> T & insertUnique(U && x)
	{
		if (!root) return first(std::forward<U>(x));
		NodeT * f = fresh(std::forward<U>(x)), * n = root->insertUnique(f);
		if (n != f) delete f;
		root = root->getRoot();
		return n->data;
	}
	template<typename U> T & replace(U && x)
	{
		if (NodeT * n = root ? root->find(x) : nullptr) return n->data = std::forward<U>(x);
		return insert(std::forward<U>(x));
	}
	template<typename U, typename V, typename ... W> void insert(U && x, V && y, W && ... z) { insert(std::forward<U>(x)); insert(std::forward<V>(y), std::forward<W>(z)...); }
	template<typename U, typename V, typename ... W> void insertUnique(U && x, V && y, W && ... z) { insertUnique(std::forward<U>(x)); insertUnique(std::forward<V>(y), std::forward<W>(z)...); }
	template<typename U, typename V, typename ... W> void replace(U && x, V && y, W && ... z) { replace(std::forward<U>(x)); replace(std::forward<V>(y), std::forward<W>(z)...); }
	NodeT * removeNode(NodeT * n) { return drop(n); }
	Iterator remove(const Iterator & it) { return it == end() ? end() : Iterator(drop(findAt(it))); }
	bool remove(const T & x) { NodeT * n = root ? root->find(x) : nullptr; if (n) drop(n); return n != nullptr; }
	NodeT * findAt(const Iterator & it) { NodeT * n = root->getMin(); while (n && &n->data != &*it) n = n->next; return n; }
	const NodeT * getRoot() const { return root; }
	NodeT * getRoot() { return root; }
	const NodeT * getMin() const { const NodeT * r = root; return r ? r->getMin() : r; }
	NodeT * getMin() { return root ? root->getMin() : nullptr; }
	const NodeT * getMax() const { const NodeT * r = root; return r ? r->getMax() : r; }
	NodeT * getMax() { return root ? root->getMax() : nullptr; }
	Iterator begin() { return Iterator(getMin()); }
	ConstIterator begin() const { return ConstIterator(getMin()); }
	Iterator end() { return Iterator(); }
	ConstIterator end() const { return ConstIterator(); }
	template<typename U> Iterator begin(const U & k) { return Iterator(root ? root->findMin(k) : nullptr); }
	template<typename U> ConstIterator begin(const U & k) const { const NodeT * r = root; return ConstIterator(r ? r->findMin(k) : r); }
	template<typename U> Iterator end(const U & k) { NodeT * n = root ? root->findMax(k) : nullptr; return Iterator(n ? n->next : n); }
	template<typename U> ConstIterator end(const U & k) const { const NodeT * r = root; const NodeT * n = r ? r->findMax(k) : r; return ConstIterator(n ? n->next : n); }
	template<typename U> Iterator find(const U & k) { return Iterator(root ? root->find(k) : nullptr); }
	template<typename U> const NodeT * findNode(const U & k) const { const NodeT * r = root; return r ? r->find(k) : r; }
	uint64 getNumNodes() const { return NodeT::getTreeSize(root); }
	uint64 getSize() const { return root ? root->getNumNodes() : 0; }
	uint64 getCount() const { return getSize(); }
};

template<typename T, typename C, template<typename, typename> class TreeOf> struct Box : public vt::Slots<TreeOf<T, C>>
{
	using A = TreeOf<T, C>;
	using NodeT = typename A::NodeT;
	using S = vt::Slots<A>;
	using KA = typename KeyArg<C, T>::T;
	using S::a; using S::rest; using S::moved;
	static constexpr size_t LIM = 100000;
	bool shape = false;

	A * makeOn(MallocBase * m) override { return new A(m); }
	long held(const A & c) override { return (long)c.getNumNodes(); }
	std::string contents(const A & c) override
	{
		std::vector<int> v;
		for (auto it = c.begin(); it != c.end() && v.size() < LIM; ++it) v.push_back(val(*it));
		return seq(v);
	}
	void walk(const NodeT * n, std::vector<const NodeT *> & out, int d)
	{
		if (!n || out.size() > LIM || d > 300) return;
		walk(n->left, out, d + 1);
		out.push_back(n);
		walk(n->right, out, d + 1);
	}
	void fin(Ev & e, int o = -1)
	{
		if (shape && o >= 0 && a[o] && !muted())
		{
			const A & c = *a[o];
			std::vector<const NodeT *> ns;
			walk(c.getRoot(), ns, 0);
			std::map<const NodeT *, int> id;
			for (size_t j = 0; j < ns.size(); ++j) id[ns[j]] = (int)j + 1;
			std::vector<int> l, r, p, co;
			auto ix = [&](const NodeT * n) { return !n ? 0 : id.count(n) ? id[n] : -1; };
			for (auto * n : ns) { l.push_back(ix(n->left)); r.push_back(ix(n->right)); p.push_back(ix(n->parent)); co.push_back(n->color == BinaryNodeColor::RED ? 1 : 0); }
			e.raw("sh", "{\"root\":" + std::to_string(ix(c.getRoot())) + ",\"l\":" + seq(l) + ",\"r\":" + seq(r) + ",\"p\":" + seq(p) + ",\"c\":" + seq(co) + "}");
		}
		S::fin(e);
	}
	void begin() override { S::begin(); shape = arg("shape"); }
	NodeT * nth(A & c, int i) { auto * n = c.getMin(); while (i-- > 0) n = n->next; return n; }
	std::vector<int> from(const NodeT * n) { std::vector<int> v; for (; n && v.size() < LIM; n = n->next) v.push_back(val(n->data)); return v; }

	void exec(Toks & t)
	{
		const std::string op = t.op();
		int o = (int)t.i();
		if (S::common(t, o)) return;
		auto ev = [&](const char * n) { return Ev(n).i("o", o + 1); };
		A * c = a[o];
		if (op == "empty") { c->empty(); auto e = ev("Clear"); fin(e, o); }
		else if (op == "shape") { auto e = ev("Query"); query(e, o); }
		else if (op == "ins" || op == "insu" || op == "repl")
		{
			auto v = rest(t);
			int r = v[0];
			int w = op == "ins" ? 0 : op == "insu" ? 1 : 2;
			if (v.size() == 1)
			{
				T x = mk<T>(v[0]);
				r = val(w == 0 ? c->insert(x) : w == 1 ? c->insertUnique(x) : c->replace(x));
				if (val(x) != v[0]) r = MOVED;
			}
			else if (v.size() == 2)
			{
				T x = mk<T>(v[0]);
				if (w == 0) c->insert(x, mk<T>(v[1])); else if (w == 1) c->insertUnique(x, mk<T>(v[1])); else c->replace(x, mk<T>(v[1]));
				if (w == 1) r = firstHit(*c, v[0]);
				if (val(x) != v[0]) r = MOVED;
			}
			else
			{
				T x = mk<T>(v[0]); T y = mk<T>(v[1]); T z = mk<T>(v[2]);
				if (w == 0) c->insert((T &&)x, (T &&)y, (T &&)z); else if (w == 1) c->insertUnique((T &&)x, (T &&)y, (T &&)z); else c->replace((T &&)x, (T &&)y, (T &&)z);
				if (w == 1) r = firstHit(*c, v[0]);
				else if (!gone(x) || !gone(y) || !gone(z)) r = MOVED;
			}
			auto e = ev(w == 0 ? "Insert" : w == 1 ? "InsertUnique" : "Replace"); e.sq("xs", v).i("r", r); fin(e, o);
		}
		else if (op == "rem") { int i = (int)t.i(); auto * n = c->removeNode(nth(*c, i)); auto e = ev("RemoveNode"); e.i("i", i).sq("nx", from(n)); fin(e, o); }
		else if (op == "remit")
		{
			int i = (int)t.i();
			auto it = c->begin(); for (int k = 0; k < i; ++k) it++;
			auto jt = c->remove(it);
			std::vector<int> v; for (; jt != c->end() && v.size() < LIM; ++jt) v.push_back(val(*jt));
			auto e = ev("RemoveIt"); e.i("i", i).sq("nx", v); fin(e, o);
		}
		else if (op == "setit")
		{
			// the sort key stays
			int i = (int)t.i(), x = (int)t.i();
			auto it = c->begin(); for (int k = 0; k < i; ++k) ++it;
			int y = keyOf(*it) * DIV + (DIV > 1 ? x % DIV : 0);
			if (x % 2) *it = mk<T>(y); else *it.operator->() = mk<T>(y);
			auto e = ev("WriteIt"); e.i("i", i).i("x", y).i("r", val(*it.operator->())); fin(e, o);
		}
		// an item of the tree itself
		else if (op == "insown")
		{
			int i = (int)t.i(), w = (int)t.i();
			const T & x = nth(*c, i)->data;
			int r = val(w == 0 ? c->insert(x) : w == 1 ? c->insertUnique(x) : c->replace(x));
			auto e = ev("InsertOwn"); e.i("i", i).i("w", w).i("r", r); fin(e, o);
		}
		else if (op == "remown") { int i = (int)t.i(); bool ok = c->remove(nth(*c, i)->data); auto e = ev("RemoveOwn"); e.i("i", i).b("ok", ok); fin(e, o); }
		else if (op == "remend") { auto it = c->remove(c->end()); auto e = ev("RemoveEnd"); e.b("isend", it == c->end()); fin(e, o); }
		else if (op == "remv") { int k = (int)t.i(); bool ok; { const T x = mk<T>(k * DIV + (DIV > 1 ? DIV - 1 : 0)); ok = c->remove(x); } auto e = ev("RemoveValue"); e.i("k", k).b("ok", ok); fin(e, o); }
		// many items at once: the numbers 1..n in an empty tree, and all multiples of m out of it
		else if (op == "bulk") { long n = t.i(), how = t.i(); S::each(n, how, [&](int k) { if (k % 3 == 0) c->insert(mk<T>(k)); else if (k % 3 == 1) c->insertUnique(mk<T>(k)); else c->replace(mk<T>(k)); }); auto e = ev("Bulk"); e.i("n", n); fin(e, o); }
		else if (op == "bulkrem") { long n = t.i(), m = t.i(), how = t.i(); bool ok = true; S::each(n, how, [&](int k) { if (k % m == 0) { const T x = mk<T>(k); if (k % 2 || !c->findNode(x)) ok = c->remove(x) && ok; else c->remove(c->find(x)); } }); auto e = ev("BulkRemove"); e.i("m", m).b("ok", ok); fin(e, o); }
		else if (op == "find")
		{
			int k = (int)t.i();
			KA key = mk<KA>(k);
			const A & cc = *c;
			std::vector<int> node, itv, range, crange, lo, hi;
			if (auto * n = cc.findNode(key)) node.push_back(val(n->data));
			{ auto i = c->find(key); if (i != c->end()) itv.push_back(val(*i)); }
			{ auto e2 = c->end(key); for (auto i = c->begin(key); i != e2 && range.size() < LIM; ++i) range.push_back(val(*i)); }
			{ auto e2 = cc.end(key); for (auto i = cc.begin(key); i != e2 && crange.size() < LIM; i++) crange.push_back(val(*i)); }
			if (auto * r = c->getRoot())
			{
				if (auto * n = r->findMin(key)) lo.push_back(val(n->data));
				if (auto * n = r->findMax(key)) hi.push_back(val(n->data));
			}
			auto e = ev("Find"); e.i("k", k).sq("node", node).sq("it", itv).sq("range", range).sq("crange", crange).sq("lo", lo).sq("hi", hi); fin(e);
		}
		else if (op == "query") { auto e = ev("Query"); query(e, o); }
		else badop(t);
	}
	int firstHit(A & c, int x) { auto * n = c.getRoot(); while (n) { int cmp = keyOf(n->data) - x / DIV; if (!cmp) return val(n->data); n = C{}(n->data, mk<T>(x)) > 0 ? n->left : n->right; } return -9; }
	void query(Ev & e, int o)
	{
		A & c = *a[o]; const A & k = c;
		std::vector<int> f, cf, pf, links, bk, ibk, io, mn, mx;
		for (auto it = c.begin(); it != c.end() && f.size() < LIM; ++it) f.push_back(val(*it));
		for (auto & x : k) { if (cf.size() > LIM) break; cf.push_back(val(x)); }
		for (auto it = c.begin(); !(it == c.end()) && pf.size() < LIM;) pf.push_back(val(*(it++)));
		links = from(k.getMin());
		for (auto * n = c.getMax(); n && bk.size() < LIM; n = n->prev) bk.push_back(val(n->data));
		{
			typename A::Iterator it(c.getMax());
			bool post = k.getCount() % 2;
			while (it != c.end() && ibk.size() < LIM) { ibk.push_back(val(*it)); if (post) it--; else --it; }
		}
		std::vector<const NodeT *> ns;
		walk(k.getRoot(), ns, 0);
		for (auto * n : ns) io.push_back(val(n->data));
		if (k.getMin()) mn.push_back(val(k.getMin()->data));
		if (k.getMax()) mx.push_back(val(k.getMax()->data));
		e.u("n", k.getNumNodes() == k.getSize() ? k.getCount() : 999999).sq("f", f).sq("cf", cf).sq("pf", pf).sq("links", links).sq("bk", bk).sq("ibk", ibk).sq("inord", io).sq("mn", mn).sq("mx", mx)
		 .u("sz", k.getRoot() ? k.getRoot()->getNumNodes() : 0);
		fin(e, o);
	}
};
struct Any { virtual void begin() = 0; virtual void end() = 0; virtual void exec(Toks & t) = 0; };
template<typename B> struct W : Any { B b; void begin() override { b.begin(); } void end() override { b.end(); } void exec(Toks & t) override { b.exec(t); } };
template<typename T, typename C> using Plain = BinaryTree<T, C>;
template<template<typename, typename> class TreeOf> static Any * pickOf()
{
	bool tr = arg("tracked");
	if (arg("div")) DIV = 100;
	if (arg("wide"))
	{
		wide() = true;
		return arg("i64") ? (Any *)new W<Box<int64, ThreeWayCompare, TreeOf>> : arg("u32") ? (Any *)new W<Box<uint32, ThreeWayCompare, TreeOf>> : arg("u64") ? (Any *)new W<Box<uint64, ThreeWayCompare, TreeOf>>
			: arg("f32") ? (Any *)new W<Box<float32, ThreeWayCompare, TreeOf>> : arg("f64") ? (Any *)new W<Box<float64, ThreeWayCompare, TreeOf>> : arg("i8") ? (Any *)new W<Box<int8, ThreeWayCompare, TreeOf>> : (Any *)new W<Box<int, ThreeWayCompare, TreeOf>>;
	}
	if (arg("block")) return new W<Box<Block, ByKey, TreeOf>>;
	if (arg("rev")) return tr ? (Any *)new W<Box<Tracked, ByKeyRev, TreeOf>> : (Any *)new W<Box<int, ByKeyRev, TreeOf>>;
	if (arg("div")) return tr ? (Any *)new W<Box<Tracked, ByKey, TreeOf>> : (Any *)new W<Box<int, ByKey, TreeOf>>;
	return tr ? (Any *)new W<Box<Tracked, ByKey, TreeOf>> : (Any *)new W<Box<int, ThreeWayCompare, TreeOf>>;
}
static Any * pick() { return arg("nodes") ? pickOf<NodeTree>() : pickOf<Plain>(); }
static Any * box() { static Any * b = pick(); return b; }
void vtBegin() { box()->begin(); }
void vtEnd() { box()->end(); }
void vtExec(Toks & t) { box()->exec(t); }
