SEEDS=[
dict(id="list-assign-stale-tail", prop="C05",
 edits=[("public/containers/list.h","			for (; it && jt; it = (tail = it)->next, jt = jt->next)","			for (; it && jt; it = it->next, jt = jt->next)")],
 needs="copy-assigning a shorter, non-empty list to a list and then using the back of the list",
 breaks="the tail still points to a link that was destroyed: pushes at the back are lost and the freed link is written",
 demo=r'''
#include <cstdio>
#include "containers/list.h"
int main()
{
	List<int32> a, b;
	for (int k = 0; k < 5; ++k) a.pushBack(k);
	b.pushBack(10); b.pushBack(11);
	a = b;
	a.pushBack(12);
	int n = 0, sum = 0;
	for (auto x : a) { ++n; sum += x; }
	printf("%d elements, sum %d\n", n, sum);
	return n == 3 && sum == 33 ? 0 : 1;
}
'''),
dict(id="array-call-init", prop="C01",
 edits=[("public/containers/array.h","		if (idx >= count)\n		{\n			// Value","		if (idx >= capacity)\n		{\n			// Value")],
 needs="operator()(idx, value) with an index behind the last element but inside the reserved storage",
 breaks="the element comes into existence without the initial value that was asked for",
 demo=r'''
#include <cstdio>
#include "containers/array.h"
int main()
{
	Array<int32> a;
	for (int k = 0; k < 9; ++k) a.add(1000 + k);
	while (a.getCount() > 3) a.removeLast();
	int got = a(3, 42);
	printf("got %d\n", got);
	return got == 42 && a.getCount() == 4 && a[3] == 42 ? 0 : 1;
}
'''),
dict(id="set-intersect-tail", prop="C08",
 edits=[("public/containers/set.h","		while (it) it = tree.removeNode(it);","		if (it) it = tree.removeNode(it);")],
 needs="intersecting with a set whose largest key is smaller than at least two keys of the set",
 breaks="keys that are not in both sets survive the intersection",
 demo=r'''
#include <cstdio>
#include "containers/set.h"
int main()
{
	Set<int32> a, b;
	for (int k = 1; k <= 6; ++k) a.set(k);
	b.set(1, 3);
	Set<int32> c = a * b;
	int n = 0;
	for (auto x : c) { ++n; if (x != 1 && x != 3) { printf("%d is not in both\n", x); return 1; } }
	return n == 2 ? 0 : 1;
}
'''),
dict(id="tree-assign-colors", prop="C07",
 edits=[("public/containers/tree.h","		// Copy data and color\n		dstRoot->data = srcRoot->data;\n		dstRoot->color = srcRoot->color;","		// Copy data, nodes are already there\n		dstRoot->data = srcRoot->data;")],
 needs="copy-assigning a tree to a non-empty tree of a different shape or history, then looking at the colours or updating the copy",
 breaks="the copy has the structure of the source with the colours of the old tree: the red-black invariants do not hold",
 demo=r'''
#include <cstdio>
#include "containers/tree.h"
template<typename N> static int black(N * n)
{
	if (!n) return 1;
	const bool red = n->color == BinaryNodeColor::RED;
	if (red && ((n->left && n->left->color == BinaryNodeColor::RED) || (n->right && n->right->color == BinaryNodeColor::RED))) return -1;
	int a = black(n->left), b = black(n->right);
	if (a < 0 || b < 0 || a != b) return -1;
	return a + (red ? 0 : 1);
}
int main()
{
	BinaryTree<int32, ThreeWayCompare> a, b;
	for (int k = 0; k < 12; ++k) a.insert(k);
	for (int k = 0; k < 12; ++k) b.insert(100 - k);
	if (black(a.getRoot()) < 0 || black(b.getRoot()) < 0) return 2;
	b = a;
	int n = 0;
	for (auto x : b) if (x != n++) return 3;
	if (black(b.getRoot()) < 0) { printf("the copy is not a red-black tree\n"); return 1; }
	return 0;
}
'''),
dict(id="sort-narrow-order", prop="C11",
 edits=[("public/algorithm/sort.h","		i = j = begin;\n		for (++i, ++j; i != end; ++i)\n			if (cmp(*i, *begin) < 0) swap(*i, *(p = j)), ++j;","		i = j = begin;\n		for (++i, ++j; i != end; ++i)\n		{\n			const int8 order = cmp(*i, *begin);\n			if (order < 0) swap(*i, *(p = j)), ++j;\n		}")],
 needs="a comparison function that returns differences instead of -1, 0, 1, with elements further than 127 apart, and at least three elements",
 breaks="the result of the comparison is truncated to 8 bits: the range is not sorted",
 demo=r'''
#include <cstdio>
#include "algorithm/sort.h"
int main()
{
	int32 a[] = {900, 5, 300, 44, 1000, 2, 650, 130};
	Sort::quicksort(a, a + 8, [](int32 x, int32 y) { return x - y; });
	for (int k = 1; k < 8; ++k) if (a[k - 1] > a[k]) { printf("%d before %d\n", a[k - 1], a[k]); return 1; }
	return 0;
}
'''),
dict(id="function-void-forward", prop="C13",
 edits=[("public/templates/function.h","	static FORCE_INLINE void call(void * fn, Args & ...args)\n	{\n		invoke(*(FunctorT*)fn, forward<Args>(args)...);","	static FORCE_INLINE void call(void * fn, Args & ...args)\n	{\n		invoke(*(FunctorT*)fn, args...);")],
 needs="a Function returning void whose target distinguishes temporaries from named objects (by value arguments are handed on by copy)",
 breaks="arguments passed by value reach the target as lvalues: the target that takes them by move is not called, or they are copied",
 demo=r'''
#include <cstdio>
#include <new>
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "templates/function.h"
static int moved, named;
struct Sink { void operator()(int &&) const { ++moved; } void operator()(int &) const { ++named; } };
int main()
{
	Function<void(int)> f(Sink{});
	f(3);
	printf("moved %d named %d\n", moved, named);
	return moved == 1 && named == 0 ? 0 : 1;
}
'''),
]
