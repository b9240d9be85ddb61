SEEDS=[
dict(id="atomic-store-release", prop="C14", opt="-O2", flags="",
 edits=[("public/unix/unix_platform_atomics.h","		__atomic_store(dst, &src, GetPlatformAtomicOrder<order>::value);","		// A store only has to publish what was written before it\n		__atomic_store(dst, &src, order == AtomicOrder::Sequential ? __ATOMIC_RELEASE : __ATOMIC_RELAXED);")],
 needs="two threads that each store one atomic and then load the other one (store buffering), a few hundred thousand times",
 breaks="sequentially consistent stores become release stores: both threads can read the old value",
 demo=r'''
#include <thread>
#include <cstdlib>
#include <atomic>
#include <cstdio>
#include "core_types.h"
#include "templates/atomic.h"
struct alignas(128) P { Atomic<int32> v{0}; };
static P x, y; static int32 r[2];
static std::atomic<int> go{0}, fin{0};
static void run(int t, int n)
{
	for (int k = 1; k <= n; ++k)
	{
		go.fetch_add(1);
		while (go.load(std::memory_order_acquire) < 2 * k) {}
		if (t == 0) { x.v.store(1); r[0] = y.v.load(); } else { y.v.store(1); r[1] = x.v.load(); }
		fin.fetch_add(1);
		while (fin.load(std::memory_order_acquire) < 2 * k) {}
		if (t == 0)
		{
			if (r[0] == 0 && r[1] == 0) { printf("both threads read the old value in round %d\n", k); _Exit(1); }
			x.v.store(0); y.v.store(0);
		}
	}
}
int main() { std::thread a(run, 0, 1000000), b(run, 1, 1000000); a.join(); b.join(); return 0; }
'''),
dict(id="tree-black-height", prop="C07",
 edits=[("public/containers/tree.h","""			// Case 2: sibling is black with black children
			if (isBlack(sibling) && isBlack(sibling->left) && isBlack(sibling->right))
			{
				sibling->color = BinaryNodeColor::RED;
				// Recursive call
				repairRemoved(parent, parent->parent);
			}""","""			// Case 2: sibling is black with black children
			if (isBlack(sibling) && isBlack(sibling->left) && isBlack(sibling->right))
			{
				sibling->color = BinaryNodeColor::RED;
				// Recolor the parent
				parent->color = BinaryNodeColor::BLACK;
			}""")],
 needs="removing a black node on the left side whose parent, sibling and nephews are all black, in a tree of at least three levels",
 breaks="the missing black level is not propagated above a black parent: the paths have different numbers of black nodes and the tree degenerates",
 demo=r'''
#include <cstdio>
#include <cmath>
#include "containers/tree.h"
template<typename N> static int depth(N * n) { if (!n) return 0; int a = depth(n->left), b = depth(n->right); return 1 + (a > b ? a : b); }
int main()
{
	BinaryTree<int32, ThreeWayCompare> t;
	const int n = 4096;
	for (int k = 0; k < n; ++k) t.insert(k);
	for (int left = n; left > 1; --left)
	{
		auto it = t.begin();
		t.remove(it);
		if ((left & 63) == 0 || left < 40)
		{
			int d = depth(t.getRoot());
			if (d > 2 * std::log2((double)left) + 1) { printf("%d elements, depth %d\n", left - 1, d); return 1; }
		}
	}
	return 0;
}
'''),
]
