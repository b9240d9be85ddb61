PRE = '''#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <new>
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
'''
SEEDS = [
dict(id="array-grow-keeps-empty-buffer", prop="C10",
 edits=[("public/containers/array.h","			if (buffer)\n			{\n				Memory::moveElements(inBuffer, buffer, count);","			if (count > 0)\n			{\n				Memory::moveElements(inBuffer, buffer, count);")],
 needs="an array that has storage but no items (reserved, or emptied) and then has to grow past that storage",
 breaks="the old storage is never returned to the allocator that gave it",
 demo=PRE+r'''
#include "containers/array.h"
struct Counting : public MallocAnsi {
	int live = 0;
	virtual void * alloc(sizet n, sizet a) override { ++live; return MallocAnsi::alloc(n, a); }
	virtual void free(void * p) override { if (p) --live; MallocAnsi::free(p); }
};
int main()
{
	Counting m;
	{
		Array<int32> a{&m};
		for (int k = 0; k < 4; ++k) a.add(k);
		a.empty();
		for (int k = 0; k < 3; ++k) a.add(k);
		a.empty();
		a(11) = 5;
	}
	if (m.live) { printf("%d blocks not returned\n", m.live); return 1; }
	return 0;
}
''', flags="-fsanitize=undefined"),
dict(id="string-upper-z", prop="C03",
 edits=[("public/containers/string.h","upper[idx] >= 'a' && upper[idx] <= 'z'","upper[idx] >= 'a' && upper[idx] < 'z'")],
 needs="a string that holds a lower case z",
 breaks="the letter keeps its case in toUpper",
 demo=PRE+r'''
#include "containers/string.h"
int main()
{
	for (char c = 1; c < 127; ++c)
	{
		char in[4] = {'x', c, '_', 0};
		String u = String{in}.toUpper();
		char w = c >= 'a' && c <= 'z' ? c - 32 : c;
		if (u[0] != 'X' || u[1] != w || u[2] != '_' || u.getLength() != 3) { printf("toUpper of %d gives %d\n", c, u[1]); return 1; }
	}
	return 0;
}
'''),
dict(id="string-replace-skips", prop="C04",
 edits=[("public/containers/string.h","			startPos += replacementLen;","			startPos += PlatformMath::max(patternLen, replacementLen);")],
 needs="adjacent occurrences, and a replacement shorter than the pattern",
 breaks="the occurrence right behind a replaced one is left in place",
 demo=PRE+r'''
#include "containers/string.h"
int main()
{
	String s{"one, two; ,,,, three ab ab"};
	s.replaceAll(String{",,"}, String{"-"});
	if (!(s == "one, two; -- three ab ab")) { printf("got %s\n", *s); return 1; }
	String t{"aaaaaaaa"};
	t.replaceAll(String{"aaa"}, String{"b"});
	if (!(t == "bbaa")) { printf("got %s\n", *t); return 1; }
	return 0;
}
'''),
dict(id="tree-clone-next-thread", prop="C06",
 edits=[("public/containers/tree.h","			NodeT * right = cloneSubtree(srcRoot->right);\n			NodeT * next = right->getMin();","			NodeT * right = cloneSubtree(srcRoot->right);\n			NodeT * next = right->left ? right->left : right;")],
 needs="a copy of a tree in which the right subtree of some node has a left spine of two or more",
 breaks="iteration over the copy skips nodes: the successor is not the smallest node of the right subtree",
 demo=PRE+r'''
#include "containers/tree.h"
int main()
{
	BinaryTree<int32> t;
	for (int k = 1; k <= 100; ++k) t.insert(k);
	for (int k = -1; k >= -100; --k) t.insert(k);
	BinaryTree<int32> c{t};
	int n = 0, last = -1000;
	for (auto it = c.begin(); it != c.end(); ++it) { if (*it <= last) return 1; last = *it; ++n; }
	if (n != 200) { printf("%d nodes visited instead of 200\n", n); return 1; }
	return 0;
}
'''),
dict(id="map-index-root", prop="C09",
 edits=[("public/containers/map.h","			tree.root = tree.root->getRoot();\n\n			return node->data.second;","			if (tree.root->parent == node) tree.root = node;\n\n			return node->data.second;")],
 needs="keys created by operator[] in an order that makes the root rotate below its child, not below the new node",
 breaks="the map searches from a node that is no longer the root: keys that were stored are not found",
 demo=PRE+r'''
#include "containers/map.h"
int main()
{
	Map<int32, int32> m;
	int v[] = {8, 3, 12, 15, 14, 20, 30, 40, 50, 60, 1};
	for (int k : v) m[k] = k * 10;
	for (int k : v) { int32 o = 0; if (!m.find(k, o) || o != k * 10) { printf("key %d is lost\n", k); return 1; } }
	return m.getCount() == 11 ? 0 : 1;
}
'''),
dict(id="optional-assign-empty", prop="C12",
 edits=[("public/templates/optional.h","""			// Copy construct object
			emplace(*other);
		}
		else if (!other.engaged && this->engaged)
		{
			// Reset storage
			reset();
		}
""","""			emplace(*other);
		}
		else if (!other.engaged && this->engaged)
		{
			engaged = false;
		}
""")],
 needs="copy assignment of a disengaged optional to an engaged one whose value owns something",
 breaks="the value is dropped without being destroyed",
 demo=PRE+r'''
#include "templates/optional.h"
static int live = 0;
struct V { int v; V(int i) : v{i} { ++live; } V(const V & o) : v{o.v} { ++live; } V & operator=(const V &) = default; ~V() { --live; } };
int main()
{
	{
		Optional<V> a, b; a.emplace(3); const Optional<V> & none = b;
		a = none;
		if (a.hasValue()) return 1;
	}
	if (live) { printf("%d values left alive\n", live); return 1; }
	return 0;
}
'''),
dict(id="pool-stale-link", prop="C15",
 edits=[("private/hal/malloc_pool.cpp","		*getBlockLink(head = block) = nullptr;","		head = block;")],
 needs="a pool of a growing allocator that was exhausted, got one block back and handed it out again",
 breaks="the released block still leads to a block that is in use, which is handed out a second time",
 demo=PRE+r"""
#include "hal/malloc_pool.h"
int main()
{
	MallocPooled m{2, 64};
	void * a = m.alloc(64), * b = m.alloc(64);
	m.free(a);
	void * c = m.alloc(64), * d = m.alloc(64);
	if (c == b || d == b || c == d) { printf("a block is handed out twice\n"); return 1; }
	return 0;
}
"""),
dict(id="ansi-realloc-shrink", prop="C17",
 edits=[("private/hal/malloc_ansi.cpp","Memory::memcpy(out, orig, PlatformMath::min(size, usableSize));","Memory::memcpy(out, orig, PlatformMath::align2Up(PlatformMath::min(size, usableSize), alignment) - alignment + (size < usableSize ? size & 7 : usableSize & (alignment - 1)));")],
 needs="a system block grown or shrunk to a size that is a multiple of eight, but not of its alignment",
 breaks="the last bytes of the block are not carried over",
 demo=PRE+r"""
#include "hal/malloc_ansi.h"
int main()
{
	MallocAnsi m;
	for (int n = 1; n <= 200; ++n) for (int k = 1; k <= 200; ++k)
	{
		char * p = (char*)m.alloc(n, 16);
		for (int i = 0; i < n; ++i) p[i] = 'a' + i % 26;
		p = (char*)m.realloc(p, k, 16);
		for (int i = 0; i < n && i < k; ++i) if (p[i] != 'a' + i % 26) { printf("byte %d of %d is lost\n", i, n); return 1; }
		m.free(p);
	}
	return 0;
}
"""),
dict(id="regex-boundary-second", prop="C18",
 edits=[("private/regex/regex.cpp","return isWord(*input) && (numRead == 0 || !isWord(*(input - 1))) || !isWord(*input) && (numRead > 0 && isWord(*(input - 1)));","return isWord(*input) != (numRead > 1 && isWord(*(input - 1)));")],
 needs="a word boundary right behind the first character of the input",
 breaks="the boundary behind a one-letter word at the beginning is not seen, and one is seen inside the word",
 demo=PRE+r"""
#include "regex/regex.h"
int main()
{
	if (!Re::accept("a\\b-b", "a-b")) { printf("a\\b-b rejects a-b\n"); return 1; }
	if (Re::accept("a\\bb", "ab")) { printf("a\\bb accepts ab\n"); return 1; }
	return 0;
}
"""),
dict(id="vec3-reciprocal-div", prop="C20",
 edits=[("public/math/vec3.h","	FORCE_INLINE Vec3 operator/(T s) const\n	{\n		return Vec3{*this} /= s;","	FORCE_INLINE Vec3 operator/(T s) const\n	{\n		return Vec3{*this} *= T(1) / s;")],
 needs="integer components, or a divisor with no exact reciprocal",
 breaks="the quotient by a scalar is not the component-wise quotient",
 demo=PRE+r"""
#include "math/vec3.h"
int main()
{
	Vec3<int32> v = Vec3<int32>{6, 9, 12} / 3;
	if (v.x != 2 || v.y != 3 || v.z != 4) { printf("%d %d %d\n", v.x, v.y, v.z); return 1; }
	return 0;
}
"""),
dict(id="mat-transpose-corner", prop="C21",
 edits=[("public/math/mat4.h","		swap(vec[7], vec[13]);\n		swap(vec[11], vec[14]);","		if (vec[7] != vec[13]) swap(vec[7], vec[13]), swap(vec[11], vec[14]);")],
 needs="a matrix with equal elements at (1,3) and (3,1) and different ones at (2,3) and (3,2)",
 breaks="transpose leaves two elements in place",
 demo=PRE+r'''
#include "math/mat4.h"
int main()
{
	Mat4<int32> m{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 8, 15, 16};
	Mat4<int32> t = m; t.transpose();
	for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (t(i, j) != m(j, i)) { printf("element %d %d\n", i, j); return 1; }
	return 0;
}
'''),
dict(id="pow-negative-base", prop="C22",
 edits=[("public/generic/generic_platform_math.h","		return y & 0x1 ? z * z * x : z * z;","		return y & 0x1 ? z * z * abs(x) : z * z;")],
 needs="a negative base and an odd exponent",
 breaks="the sign of the power is lost",
 demo=PRE+r'''
#include "hal/platform_math.h"
int main()
{
	for (int32 b = -5; b <= 5; ++b)
	{
		int32 p = 1;
		for (int32 e = 0; e < 9; ++e, p *= b) if (PlatformMath::pow(b, e) != p) { printf("%d^%d\n", b, e); return 1; }
	}
	return 0;
}
'''),
dict(id="pair-le-strict", prop="C23",
 edits=[("public/containers/pair.h","		return !(*this > other);","		return *this < other || (first == other.first && !(second < other.second));")],
 needs="pairs with equal keys, the left one with the smaller second component",
 breaks="<= is no longer the complement of >, since pairs are compared by key alone",
 demo=PRE+r'''
#include "containers/containers_types.h"
#include "templates/functional.h"
#include "containers/pair.h"
int main()
{
	for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < 3; ++c) for (int d = 0; d < 3; ++d)
	{
		Pair<int32, int32> p{a, b}, s{c, d};
		if ((p <= s) == (p > s)) { printf("(%d,%d) <= (%d,%d)\n", a, b, c, d); return 1; }
	}
	return 0;
}
'''),
dict(id="name-concat-embedded", prop="C24",
 edits=[("public/templates/name.h","""				for (sizet idx = 0; idx < name.getLength(); ++idx)
				{
					buffer[i++] = name[idx];""","""				for (sizet idx = 0; idx < name.getLength(); ++idx)
				{
					buffer[i] = name[idx]; i += name[idx] != ' ' || idx + 1 < name.getLength();""")],
 needs="a part that ends in a blank",
 breaks="the joined name loses the blank between its parts, and gets a terminator too many",
 demo=PRE+r'''
#include "templates/name.h"
static constexpr Name a = "one ", b = "two", c = " three";
int main()
{
	constexpr Name n = JOIN_NAME(a, b, c);
	if (n.getLength() != 13 || memcmp(*n, "one two three", 14) != 0) { printf("got %s\n", *n); return 1; }
	return 0;
}
'''),
dict(id="types-remove-cv-both", prop="C26",
 edits=[("public/templates/types.h","template<typename T> struct RemoveConstVolatile<const volatile T>	{ using Type = T; };","template<typename T> struct RemoveConstVolatile<const volatile T>	{ using Type = const T; };")],
 needs="a type that is both const and volatile",
 breaks="the const stays, in RemoveConstVolatile and in what decays by it",
 demo=PRE+r"""
#include "templates/types.h"
int main()
{
	if (!IsSameType<RemoveConstVolatile<const int32>::Type, int32>::value || !IsSameType<RemoveConstVolatile<volatile int32>::Type, int32>::value) return 1;
	if (!IsSameType<RemoveConstVolatile<const volatile int32>::Type, int32>::value) { printf("const stays\n"); return 1; }
	if (!IsSameType<DecayType<const volatile int32 &>::Type, int32>::value) { printf("const stays\n"); return 1; }
	return 0;
}
"""),
dict(id="pooled-exhausted-head", prop="C16",
 edits=[("private/hal/malloc_pool.cpp","		if (pool->isExhausted())\n		{\n			// Move to back\n			head = head->next;","		if (pool->isExhausted() && head->next != head->prev)\n		{\n			// Move to back\n			head = head->next;")],
 needs="two pools, the front one exhausted while the other still has free blocks",
 breaks="a further pool is created although a pool has free blocks",
 demo=PRE+r'''
#include "hal/malloc_pool.h"
int main()
{
	MallocPooled m{2, 32, 16, 2};
	void * p[4];
	for (int k = 0; k < 4; ++k) if (!(p[k] = m.alloc(32, 16))) return 1;
	if (m.getNumPools() != 2) { printf("%u pools for 4 blocks\n", m.getNumPools()); return 1; }
	for (int k = 0; k < 4; ++k) m.free(p[k]);
	return 0;
}
'''),
dict(id="regex-reads-before", prop="C19",
 edits=[("private/regex/regex.cpp","return isWord(*input) && (numRead > 0 && isWord(*(input - 1)));","return isWord(*(input - 1)) && isWord(*input) && numRead > 0;")],
 needs="\\B at the beginning of a pattern",
 breaks="the character in front of the input is read",
 demo=PRE+r"""
#include "regex/regex.h"
#include <cstring>
#include <cstdlib>
int main()
{
	Re::Regex r{"\\Bab"};
	char * s = (char*)::malloc(3); strcpy(s, "ab");
	if (r.accept((const ansichar*)s)) return 1;
	::free(s);
	return 0;
}
""", flags="-fsanitize=address"),
dict(id="move-elements-right", prop="C02",
 edits=[("public/generic/generic_platform_memory.h","""				new (dst + n - i) TT{move(src[n - i])};
				src[n - i].~TT();""","""				new (dst + n - i) TT{move(src[n - i])};
				if (i < n || dst + i < src + n) src[n - i].~TT();""")],
 needs="items that own something, moved up by more places than there are items behind the insertion point",
 breaks="the item that was moved first is never destroyed where it came from",
 demo=PRE+r'''
#include "containers/array.h"
static int live = 0;
struct V { int v; V(int i) : v{i} { ++live; } V(const V & o) : v{o.v} { ++live; } V(V && o) : v{o.v} { ++live; } V & operator=(const V &) = default; ~V() { --live; } };
int main()
{
	{
		Array<V> a;
		for (int k = 0; k < 3; ++k) a.add(V{k});
		a.insertAt(2, V{10}, V{11}, V{12});
		if (a.getCount() != 6) return 1;
	}
	if (live) { printf("%d items left alive\n", live); return 1; }
	return 0;
}
'''),
]
