From 4dd7b82bf932a59784f07d3756fe7fc9e17f1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 01/74] fix: copy every element exactly once when copying
 non-trivial elements

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index b5bd1fa..809d432 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -112,7 +112,7 @@ struct GenericPlatformMemory
 	template<typename TT>
 	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
-		for (uint64 i = 0; i < n; ++n, ++dst, ++src)
+		for (uint64 i = 0; i < n; ++i, ++dst, ++src)
 			// Non overlapping required
 			*dst = *src;
 	}
-- 
2.43.0


From 31019755e2541eebbdf1524b389f6f02da65e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 02/74] fix: relocate non-trivial elements when an array shifts
 its items

---
 .../public/generic/generic_platform_memory.h   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 809d432..15aa108 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -127,7 +127,11 @@ struct GenericPlatformMemory
 	/**
 	 * Move elements from source to destination.
 	 * Use this when source and destination
-	 * buffers could overlap.
+	 * buffers could overlap. Elements are
+	 * relocated, i.e. the destination is
+	 * expected not to be constructed, and the
+	 * part of the source that doesn't overlap
+	 * with it is left destroyed.
 	 * 
 	 * @param dst destination buffer
 	 * @param src source buffer
@@ -139,18 +143,20 @@ struct GenericPlatformMemory
 	{
 		if (LIKELY(dst < src))
 		{
-			// Copy left to right
+			// Move left to right
 			for (uint64 i = 0; i < n; ++i)
 			{
-				dst[i] = move(src[i]);
+				new (dst + i) TT{move(src[i])};
+				src[i].~TT();
 			}
 		}
-		else if (LIKELY(src > dst))
+		else if (LIKELY(dst > src))
 		{
-			// Copy right to left
+			// Move right to left
 			for (uint64 i = 1; i <= n; ++i)
 			{
-				dst[n - i] = move(src[n - i]);
+				new (dst + n - i) TT{move(src[n - i])};
+				src[n - i].~TT();
 			}
 		}
 		else
-- 
2.43.0


From 3a9c6e6a371f53464c72a2b26face1c3194ca3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 03/74] fix: do not read past the old buffer when inserting at
 the end of an array

---
 src/korin/core/public/containers/array.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index e3d46b2..34108fc 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -673,7 +673,11 @@ public:
 			Memory::moveElements(buffer + j, buffer + idx, count - idx);
 			++count;
 		}
-		else resizeIfNecessary(count = j);
+		else
+		{
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct element
 		return insertNoResize(idx, forward<ItemT>(item));
@@ -694,7 +698,11 @@ public:
 			Memory::moveElements(buffer + j, buffer + idx, count - idx);
 			count += numArgs;
 		}
-		else resizeIfNecessary((count = j));
+		else
+		{
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct elements
 		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
-- 
2.43.0


From b95bf3a24c5eb5f3b8767273b734236dabb3954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 04/74] fix: destroy every array element exactly once

---
 src/korin/core/public/containers/array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 34108fc..09b4638 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -319,6 +319,7 @@ protected:
 			if (buffer)
 			{
 				Memory::constructCopyElements(inBuffer, buffer, count);
+				Memory::destroyElements(buffer, buffer + count);
 				malloc.free(buffer);
 			}
 
@@ -388,12 +389,12 @@ public:
 	 * @param slack extra space required
 	 */
 	FORCE_INLINE Array(const T * inBuffer, uint64 inCount, uint64 slack = 0)
-		: Array{inCount + slack, inCount}
+		: Array{inCount + slack, inBuffer ? 0 : inCount}
 	{
 		CHECK(buffer != nullptr)
 
 		// Copy source buffer to destination
-		if (inBuffer && count > 0) Memory::constructCopyElements(buffer, inBuffer, count);
+		if (inBuffer) Memory::constructCopyElements(buffer, inBuffer, count = inCount);
 	}
 
 	/**
@@ -815,7 +816,7 @@ public:
 		--count;
 
 		// Destroy element
-		Memory::destroyElements(buffer + count, buffer + count);
+		Memory::destroyElements(buffer + count, buffer + count + 1);
 	}
 
 	/**
-- 
2.43.0


From 9354aa1dbfdad6bce5f4eb7498d586422b93f3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 05/74] fix: return the list from its move assignment

---
 src/korin/core/public/containers/list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 0542e89..4f942bf 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -350,6 +350,8 @@ public:
 
 		other.head = other.tail = nullptr;
 		other.length = 0;
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From 5cacf72aed2824005bc66d9a89c3c9c25a771e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 06/74] fix: unlink a removed head or tail from the links that
 stay in the list

---
 src/korin/core/public/containers/list.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 4f942bf..dc82819 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -535,6 +535,10 @@ public:
 		{
 			if (link == head) head = head->next;
 			if (link == tail) tail = tail->prev;
+
+			// Unlink from the new ends
+			if (head) head->prev = nullptr;
+			if (tail) tail->next = nullptr;
 		}
 
 		--length;
-- 
2.43.0


From 5f61d52f3a67bf001a50a4fd1c665783df0ed853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 07/74] fix: update the length of a list assigned from a
 shorter one

---
 src/korin/core/public/containers/list.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index dc82819..852b236 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -318,6 +318,7 @@ public:
 				LinkT * link = it;
 				it = it->next;
 				destroyLink(link);
+				--length;
 			}
 
 			// Push remaining objects
-- 
2.43.0


From 00556bbac04ca0d37c3f728dc4589703434f2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 08/74] fix: do not move from lvalues pushed together in a list

---
 src/korin/core/public/containers/list.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 852b236..d8bbbd7 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -467,7 +467,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushBack(DataListT && ... datas)
 	{
-		(pushBack(forward<DataT>(datas)), ...);
+		(pushBack(forward<DataListT>(datas)), ...);
 	}
 	/** @} */
 
@@ -515,7 +515,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushFront(DataListT && ... datas)
 	{
-		(... ,pushFront(forward<DataT>(datas)));
+		(... ,pushFront(forward<DataListT>(datas)));
 	}
 	/** @} */
 
-- 
2.43.0


From 0e29832f607a655d27ea2ebcd1368d68f0b34c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 09/74] fix: let the size of a constant subtree be queried

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index db39000..43052f2 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -140,7 +140,7 @@ struct BinaryNode
 	 * 	spawning from root node
 	 * @{
 	 */
-	static FORCE_INLINE uint64 getTreeSize(BinaryNode * root)
+	static FORCE_INLINE uint64 getTreeSize(const BinaryNode * root)
 	{
 		return root ? 1 + getTreeSize(root->right) + getTreeSize(root->left) : 0;
 	}
-- 
2.43.0


From 6f144740ddca80e60f053641c6efb0e112d25bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 10/74] fix: copy an empty tree

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 43052f2..c5d8c13 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1100,7 +1100,7 @@ public:
 	FORCE_INLINE BinaryTree(const BinaryTree & other)
 		: BinaryTree{}
 	{
-		root = cloneSubtree(other.root);
+		root = other.root ? cloneSubtree(other.root) : nullptr;
 		numNodes = other.numNodes;
 	}	
 	
-- 
2.43.0


From 048dc060b00ef504689d9621ff75f99e3464129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 11/74] fix: let an item of a constant set be read

---
 src/korin/core/public/containers/set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index dd73b06..a6deec8 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -185,10 +185,10 @@ public:
 	}
 
 	template<typename KeyT>
-	FORCE_INLINE bool get(const KeyT & key, T const & outValue) const
+	FORCE_INLINE bool get(const KeyT & key, T & outValue) const
 	{
 		// Get node to fetch value
-		if (NodeT * node = tree.findNode(key))
+		if (const NodeT * node = tree.findNode(key))
 		{
 			outValue = node->data;
 			return true;
-- 
2.43.0


From ae5129752d9538e6366cd4e7cb324d409584e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 12/74] fix: consider every key when testing a set for any of
 them

---
 src/korin/core/public/containers/set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index a6deec8..12c5e38 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -223,7 +223,7 @@ public:
 	template<typename KeyT, typename ...KeyListT>
 	FORCE_INLINE bool any(const KeyT & key, KeyListT && ...keys) const
 	{
-		return (get(keys) || ... || false);
+		return get(key) || (get(keys) || ... || false);
 	}
 
 	/**
-- 
2.43.0


From 1bfd3afc73bca4e0e5350b6c83ba2aa819c78d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 13/74] fix: order a set strictly before a larger one that
 extends it

---
 src/korin/core/public/containers/set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 12c5e38..54c4a78 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -648,7 +648,7 @@ public:
 		}
 		
 		// Return true only if other still has elements
-		return !it && !eq;
+		return !it && (jt || !eq);
 	}
 
 	/**
@@ -698,7 +698,7 @@ public:
 		}
 		
 		// Return true only if other still has elements
-		return !jt && !eq;
+		return !jt && (it || !eq);
 	}
 
 private:
-- 
2.43.0


From e3bd8f6e12d376fa5078fbfc0696413e5b762505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 14/74] fix: subtract a set from itself

---
 src/korin/core/public/containers/set.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 54c4a78..5482528 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -412,6 +412,10 @@ public:
 	 */
 	Set & operator-=(const Set & other)
 	{
+		// Nodes of this set are removed while
+		// nodes of the other set are visited
+		if (this == &other) return tree.empty(), *this;
+
 		NodeT * it = tree.getMin();
 		const NodeT * jt = other.tree.getMin();
 
-- 
2.43.0


From dd435ddb21604e9f56e28e975d88b3c48e4d08bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 15/74] fix: compare pairs by their keys

---
 src/korin/core/public/containers/pair.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/pair.h b/src/korin/core/public/containers/pair.h
index d73c9b4..82354cf 100644
--- a/src/korin/core/public/containers/pair.h
+++ b/src/korin/core/public/containers/pair.h
@@ -113,7 +113,7 @@ struct Pair
 	 */
 	FORCE_INLINE bool operator==(const Pair & other) const
 	{
-		return CompareT{}(*this, other) == 0;
+		return FindPair{}(*this, other) == 0;
 	}
 
 	FORCE_INLINE bool operator!=(const Pair & other) const
@@ -123,12 +123,12 @@ struct Pair
 
 	FORCE_INLINE bool operator<(const Pair & other) const
 	{
-		return CompareT{}(*this, other) < 0;
+		return FindPair{}(*this, other) < 0;
 	}
 
 	FORCE_INLINE bool operator>(const Pair & other) const
 	{
-		return CompareT{}(*this, other) > 0;
+		return FindPair{}(*this, other) > 0;
 	}
 
 	FORCE_INLINE bool operator<=(const Pair & other) const
-- 
2.43.0


From 62ecaf6d1282d6b84c19d1664c0ebd95a5b98792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 16/74] fix: compare the objects pointed to

---
 src/korin/core/public/templates/functional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/functional.h b/src/korin/core/public/templates/functional.h
index a887d1c..27b0811 100644
--- a/src/korin/core/public/templates/functional.h
+++ b/src/korin/core/public/templates/functional.h
@@ -41,6 +41,6 @@ struct ThreeWayCompare
 	template<typename A, typename B>
 	FORCE_INLINE int32 operator()(const A * a, const B * b) const
 	{
-		return *this(forward<A>(*a), forward<B>(*b));
+		return (*this)(*a, *b);
 	}
 };
\ No newline at end of file
-- 
2.43.0


From 78dc91ccf2acfb1d4bfbadad42d9aa83035d2091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 17/74] fix: make a string of a given capacity empty

---
 src/korin/core/public/containers/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 025f45c..e12eb94 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -32,7 +32,7 @@ public:
 	 * @param n string capacity
 	 */
 	explicit FORCE_INLINE StringBase(sizet n)
-		: array{nullptr, n + 1}
+		: array{n + 1, 1}
 	{
 		array[0] = '\0';
 	}
@@ -67,8 +67,8 @@ public:
 		: StringBase{n}
 	{
 		// Copy source and terminate string
+		array(n) = '\0';
 		Memory::memcpy(*array, src, n);
-		array[n] = '\0';
 	}
 
 	/**
-- 
2.43.0


From 9bc5e89d9fd127137bb8dfa509351ecb8f0028c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 18/74] fix: replace the whole content when printing into a
 string

---
 src/korin/core/public/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index e12eb94..9c43713 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -450,6 +450,9 @@ private:
 	{
 		array(len) = '\0';
 		Memory::memcpy(*array, src, len);
+		array.count = len + 1;
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From 8ee3a621e77f4f5c869bdc8d5ec23c5567cdd4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 19/74] fix: format strings of any length

---
 src/korin/core/public/containers/string.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 9c43713..7836f3d 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -552,13 +552,17 @@ public:
 	template<typename... Args>
 	static FORCE_INLINE StringBase format(const char * format, Args &&... args)
 	{
-		// We don't know string length a priori
-		constexpr sizet maxlen = 1024;
-		char buff[maxlen] = {};
+		StringBase out{};
 
-		// Print and return new string
-		int32 len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return StringBase{buff, (sizet)len};
+		// Compute length, then print
+		const int32 len = snprintf(nullptr, 0, format, args...);
+		if (len > 0)
+		{
+			out.array(len) = '\0';
+			snprintf(*out.array, len + 1, format, args...);
+		}
+
+		return out;
 	}
 
 	/**
-- 
2.43.0


From bdf712717fd7dd46e600b7f01521ced4f9168371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 20/74] fix: append a string to itself

---
 src/korin/core/public/containers/string.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 7836f3d..0b04a10 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -303,10 +303,15 @@ private:
 	StringBase & appendString(const CharT * src, sizet len)
 	{
 		const sizet currLen = getLength();
+
+		// Source may be part of this string, in
+		// which case it moves with the buffer
+		const bool isOwn = src >= *array && src <= *array + currLen;
+		const sizet offset = isOwn ? src - *array : 0;
 		
 		// Resize buffer and copy string content
 		array(currLen + len) = '\0';
-		Memory::memcpy(*array + currLen, src, len);
+		Memory::memcpy(*array + currLen, isOwn ? *array + offset : src, len);
 
 		return *this;
 	}
-- 
2.43.0


From 8f9346379cd47c74d1f6a507a0375bfc4b57f941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 21/74] fix: find nothing when searching from beyond the end of
 a string

---
 src/korin/core/public/containers/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 0b04a10..a9e6bce 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -658,7 +658,7 @@ public:
 		patternLen = patternLen ? patternLen : PlatformStrings::getLength(pattern);
 
 		// Check pattern length doesn't exceed string length
-		if (patternLen > getLength() - startPos) return -1;
+		if (startPos > getLength() || patternLen > getLength() - startPos) return -1;
 
 		for (sizet idx = startPos, lastIdx = getLength() - patternLen; idx <= lastIdx; ++idx)
 		{
-- 
2.43.0


From e6424005d6bb287a137652cb82dd71b0f6824bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 22/74] fix: terminate when replacing an empty pattern

---
 src/korin/core/public/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index a9e6bce..bf7def5 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -722,6 +722,9 @@ public:
 		sizet replacementLen = replacement.getLength();
 		int64 startPos = 0;
 
+		// An empty pattern would match over and over
+		if (patternLen == 0) return *this;
+
 		while ((startPos = findIndex(pattern, startPos)) != -1)
 		{
 			// Occurence found, needs replacing
-- 
2.43.0


From 0b7590daf4ed5a444b2a2b2cb9747f08a31408c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 23/74] fix: splice and replace with content of the string
 itself

---
 src/korin/core/public/containers/string.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index bf7def5..6e90cc9 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -589,6 +589,10 @@ private:
 	 */
 	StringBase & splice(sizet subPos, sizet subLen, const CharT * replSrc, sizet replLen)
 	{
+		// Source may be part of this string, work
+		// on a copy since the buffer changes
+		if (replSrc >= *array && replSrc <= *array + getLength()) return splice(subPos, subLen, *StringBase{replSrc, replLen}, replLen);
+
 		if (replLen <= subLen)
 		{
 			// Since replacement string is smaller
@@ -718,6 +722,9 @@ public:
 	 */
 	StringBase & replaceAll(const StringBase & pattern, const StringBase & replacement)
 	{
+		// Operands must not change while replacing
+		if (&pattern == this || &replacement == this) return replaceAll(StringBase{pattern}, StringBase{replacement});
+
 		sizet patternLen = pattern.getLength();
 		sizet replacementLen = replacement.getLength();
 		int64 startPos = 0;
-- 
2.43.0


From c9dd6af29a3498278aa545ab8f467ad307f7ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 24/74] fix: let a substring be removed without naming a
 replacement

---
 src/korin/core/public/containers/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 6e90cc9..6c13859 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -631,7 +631,7 @@ public:
 	 * @return ref to self
 	 * @{
 	 */
-	StringBase & splice(sizet pos, sizet len, const StringBase & inserted = "")
+	StringBase & splice(sizet pos, sizet len, const StringBase & inserted)
 	{
 		return splice(pos, len, *inserted, inserted.getLength());
 	}
-- 
2.43.0


From 78501ccdb9667c548f42922b17a84366d5e06ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 25/74] fix: destroy the old value when an optional is filled
 in place

---
 src/korin/core/public/templates/optional.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 0b8b08d..3240e11 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -130,6 +130,9 @@ struct Optional
 	template<typename ...ArgsT>
 	FORCE_INLINE void emplace(ArgsT && ...args)
 	{
+		// Destroy existing object, if any
+		reset();
+
 		engaged = true;
 		new (&storage.value) T{forward<ArgsT>(args)...};
 	}
-- 
2.43.0


From 6525ec880eecac1684152095d268450e255e2841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 26/74] fix: destroy the value an optional was moved from

---
 src/korin/core/public/templates/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 3240e11..ea6c79a 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -79,13 +79,13 @@ struct Optional
 		{
 			// Move object
 			storage.value = move(*other);
-			other.engaged = false;
+			other.reset();
 		}
 		else if (other.engaged && !this->engaged)
 		{
 			// Move costruct object
 			emplace(move(*other));
-			other.engaged = false;
+			other.reset();
 		}
 		else if (!other.engaged && this->engaged)
 		{
-- 
2.43.0


From 7c7789b16ab55a0d0946fe4065720cf29a88107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 27/74] fix: own a copy of the functor a function is created
 from

---
 src/korin/core/public/templates/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index c6273d2..fba340e 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -171,7 +171,7 @@ struct FunctionStorage : FunctionStorageBase
 	template<typename FunctorT>
 	typename DecayType<FunctorT>::Type * bind(FunctorT && fn)
 	{
-		using OwnedT = FunctionOwnedObject<FunctorT>;
+		using OwnedT = FunctionOwnedObject<typename DecayType<FunctorT>::Type>;
 
 		// TODO: Use global allocator
 		heap = MallocAnsi{}.alloc(sizeof(OwnedT), alignof(OwnedT));
-- 
2.43.0


From 95a180543c4bcc68f0c019468b0900225022bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 28/74] fix: copy the functor when a function is copied

---
 src/korin/core/public/templates/function.h | 31 +++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index fba340e..23ca72a 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -47,6 +47,12 @@ struct FunctionOwnedObjectInterface
 	 */
 	virtual void * getAddress() = 0;
 
+	/**
+	 * Returns a copy of this object, or nullptr
+	 * if the object cannot be copied
+	 */
+	virtual void * clone() const = 0;
+
 	/**
 	 * 
 	 */
@@ -110,6 +116,16 @@ struct FunctionOwnedObject : public FunctionOwnedObjectHeap
 	{
 		return &object;
 	}
+
+	virtual FORCE_INLINE void * clone() const override
+	{
+		if constexpr (__is_constructible(T, const T&))
+		{
+			void * copy = MallocAnsi{}.alloc(sizeof(FunctionOwnedObject), alignof(FunctionOwnedObject));
+			return new (copy) FunctionOwnedObject{object};
+		}
+		else return nullptr;
+	}
 };
 
 /**
@@ -154,6 +170,19 @@ struct FunctionStorageBase
 		return getOwnedObject()->getAddress();
 	}
 
+	/**
+	 * Own a copy of the object owned by another
+	 * storage
+	 * 
+	 * @param other storage to copy from
+	 * @returns true if object was copied
+	 */
+	FORCE_INLINE bool bindCopy(const FunctionStorageBase & other)
+	{
+		heap = other.getOwnedObject()->clone();
+		return !!heap;
+	}
+
 	/**
 	 * Destroy owned object
 	 */
@@ -239,7 +268,7 @@ struct FunctionBase<StorageT, RetT(Args...)>
 		: callable{other.callable}
 	{
 		// Copy storage
-		//if (callable) storage.bindCopy(other.storage);
+		if (callable && !storage.bindCopy(other.storage)) callable = nullptr;
 	}
 
 	/**
-- 
2.43.0


From c9dc0b57d07d990d2f2e6d8a40106065ec25c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 29/74] fix: let functions be assigned

---
 src/korin/core/public/templates/function.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index 23ca72a..0f4baab 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -327,6 +327,15 @@ struct FunctionBase<StorageT, RetT(Args...)>
 	/** @} */
 
 protected:
+	/**
+	 * Exchange targets with another function
+	 */
+	FORCE_INLINE void swapTarget(FunctionBase & other)
+	{
+		swap(callable, other.callable);
+		swap(storage.heap, other.storage.heap);
+	}
+
 	/// Ptr function that invokes the call operator
 	RetT (*callable)(void*, Args&...);
 
@@ -364,7 +373,8 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(const Function & other)
 	{
-		swap(*this, Function{other});
+		Function temp{other};
+		this->swapTarget(temp);
 		return *this;
 	}
 
@@ -373,7 +383,8 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(Function && other)
 	{
-		swap(*this, other);
+		Function temp{move(other)};
+		this->swapTarget(temp);
 		return *this;
 	}
 
-- 
2.43.0


From 3e40a6b691c8a8ff0e759ca11db6540ead12e924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 30/74] fix: destroy the value of an optional exactly once

---
 src/korin/core/public/templates/optional.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index ea6c79a..70e0c51 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -186,7 +186,7 @@ struct Optional
 		if (engaged)
 		{
 			engaged = false;
-			storage.~OptionalStorage();
+			storage.value.~T();
 		}
 	}
 
@@ -274,11 +274,12 @@ protected:
 		}
 
 		/**
-		 * Destructor.
+		 * Destructor, value is destroyed by
+		 * the optional if engaged.
 		 */
 		~OptionalStorage()
 		{
-			value.~U();
+			//
 		}
 
 		/// Empty byte
-- 
2.43.0


From 39c3ad04a2e52ec6581dc7124e19c1ed9dd58984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 31/74] fix: copy-construct elements whose copy is not trivial

---
 src/korin/core/public/generic/generic_platform_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 15aa108..4d0561f 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -77,7 +77,7 @@ struct GenericPlatformMemory
 
 	/**
 	 * Copy elements from source to destination.
-	 * If elements are not trivially constructible
+	 * If elements are not trivially copyable
 	 * invoke copy constructor on each element,
 	 * otherwise a simple memory copy is performed.
 	 * 
@@ -86,14 +86,14 @@ struct GenericPlatformMemory
 	 * @param m num of elements
 	 */
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
-		for (uint32 i = 0; i < n; ++i)
+		for (uint64 i = 0; i < n; ++i)
 			new (dst + i) T{src[i]};
 	}
 
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		memcpy(dst, src, n * sizeof(T));
 	}
-- 
2.43.0


From 811f5254d50d08d49cf3e559c6bec20c0a0ac9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 32/74] fix: destroy the links of a list before its managed
 allocator

---
 src/korin/core/public/containers/list.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index d8bbbd7..7348cf6 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -710,6 +710,15 @@ public:
 		//
 	}
 
+	/**
+	 * Destroy links before destroying
+	 * managed allocator.
+	 */
+	FORCE_INLINE ~List()
+	{
+		Base::destroy();
+	}
+
 protected:
 	/// Managed allocator
 	MallocT autoMalloc;
-- 
2.43.0


From bd573ed505b667d3b2db1c0cae0f9da283da615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 33/74] fix: copies of a container with a managed allocator use
 their own allocator

---
 src/korin/core/public/containers/array.h | 20 ++++++++++++++++++++
 src/korin/core/public/containers/list.h  | 20 ++++++++++++++++++++
 src/korin/core/public/containers/tree.h  | 20 ++++++++++++++++++++
 3 files changed, 60 insertions(+)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 09b4638..faad86e 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -941,6 +941,26 @@ public:
 		//
 	}
 
+	/**
+	 * A copy manages its own allocator.
+	 */
+	FORCE_INLINE Array(const Array & other)
+		: Base{&autoMalloc}
+		, autoMalloc{}
+	{
+		Base::operator=(other);
+	}
+
+	/**
+	 * Copy assignment, the allocator
+	 * stays the same.
+	 */
+	FORCE_INLINE Array & operator=(const Array & other)
+	{
+		Base::operator=(other);
+		return *this;
+	}
+
 	/**
 	 * Destructor, destroy array buffer
 	 * here, because we need allocator,
diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 7348cf6..7a6c47e 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -710,6 +710,26 @@ public:
 		//
 	}
 
+	/**
+	 * A copy manages its own allocator.
+	 */
+	FORCE_INLINE List(const List & other)
+		: Base{&autoMalloc}
+		, autoMalloc{}
+	{
+		Base::operator=(other);
+	}
+
+	/**
+	 * Copy assignment, the allocator
+	 * stays the same.
+	 */
+	FORCE_INLINE List & operator=(const List & other)
+	{
+		Base::operator=(other);
+		return *this;
+	}
+
 	/**
 	 * Destroy links before destroying
 	 * managed allocator.
diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index c5d8c13..64f76a5 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1641,6 +1641,26 @@ public:
 		//
 	}
 
+	/**
+	 * A copy manages its own allocator.
+	 */
+	FORCE_INLINE BinaryTree(const BinaryTree & other)
+		: Base{&autoMalloc}
+		, autoMalloc{}
+	{
+		Base::operator=(other);
+	}
+
+	/**
+	 * Copy assignment, the allocator
+	 * stays the same.
+	 */
+	FORCE_INLINE BinaryTree & operator=(const BinaryTree & other)
+	{
+		Base::operator=(other);
+		return *this;
+	}
+
 	/**
 	 * Destroy tree before destroying
 	 * managed allocator.
-- 
2.43.0


From f7b8d7707698f63d6311cd7512df55b9c98f2f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:33 +0000
Subject: [PATCH 34/74] fix: partition returns the position of the first bigger
 or equal element

---
 src/korin/core/public/algorithm/sort.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/algorithm/sort.h b/src/korin/core/public/algorithm/sort.h
index 11452b7..54ef229 100644
--- a/src/korin/core/public/algorithm/sort.h
+++ b/src/korin/core/public/algorithm/sort.h
@@ -37,6 +37,8 @@ struct Sort
 		It i = begin, j = begin;
 		for (; i != end; ++i)
 			if (cmp(*i, pivot) < 0) swap(*i, *j), ++j;
+
+		return j;
 	}
 
 	/**
-- 
2.43.0


From cfc27df2d0d414ce2f64747dfde255438f7f8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:52 +0000
Subject: [PATCH 35/74] fix: atomic pointer arithmetic counts elements,
 assignment returns the assigned value

Atomic<T*>::operator++ and friends advanced the stored pointer by bytes
while returning a pointer advanced by elements. operator= read the object
a second time and could return a value another thread had stored.
---
 src/korin/core/public/templates/atomic.h      |  2 +-
 .../core/public/unix/unix_platform_atomics.h  | 20 +++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/atomic.h b/src/korin/core/public/templates/atomic.h
index 8aeadd8..f27752e 100644
--- a/src/korin/core/public/templates/atomic.h
+++ b/src/korin/core/public/templates/atomic.h
@@ -265,7 +265,7 @@ struct Atomic final : public ChooseAtomicTypeT<AtomicT>
 	 */
 	FORCE_INLINE AtomicT operator=(const AtomicT & inValue)
 	{
-		return (this->store(inValue), this->value);
+		return (this->store(inValue), inValue);
 	}
 
 private:
diff --git a/src/korin/core/public/unix/unix_platform_atomics.h b/src/korin/core/public/unix/unix_platform_atomics.h
index f49b00f..aebbcef 100644
--- a/src/korin/core/public/unix/unix_platform_atomics.h
+++ b/src/korin/core/public/unix/unix_platform_atomics.h
@@ -27,6 +27,16 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_add(value, amount);
 	}
 
+	/**
+	 * Specialized for pointers: the builtin is not
+	 * aware of the pointed type, scale the amount.
+	 */
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * add(T * volatile * value, IntT amount)
+	{
+		return __sync_fetch_and_add(value, static_cast<intp>(amount) * static_cast<intp>(sizeof(T)));
+	}
+
 	/**
 	 * 
 	 */
@@ -36,6 +46,16 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_sub(value, amount);
 	}
 
+	/**
+	 * Specialized for pointers: the builtin is not
+	 * aware of the pointed type, scale the amount.
+	 */
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * sub(T * volatile * value, IntT amount)
+	{
+		return __sync_fetch_and_sub(value, static_cast<intp>(amount) * static_cast<intp>(sizeof(T)));
+	}
+
 	/**
 	 * 
 	 */
-- 
2.43.0


From b6ce63ad3f7db76a1cb16d12b76c7aba2badb320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 36/74] fix: resize blocks of pool allocators

MallocPool::realloc released a block that was too small and then returned
it, MallocPooled::realloc returned a block that was too small. Both
returned null for a null block instead of allocating one.
---
 src/korin/core/private/hal/malloc_pool.cpp | 30 ++++++++++++----------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 32e0f86..bdafd03 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -99,21 +99,15 @@ void * MallocPool::realloc(void * orig, sizet size, sizet alignment)
 	CHECKF(size <= pool.blockSize, "requested size exceed pool block max size, backup allocator will be used (pool block size is 0x%llx, requested size is 0x%llx)", pool.blockSize, size)
 	CHECKF(alignment <= pool.blockAlignment, "requested alignment exceeds pool block alignment, backup allocator will be used (pool block alignment is 0x%llx, requested alignment is 0x%llx)", pool.blockAlignment, alignment)
 
-	void * out = orig;
+	// Nothing to resize, or to resize to
+	if (!orig) return alloc(size, alignment);
+	if (!size) return free(orig), nullptr;
 
-	if (LIKELY(pool.hasBlock(orig)))
-	{
-		if (size > pool.blockSize)
-		{
-			pool.releaseBlock(orig);
-		}
-		else
-			; // Return original block
-	}
-	else
-		; // TODO: use backup allocator
+	// Return original block, if it can hold the requested size
+	if (LIKELY(pool.hasBlock(orig) && size <= pool.blockSize && alignment <= pool.blockAlignment)) return orig;
 
-	return out;
+	// TODO: use backup allocator
+	return nullptr;
 }
 
 void MallocPool::free(void * orig)
@@ -230,7 +224,15 @@ void * MallocPooled::realloc(void * orig, sizet size, sizet alignment)
 	CHECKF(size <= poolInfo.blockSize, "requested size exceed pool block max size, backup allocator will be used (pool block size is 0x%llx, requested size is 0x%llx)", poolInfo.blockSize, size)
 	CHECKF(alignment <= poolInfo.blockAlignment, "requested alignment exceeds pool block alignment, backup allocator will be used (pool block alignment is 0x%llx, requested alignment is 0x%llx)", poolInfo.blockAlignment, alignment)
 
-	return orig;
+	// Nothing to resize, or to resize to
+	if (!orig) return alloc(size, alignment);
+	if (!size) return free(orig), nullptr;
+
+	// Return original block, if it can hold the requested size
+	if (LIKELY(size <= poolInfo.blockSize && alignment <= poolInfo.blockAlignment)) return orig;
+
+	// TODO: use backup allocator
+	return nullptr;
 }
 
 void MallocPooled::free(void * orig)
-- 
2.43.0


From 6fb641863dee3fc6486950c0ed0f3b0df342aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 37/74] fix: MallocPooled with blocks aligned to less than a
 pointer

The size of a pool was computed with the requested alignment while the
pool itself uses at least MIN_ALIGNMENT: its last blocks overlapped the
pool structure, and growing failed because posix_memalign rejects such
an alignment.
---
 src/korin/core/private/hal/malloc_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index bdafd03..22719bc 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -129,8 +129,8 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 	, poolInfo{
 		inNumBlocks,
 		inBlockSize,
-		inBlockAlignment,
-		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, inBlockAlignment)
+		PlatformMath::max<sizet>(inBlockAlignment, MIN_ALIGNMENT),
+		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, PlatformMath::max<sizet>(inBlockAlignment, MIN_ALIGNMENT))
 	}
 	, poolAllocSize{0}
 {
-- 
2.43.0


From 1694a05a863168fb0d59200c59a15402a9af9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 38/74] fix: MallocPooled reuses released blocks before it
 grows

A pool that had been exhausted was never moved back to the front of the
list when one of its blocks was released, so that alternating
allocations and releases created new pools without bound.
---
 src/korin/core/private/hal/malloc_pool.cpp | 10 +++++++++-
 src/korin/core/public/hal/malloc_pool.h    | 22 ++++++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 22719bc..8438497 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -253,5 +253,13 @@ void MallocPooled::free(void * orig)
 	}
 
 	// Release block, return to pool
-	if (it) it->data->releaseBlock(orig);
+	if (it)
+	{
+		MemoryPool * pool = it->data;
+		const bool bWasExhausted = pool->isExhausted();
+		pool->releaseBlock(orig);
+
+		// Pool has free blocks again
+		if (bWasExhausted) moveToFront(pool);
+	}
 }
\ No newline at end of file
diff --git a/src/korin/core/public/hal/malloc_pool.h b/src/korin/core/public/hal/malloc_pool.h
index 3a9c1a6..741ea83 100644
--- a/src/korin/core/public/hal/malloc_pool.h
+++ b/src/korin/core/public/hal/malloc_pool.h
@@ -334,6 +334,28 @@ protected:
 		return pool;
 	}
 
+	/**
+	 * Move pool to the front of the list
+	 * 
+	 * @param [in] pool pointer to the pool structure
+	 */
+	FORCE_INLINE void moveToFront(MemoryPool * pool)
+	{
+		Link * link = reinterpret_cast<Link*>(reinterpret_cast<Node*>(pool + 1) + 1);
+		if (link == head) return;
+
+		// Unlink
+		link->prev->next = link->next;
+		link->next->prev = link->prev;
+
+		// Relink in front of head
+		link->next = head;
+		link->prev = head->prev;
+		link->next->prev = link;
+		link->prev->next = link;
+		head = link;
+	}
+
 	/**
 	 * Destroy pool
 	 * 
-- 
2.43.0


From 33653630b69e680fb391e8de3407ad2e52767ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 39/74] fix: MallocPooled without initial pools

allocating and destroying dereferenced null
---
 src/korin/core/private/hal/malloc_pool.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 8438497..59dc91e 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -148,12 +148,12 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 			createPool(buffer);
 	}
 
-	CHECK(head != nullptr && root != nullptr)
+	CHECK(initialNumPools == 0 || (head != nullptr && root != nullptr))
 }
 
 MallocPooled::~MallocPooled()
 {
-	Node * next = root->getMin(), * prev = nullptr;
+	Node * next = root ? root->getMin() : nullptr, * prev = nullptr;
 	while (next)
 	{
 		prev = next;
@@ -194,16 +194,19 @@ void * MallocPooled::alloc(sizet size, sizet alignment)
 
 	if (size <= poolInfo.blockSize && alignment <= poolInfo.blockAlignment)
 	{
-		MemoryPool * pool = head->data;
+		MemoryPool * pool = head ? head->data : nullptr;
 
 		// Create a new pool if necessary
-		if (pool->isExhausted())
+		if (!pool || pool->isExhausted())
 		{
 			void * buffer = nullptr;
 			if (posix_memalign(&buffer, poolInfo.blockAlignment, poolAllocSize) == 0)
 				pool = createPool(buffer);
 		}
 
+		// Out of memory
+		if (UNLIKELY(!pool)) return nullptr;
+
 		// Acquire block from pool
 		out = pool->acquireBlock();
 
-- 
2.43.0


From 87cfd30567e1bf683933b6c251b6bc0372612de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 40/74] fix: MemoryPool without blocks is exhausted

instead of writing through a null link
---
 src/korin/core/private/hal/malloc_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 59dc91e..0e967eb 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -42,8 +42,8 @@ MemoryPool::MemoryPool(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlign
 	}
 	
 	// Reset head and last link
-	head = buffer;
-	*link = nullptr;
+	head = link ? buffer : nullptr;
+	if (link) *link = nullptr;
 }
 
 void * MemoryPool::acquireBlock()
-- 
2.43.0


From b2c8749d2dba851f9f0f14c42dd286c72c20dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 41/74] fix: implement MallocBinned::realloc

it returned null and lost the block, which made containers with such an
allocator lose their elements
---
 src/korin/core/private/hal/malloc_binned.cpp | 27 +++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 9c1964c..e48fdac 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -43,7 +43,32 @@ void * MallocBinned::alloc(sizet size, sizet alignment)
 
 void * MallocBinned::realloc(void * orig, sizet size, sizet alignment)
 {
-	// TODO
+	// Nothing to resize, or to resize to
+	if (!orig) return alloc(size, alignment);
+	if (!size) return free(orig), nullptr;
+
+	for (uint32 i = 0; i < numBuckets; ++i)
+	{
+		MallocPooled * bucket = buckets[i];
+		if (bucket->hasBlock(orig))
+		{
+			const sizet blockSize = bucket->poolInfo.blockSize;
+
+			// Return original block, if it can hold the requested size
+			if (size <= blockSize && alignment <= bucket->poolInfo.blockAlignment) return orig;
+
+			// Move to a larger block
+			void * out = alloc(size, alignment);
+			if (out)
+			{
+				Memory::memcpy(out, orig, PlatformMath::min(size, blockSize));
+				bucket->free(orig);
+			}
+
+			return out;
+		}
+	}
+
 	return nullptr;
 }
 
-- 
2.43.0


From 5d17395feb5b5f613ee993e1366c0915727546b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 42/74] fix: MallocBinned selects the bucket relative to the
 smallest one

With a minimum size other than the increment a bucket whose blocks are
too small was selected, or none.
---
 src/korin/core/public/hal/malloc_binned.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index bef2ccd..658ad62 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -63,8 +63,11 @@ protected:
 	{
 		CHECK(size != 0);
 
+		// First bucket
+		if (size <= bucketInfo.allocUnitMinSize) return 0;
+
 		// Get power of two index
-		return PlatformMath::log2(size - 1) / PlatformMath::log2(bucketInfo.allocUnitIncrement);
+		return 1 + (PlatformMath::log2(size - 1) - PlatformMath::log2(bucketInfo.allocUnitMinSize)) / PlatformMath::log2(bucketInfo.allocUnitIncrement);
 	}
 
 public:
-- 
2.43.0


From d4d3676fea140a23e1f9750c5a38d775407a0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 43/74] fix: MallocBinned destroys its buckets

---
 src/korin/core/private/hal/malloc_binned.cpp | 5 +++++
 src/korin/core/public/hal/malloc_binned.h    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index e48fdac..966e008 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -23,6 +23,11 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 	}
 }
 
+MallocBinned::~MallocBinned()
+{
+	for (uint32 i = 0; i < numBuckets; ++i) delete buckets[i];
+}
+
 void * MallocBinned::alloc(sizet size, sizet alignment)
 {
 	// Find bucket
diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index 658ad62..299ac8a 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -50,6 +50,11 @@ public:
 	 */
 	MallocBinned(const BucketInfo & inInfo = {1ull << 16ull/* 1 MB */, 1ull << 3ull, 1ull << 18ull, 1ull << 3ull}, sizet inPoolAlign = DEFAULT_ALIGNMENT);
 
+	/**
+	 * Destructor, destroys buckets
+	 */
+	virtual ~MallocBinned();
+
 protected:
 	/**
 	 * Compute bucket index from requested
-- 
2.43.0


From 296d80496ff7cfa5cbab73a7708cdb0917d6c1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:48 +0000
Subject: [PATCH 44/74] fix: executor visits a state at most once per input
 position

---
 src/korin/core/public/regex/executor.h | 28 +++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 447e0ae..5329636 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "containers/set.h"
 #include "containers/tuple.h"
 #include "./regex_types.h"
 
@@ -29,6 +30,19 @@ namespace Re
 		using AlphaStringT = typename StateT::AlphaStringT;
 		using VisitT = Tuple<const StateT* /* currentState */, AlphaStringT /* input */, int32 /* totRead */>;
 
+		/**
+		 * Compare type used to find visits
+		 * inside set.
+		 */
+		struct FindVisit
+		{
+			FORCE_INLINE int32 operator()(const VisitT & a, const VisitT & b) const
+			{
+				const int32 cmp = FindStateT{}(a.template get<0>(), b.template get<0>());
+				return cmp ? cmp : ThreeWayCompare{}(a.template get<2>(), b.template get<2>());
+			}
+		};
+
 	public:
 		Executor() = delete;
 
@@ -50,6 +64,7 @@ namespace Re
 			, acceptedState{inAcceptedState}
 			, input{inInput}
 			, visitQueue{}
+			, visitSet{}
 			, currVisit{inStartState, inInput, inNumRead}
 		{
 			//
@@ -129,6 +144,7 @@ namespace Re
 		{
 			// Empty visit queue
 			visitQueue.empty();
+			visitSet.getTree().empty();
 
 			// Reset current visit with
 			// start state and input
@@ -169,6 +185,11 @@ namespace Re
 		/// Queue of states to visit
 		List<VisitT> visitQueue;
 
+		/// Visits already queued, the outcome
+		/// of a visit depends only on its state
+		/// and on the number of symbols read
+		Set<VisitT, FindVisit> visitSet;
+
 		/// Current visited state and input
 		VisitT currVisit;
 	};
@@ -189,7 +210,12 @@ namespace Re
 		{
 			for (const StateT * nextState : currState->getNextStates())
 			{
-				visitQueue.pushBack(VisitT{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead});
+				const VisitT nextVisit{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead};
+				if (!visitSet.get(nextVisit))
+				{
+					visitSet.set(nextVisit);
+					visitQueue.pushBack(nextVisit);
+				}
 			}
 		}
 
-- 
2.43.0


From 775c28d91ba094e71e0984dc32ea8a020dfa46ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 45/74] fix: resetting an executor with another input starts
 from that input

---
 src/korin/core/public/regex/executor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 5329636..6fe95b2 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -153,10 +153,10 @@ namespace Re
 
 		FORCE_INLINE void reset(const AlphaStringT & inInput)
 		{
-			reset();
-
 			// Change input string
 			input = inInput;
+
+			reset();
 		}
 		/** @} */
 
-- 
2.43.0


From 86c7f1d597ebf92cbfdd9d349bc7758e63d9ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 46/74] fix: lookahead states do not require the rest of the
 input to match

---
 src/korin/core/public/regex/executor.h | 12 ++++++++++--
 src/korin/core/public/regex/state.h    |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 6fe95b2..7df319a 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -58,11 +58,15 @@ namespace Re
 		 * @param inNumRead number of symbols
 		 * 	already consumed (required by
 		 * 	certain states to work correctly)
+		 * @param inMatchAll if true the entire
+		 * 	input must be consumed to be accepted,
+		 * 	otherwise any prefix is accepted
 		 */
-		FORCE_INLINE Executor(const StateT * inStartState, const StateT * inAcceptedState, const AlphaStringT & inInput, int32 inNumRead = 0)
+		FORCE_INLINE Executor(const StateT * inStartState, const StateT * inAcceptedState, const AlphaStringT & inInput, int32 inNumRead = 0, bool inMatchAll = true)
 			: startState{inStartState}
 			, acceptedState{inAcceptedState}
 			, input{inInput}
+			, bMatchAll{inMatchAll}
 			, visitQueue{}
 			, visitSet{}
 			, currVisit{inStartState, inInput, inNumRead}
@@ -182,6 +186,10 @@ namespace Re
 		/// Original input
 		AlphaStringT input;
 
+		/// Whether the entire input must be
+		/// consumed to be accepted
+		bool bMatchAll;
+
 		/// Queue of states to visit
 		List<VisitT> visitQueue;
 
@@ -227,7 +235,7 @@ namespace Re
 			return true;
 		}
 		
-		if (outIsAccepted = AlphabetTraitsT::isEOF(currVisit.template get<1>()) && isAcceptedState())
+		if (outIsAccepted = (!bMatchAll || AlphabetTraitsT::isEOF(currVisit.template get<1>())) && isAcceptedState())
 		{
 			// If string is terminated and state
 			// is accepted state, set accepted flag
diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index e0d31ef..4c042a9 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -634,7 +634,8 @@ namespace Re
 	template<typename AlphaT>
 	bool StateMacro<AlphaT>::enterState(const AlphaStringT & input, int32 & outNumRead, int32 numRead) const
 	{
-		return execute(ExecutorT{startState, acceptedState, input, numRead}, outNumRead);
+		// The nested automaton may accept any prefix of the input
+		return execute(ExecutorT{startState, acceptedState, input, numRead, false}, outNumRead);
 	}
 
 	template<typename AlphaT>
-- 
2.43.0


From 8b568a607ba91e081b58ccaece5c3744ceeef4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 47/74] fix: states never consume the terminator of the input

---
 src/korin/core/private/regex/regex.cpp | 6 +++---
 src/korin/core/public/regex/state.h    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 9ed8bc1..f8da01a 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -107,7 +107,7 @@ namespace Re
 				// Matches any single non-digit character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isDigit(*input);
+					return outNumRead = *input != '\0' && !isDigit(*input);
 				}, "NonDigit");
 				break;
 			}
@@ -127,7 +127,7 @@ namespace Re
 				// Matches any single non-whitespace character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isWhiteSpace(*input);
+					return outNumRead = *input != '\0' && !isWhiteSpace(*input);
 				}, "NonWhiteSpace");
 				break;
 			}
@@ -147,7 +147,7 @@ namespace Re
 				// Matches any single non-word character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isWord(*input);
+					return outNumRead = *input != '\0' && !isWord(*input);
 				}, "NonWord");
 				break;
 			}
diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 4c042a9..2368bbd 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -430,7 +430,7 @@ namespace Re
 	template<typename AlphaT>
 	FORCE_INLINE bool StateSymbol<AlphaT>::enterState(const AlphaStringT & input, int32 & outNumRead, int32 /* numRead */) const
 	{
-		return outNumRead = (*input == symbol);
+		return outNumRead = (*input != AlphabetTraitsT::terminalSymbol && *input == symbol);
 	}
 
 	template<typename AlphaT>
@@ -485,7 +485,7 @@ namespace Re
 	template<typename AlphaT>
 	FORCE_INLINE bool StateRange<AlphaT>::enterState(const AlphaStringT & input, int32 & outNumRead, int32 /* numRead */) const
 	{
-		return outNumRead = (*input >= min && *input <= max);
+		return outNumRead = (*input != AlphabetTraitsT::terminalSymbol && *input >= min && *input <= max);
 	}
 
 	template<typename AlphaT>
-- 
2.43.0


From f57c9477340e9131a1bcfe9925138066cd850431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 48/74] fix: virtual destructor of automaton states

---
 src/korin/core/public/regex/state.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 2368bbd..2126b4a 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -75,6 +75,12 @@ namespace Re
 			//
 		}
 
+		/**
+		 * Virtual destructor, states are
+		 * destroyed through their base class.
+		 */
+		virtual ~StateBase() = default;
+
 		/**
 		 * Returns the immutable set of
 		 * next states (i.e. a set of states
@@ -563,7 +569,6 @@ namespace Re
 		LambdaT lambda;
 
 		/// Optional lambda name
-		// FIXME: Investigate possible memory leak
 		String name;
 	};
 
-- 
2.43.0


From 33e063b26ddad90f5a3febd75d6dba9d884e02c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 49/74] fix: escaped symbols at the end of ranges and bracket
 expressions

---
 src/korin/core/private/regex/regex.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index f8da01a..9833329 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -217,9 +217,13 @@ namespace Re
 					// Get index of open and close brackets
 					sizet openBracketIdx = idx;
 					sizet closeBracketIdx = idx;
-					for (; (pattern[closeBracketIdx] != ']' || pattern[closeBracketIdx - 1] == '\\') && closeBracketIdx < patternLen ; ++closeBracketIdx);
+					for (; closeBracketIdx < patternLen && pattern[closeBracketIdx] != ']'; ++closeBracketIdx)
+					{
+						// Skip escaped symbol
+						if (pattern[closeBracketIdx] == '\\') ++closeBracketIdx;
+					}
 					
-					if (closeBracketIdx == patternLen)
+					if (closeBracketIdx >= patternLen)
 					{
 						// If no close bracket found, interpret
 						// this as square bracket symbol, and
@@ -275,10 +279,11 @@ namespace Re
 						}
 						else if (pattern[idx + 1] == '-' && pattern[idx + 2] != ']')
 						{
-							// Range specifier
-							CHECKF(pattern[idx] < pattern[idx + 2], "Character range out of order");
-							builder.pushState<RangeT>(pattern[idx], pattern[idx + 2]);
-							idx += 3;
+							// Range specifier, the upper bound may be escaped
+							const sizet upperIdx = pattern[idx + 2] == '\\' ? idx + 3 : idx + 2;
+							CHECKF(pattern[idx] <= pattern[upperIdx], "Character range out of order");
+							builder.pushState<RangeT>(pattern[idx], pattern[upperIdx]);
+							idx = upperIdx + 1;
 						}
 						else
 						{
-- 
2.43.0


From bf56ce363c42e8986681e9253571f9bd88ee0612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 50/74] fix: quantifiers accept the repetitions of the state or
 group they follow

---
 src/korin/core/private/regex/regex.cpp  |   8 +-
 src/korin/core/public/regex/automaton.h | 177 ++++++++++++++----------
 src/korin/core/public/regex/state.h     |  17 +++
 3 files changed, 127 insertions(+), 75 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 9833329..5fd6a5c 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -344,7 +344,7 @@ namespace Re
 					if (idx == closeBracketPos)
 					{
 						// Exact repetition
-						builder.pushRepeat(min, min);
+						if (min > 0) builder.pushRepeat(min, min); else builder.pushEmpty();
 						break;
 					}
 
@@ -380,9 +380,7 @@ namespace Re
 					}
 
 					// At least min, at most max repetitions
-					builder.pushRepeat(min, max);
-					break;
-					
+					if (max > 0) builder.pushRepeat(min, max); else builder.pushEmpty();
 					break;
 				}
 
@@ -408,8 +406,8 @@ namespace Re
 				{
 					// Essentially a combination of
 					// jump and skip
-					builder.pushSkip();
 					builder.pushJump();
+					builder.pushSkip();
 					break;
 				}
 
diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 3966be5..a8199e1 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -306,60 +306,69 @@ namespace Re
 		using State = typename AutomatonT::State;
 		
 		/**
-		 * Clones current group and pushes
-		 * it onto the current state.
+		 * Clones a group. A group is only
+		 * connected to the rest of the
+		 * automaton by its start and end
+		 * states, and must not have been
+		 * connected to any following state.
+		 * 
+		 * @param startState,endState first
+		 * 	and last state of the group,
+		 * 	assigned the first and last state
+		 * 	of the clone
 		 */
-		void cloneCurrentGroup()
+		void cloneGroup(StateT *& startState, StateT *& endState)
 		{
-			using Visit = Tuple<StateT*, StateT*>;
-
-			// Get start and end states and
-			// create duplicates
-			StateT * startState = groupStart[currentGroup];
-			StateT * endState = groupEnd[currentGroup];
+			// Keep track of to visit states
+			// and clones of visited states
+			List<StateT*> visitQueue;
+			Map<StateT*, StateT*, typename StateT::FindState> clones;
 
-			// Keep track of to visit state
-			// and already visited states
-			List<Visit> visitQueue;
-			Visit currVisit{startState, currentState};
-			Map<StateT*, StateT*, typename StateT::FindState> visitedStates;
+			StateT * currState = startState;
+			clones.insert(currState, currState->cloneState(automaton));
 
 			do
 			{
-				// Get current state and previous state
-				StateT * currState = currVisit.template get<0>();
-				StateT * prevState = currVisit.template get<1>();
+				StateT * currClone = nullptr;
+				clones.find(currState, currClone);
 
-				if (!visitedStates.find(currState, currentState))
+				for (StateT * nextState : currState->getNextStates())
 				{
-					// State not already seen.
-					// Duplicate state
-					currentState = currState->cloneState(automaton);
-					
-					// Add to next states
-					prevState->addNextState(currentState);
-
-					if (currState != endState)
+					StateT * nextClone = nullptr;
+					if (!clones.find(nextState, nextClone))
 					{
-						// If current visit state is not
-						// end state, add out connections
-
-						for (StateT * nextState : currState->getNextStates())
-						{
-							visitQueue.pushBack(Visit{nextState, currentState});
-						}
+						// State not already seen.
+						// Duplicate state
+						nextClone = nextState->cloneState(automaton);
+						clones.insert(nextState, nextClone);
+						visitQueue.pushBack(nextState);
 					}
 
-					// Add to visited states
-					visitedStates.insert(currState, currentState);
-				}
-				else
-				{
-					// State already visited, just
-					// add connection to prev state
-					prevState->addNextState(currentState);
+					currClone->addNextState(nextClone);
 				}
-			} while (visitQueue.popBack(currVisit));
+			} while (visitQueue.popBack(currState));
+
+			clones.find(startState, startState);
+			clones.find(endState, endState);
+		}
+
+		/**
+		 * Inserts an epsilon state after the
+		 * start state of a group. Jumping to
+		 * it, instead of the start state, the
+		 * start state is never entered from
+		 * inside the group.
+		 * 
+		 * @param startState start state of
+		 * 	the group
+		 * @return ptr to epsilon state
+		 */
+		FORCE_INLINE StateT * createJumpTarget(StateT * startState)
+		{
+			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
+
+			startState->moveNextStates(epsilon);
+			return startState->addNextState(epsilon);
 		}
 
 	public:
@@ -579,6 +588,9 @@ namespace Re
 			// Create shortcut
 			groupStart[currentGroup]->addNextState(epsilon);
 
+			// The group now ends after the shortcut
+			groupEnd[currentGroup] = epsilon;
+
 			return *this;
 		}
 
@@ -603,7 +615,11 @@ namespace Re
 		{
 			// Jump from end of current group
 			// to the beginning of the group
-			groupEnd[currentGroup]->addNextState(groupStart[currentGroup]);
+			currentState->addNextState(createJumpTarget(groupStart[currentGroup]));
+
+			// Leave the group from a state
+			// without other connections
+			groupEnd[currentGroup] = currentState = currentState->addNextState(automaton.template pushState<typename State::EpsilonT>());
 
 			return *this;
 		}
@@ -634,39 +650,42 @@ namespace Re
 			// Create epsilon state as future group end
 			// and also to skip groups
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
-			StateT * prevState;
 
-			for (int32 repeatIdx = 1; repeatIdx < minRepeats; ++repeatIdx)
-			{
-				// Process min repetitions first.
-				// Insert an epsilon state between
-				// clones so that we can create a
-				// jump circuit if necessary
-				// (otherwise we have problems
-				// with symbol states vs. proper
-				// groups)
-				prevState = currentState = currentState->addNextState(automaton.template pushState<typename State::EpsilonT>());
-				
-				// Create a clone of the group
-				cloneCurrentGroup();
-			}
+			CHECK(maxRepeats == 0 || minRepeats <= maxRepeats);
 
-			if (maxRepeats == 0)
-			{
-				// Create jump circuit
-				currentState->addNextState(prevState);
-			}
-			else
+			// At least one repetition already exists
+			const int32 numRepeats = PlatformMath::max(PlatformMath::max(minRepeats, maxRepeats), 1);
+
+			StateT * repeatStart = groupStart[currentGroup];
+			StateT * repeatEnd = currentState;
+
+			for (int32 repeatIdx = 1; repeatIdx <= numRepeats; ++repeatIdx)
 			{
-				CHECK(minRepeats <= maxRepeats);
+				// Create a clone of the group, before
+				// it's connected to other states
+				StateT * cloneStart = repeatStart;
+				StateT * cloneEnd = repeatEnd;
+				if (repeatIdx < numRepeats) cloneGroup(cloneStart, cloneEnd);
+
+				if (maxRepeats == 0 && repeatIdx == numRepeats)
+				{
+					// Create jump circuit
+					repeatEnd->addNextState(createJumpTarget(repeatStart));
+				}
 
-				for (int32 repeatIdx = minRepeats; repeatIdx < maxRepeats; ++repeatIdx)
+				if (repeatIdx > minRepeats)
 				{
-					// Groups here can be skipped.
-					currentState->addNextState(epsilon);
+					// Repetitions here can be skipped.
+					repeatStart->addNextState(epsilon);
+				}
+
+				currentState = repeatEnd;
 
-					// Create group clone
-					cloneCurrentGroup();
+				if (repeatIdx < numRepeats)
+				{
+					currentState->addNextState(cloneStart);
+					repeatStart = cloneStart;
+					repeatEnd = cloneEnd;
 				}
 			}
 
@@ -679,6 +698,24 @@ namespace Re
 			return *this;
 		}
 
+		/**
+		 * Replaces the last inserted state
+		 * or group with the empty string
+		 * (equivalent to `{0}` in regex
+		 * syntax).
+		 * 
+		 * @return ref to self
+		 */
+		FORCE_INLINE AutomatonBuilder & pushEmpty()
+		{
+			// Disconnect group from its start state
+			groupStart[currentGroup]->moveNextStates(automaton.template pushState<typename State::EpsilonT>());
+
+			groupEnd[currentGroup] = currentState = groupStart[currentGroup]->addNextState(automaton.template pushState<typename State::EpsilonT>());
+
+			return *this;
+		}
+
 	protected:
 		/// Max number of groups
 		static constexpr sizet maxNumGroups = 127;
diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 2126b4a..f759a82 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -122,6 +122,23 @@ namespace Re
 			return other;
 		}
 
+		/**
+		 * Move all connections to next
+		 * states to another state.
+		 * 
+		 * @param other another state
+		 */
+		FORCE_INLINE void moveNextStates(StateBase * other)
+		{
+			for (StateBase * nextState : nextStates)
+			{
+				nextState->prevStates.remove(this);
+				other->addNextState(nextState);
+			}
+
+			nextStates.getTree().empty();
+		}
+
 		/**
 		 * Merge this state into the next
 		 * state. The state must have
-- 
2.43.0


From ea32fc7eea5a119a477ea2d04b7ff5d0b7ec6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 51/74] fix: groups may be nested to any depth

---
 src/korin/core/public/regex/automaton.h | 56 ++++++++++++++++---------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index a8199e1..eeed119 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "containers/array.h"
 #include "containers/list.h"
 #include "containers/pair.h"
 #include "containers/set.h"
@@ -382,11 +383,12 @@ namespace Re
 		FORCE_INLINE explicit AutomatonBuilder(AutomatonT & inAutomaton)
 			: automaton{inAutomaton}
 			, currentState{inAutomaton.startState}
-			, groupStart{inAutomaton.startState}
-			, groupEnd{inAutomaton.acceptedState}
+			, groupStart{}
+			, groupEnd{}
 			, currentGroup{1}
 		{
-			//
+			setGroup(0, automaton.startState, automaton.acceptedState);
+			setGroup(1, nullptr, nullptr);
 		}
 
 		/**
@@ -414,8 +416,7 @@ namespace Re
 			currentState = state;
 
 			// Create temporary groups
-			groupStart[currentGroup] = epsilon;
-			groupEnd[currentGroup] = state;
+			setGroup(currentGroup, epsilon, state);
 
 			return *this;
 		}
@@ -436,13 +437,9 @@ namespace Re
 			currentState->addNextState(startState);
 			currentState = startState;
 
-			if (currentGroup < maxNumGroups - 1)
-			{
-				groupStart[currentGroup] = startState;
-				groupEnd[currentGroup] = endState;
-				currentGroup += 1;
-			}
-			else ; // TODO: Error
+			setGroup(currentGroup, startState, endState);
+			currentGroup += 1;
+			setGroup(currentGroup, nullptr, nullptr);
 
 			return *this;
 		}
@@ -490,10 +487,9 @@ namespace Re
 			pushState<MacroAnyT>(startState, acceptedState);
 
 			// Create macro frame
-			// TODO: Check max groups
 			currentGroup += 2;
-			groupStart[currentGroup - 1] = startState;
-			groupEnd[currentGroup - 1] = acceptedState;
+			setGroup(currentGroup - 1, startState, acceptedState);
+			setGroup(currentGroup, nullptr, nullptr);
 
 			// Set start state as current state
 			currentState = startState;
@@ -717,8 +713,28 @@ namespace Re
 		}
 
 	protected:
-		/// Max number of groups
-		static constexpr sizet maxNumGroups = 127;
+		/**
+		 * Set the start and end states of a
+		 * group.
+		 * 
+		 * @param groupIdx nesting level of
+		 * 	the group
+		 * @param startState,endState first
+		 * 	and last state of the group,
+		 * 	nullptr if there is no group
+		 */
+		FORCE_INLINE void setGroup(int32 groupIdx, StateT * startState, StateT * endState)
+		{
+			while (groupStart.getCount() <= (uint64)groupIdx)
+			{
+				StateT * noState = nullptr;
+				groupStart.add(noState);
+				groupEnd.add(noState);
+			}
+
+			groupStart[groupIdx] = startState;
+			groupEnd[groupIdx] = endState;
+		}
 
 		/// Ref to building automaton
 		AutomatonT & automaton;
@@ -728,12 +744,12 @@ namespace Re
 
 		/// Groups buffers
 		/// @{
-		StateT * groupStart[maxNumGroups];
-		StateT * groupEnd[maxNumGroups];
+		Array<StateT*> groupStart;
+		Array<StateT*> groupEnd;
 		/// @}
 
 		/// Current active group
-		int8 currentGroup;
+		int32 currentGroup;
 	};
 
 	/**
-- 
2.43.0


From e2beb9c34315183914d0db470ada5af2dcdeac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 52/74] fix: ignore quantifiers without anything to repeat

---
 src/korin/core/public/regex/automaton.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index eeed119..6a2dae2 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -538,6 +538,9 @@ namespace Re
 			currentState->addNextState(groupEnd[currentGroup - 1]);
 			currentState = groupStart[currentGroup - 1];
 
+			// Nothing to repeat in this branch, yet
+			setGroup(currentGroup, nullptr, nullptr);
+
 			return *this;
 		}
 
@@ -574,6 +577,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushSkip()
 		{
+			// Nothing to repeat
+			if (!groupStart[currentGroup]) return *this;
+
 			// We need an epsilon state to
 			// skip the current group
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
@@ -609,6 +615,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushJump()
 		{
+			// Nothing to repeat
+			if (!groupStart[currentGroup]) return *this;
+
 			// Jump from end of current group
 			// to the beginning of the group
 			currentState->addNextState(createJumpTarget(groupStart[currentGroup]));
@@ -643,6 +652,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushRepeat(int32 minRepeats = 1, int32 maxRepeats = 1)
 		{
+			// Nothing to repeat
+			if (!groupStart[currentGroup]) return *this;
+
 			// Create epsilon state as future group end
 			// and also to skip groups
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
@@ -704,6 +716,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushEmpty()
 		{
+			// Nothing to repeat
+			if (!groupStart[currentGroup]) return *this;
+
 			// Disconnect group from its start state
 			groupStart[currentGroup]->moveNextStates(automaton.template pushState<typename State::EpsilonT>());
 
-- 
2.43.0


From a9250248bff1752825bd52e2f115d9d3ff70fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 53/74] fix: unmatched parentheses and trailing escapes in
 patterns

---
 src/korin/core/private/regex/regex.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 5fd6a5c..26c02bc 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -174,6 +174,9 @@ namespace Re
 		// Create new builder
 		BuilderT builder = automaton.createBuilder();
 
+		// Number of groups not closed yet
+		sizet numOpenGroups = 0;
+
 		for (sizet idx = 0; idx < patternLen; ++idx)
 		{
 			switch (pattern[idx])
@@ -200,12 +203,16 @@ namespace Re
 				case '(':
 				{
 					builder.beginGroup();
+					++numOpenGroups;
 					break;
 				}
 
 				case ')':
 				{
-					builder.endGroup();
+					// If no group is open, interpret
+					// this as parenthesis symbol
+					if (numOpenGroups > 0) builder.endGroup(), --numOpenGroups;
+					else builder.pushState<SymbolT>(')');
 					break;
 				}
 
@@ -442,7 +449,9 @@ namespace Re
 
 				case '\\':
 				{
-					idx += parseEscapeSequence(builder, pattern + idx);
+					// Nothing to escape at the end of the pattern
+					if (idx + 1 == patternLen) builder.pushState<SymbolT>('\\');
+					else idx += parseEscapeSequence(builder, pattern + idx);
 					break;
 				}
 				
@@ -454,6 +463,9 @@ namespace Re
 			}
 		}
 
+		// End groups left open
+		for (; numOpenGroups > 0; --numOpenGroups) builder.endGroup();
+
 		// End main group
 		builder.endGroup();
 
-- 
2.43.0


From ee11e2ef3c03c3947b5248667d2c4d85a4748c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 54/74] fix: sense of scalar - vector and scalar / vector

---
 src/korin/core/public/math/vec2.h | 4 ++--
 src/korin/core/public/math/vec3.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 2047bc6..92502a2 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -252,7 +252,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator-(T s, Vec2 v)
 	{
-		return v -= s;
+		return Vec2{s} - v;
 	}
 
 	friend FORCE_INLINE Vec2 operator*(T s, Vec2 v)
@@ -262,7 +262,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator/(T s, Vec2 v)
 	{
-		return v /= s;
+		return Vec2{s} / v;
 	}
 	/// @}
 
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index 7331ced..11afc3a 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -270,7 +270,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator-(T s, const Vec3 & v)
 	{
-		return v - s;
+		return Vec3{s} - v;
 	}
 
 	friend FORCE_INLINE Vec3 operator*(T s, const Vec3 & v)
@@ -280,7 +280,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator/(T s, const Vec3 & v)
 	{
-		return v / s;
+		return Vec3{s} / v;
 	}
 	/// @}
 
-- 
2.43.0


From 6826d8d664240c7c9280dec60fd5ad7e813702d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 55/74] fix: operations with a scalar on the left of a Vec4
 compile

---
 src/korin/core/public/math/vec4.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 26cbc68..ca176df 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -262,22 +262,22 @@ struct Vec4
 
 	friend FORCE_INLINE Vec4 operator+(T s, const Vec4 & v)
 	{
-		return v += s;
+		return Vec4{s} + v;
 	}
 
 	friend FORCE_INLINE Vec4 operator-(T s, const Vec4 & v)
 	{
-		return v -= s;
+		return Vec4{s} - v;
 	}
 
 	friend FORCE_INLINE Vec4 operator*(T s, const Vec4 & v)
 	{
-		return v *= s;
+		return Vec4{s} * v;
 	}
 
 	friend FORCE_INLINE Vec4 operator/(T s, const Vec4 & v)
 	{
-		return v /= s;
+		return Vec4{s} / v;
 	}
 	/// @}
 
-- 
2.43.0


From 3265d5d4822a97cdf998581daf1e72252399f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 56/74] fix: cross product of integer Vec2

---
 src/korin/core/public/math/vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 92502a2..05b057e 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -285,7 +285,7 @@ struct alignas(2 * sizeof(T)) Vec2
 	 */
 	FORCE_INLINE Vec3<T> operator^(Vec2 other) const
 	{
-		return Vec3<T>{0.f, 0.f, x * other.y - y * other.x};
+		return Vec3<T>{T(0), T(0), x * other.y - y * other.x};
 	}
 
 	/**
-- 
2.43.0


From 4fe986bda481db35f871f2d188486c665e6eb56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 57/74] fix: order of components loaded into a SIMD vector

---
 src/korin/core/public/math/simd_float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/simd_float.h b/src/korin/core/public/math/simd_float.h
index 2d2380c..248d784 100644
--- a/src/korin/core/public/math/simd_float.h
+++ b/src/korin/core/public/math/simd_float.h
@@ -31,7 +31,7 @@ struct Vector4<float32>
 
 	static FORCE_INLINE Type load(T a, T b, T c, T d)
 	{
-		return _mm_set_ps(a, b, c, d);
+		return _mm_setr_ps(a, b, c, d);
 	}
 
 	static FORCE_INLINE Type load(T s)
-- 
2.43.0


From b66144059b0c10feb5c11e0185f341fe13948aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 58/74] fix: length of double-precision vectors

---
 src/korin/core/public/math/vec2.h |  6 ++++++
 src/korin/core/public/math/vec3.h | 12 ++++++++++++
 src/korin/core/public/math/vec4.h |  6 ++++++
 3 files changed, 24 insertions(+)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 05b057e..0cd4d3e 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -380,6 +380,12 @@ struct alignas(2 * sizeof(T)) Vec2
 // Floating-point specialization
 //////////////////////////////////////////////////
 
+template<>
+FORCE_INLINE float64 Vec2<float64>::getSize() const
+{
+	return ::sqrt(getSquaredSize());
+}
+
 template<>
 FORCE_INLINE float32 Vec2<float32>::getSize() const
 {
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index 11afc3a..945f87a 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -411,12 +411,24 @@ struct Vec3
 // Floating-point specialization
 //////////////////////////////////////////////////
 
+template<>
+FORCE_INLINE float64 Vec3<float64>::getSize() const
+{
+	return ::sqrt(getSquaredSize());
+}
+
 template<>
 FORCE_INLINE float32 Vec3<float32>::getSize() const
 {
 	return PlatformMath::sqrt(getSquaredSize());
 }
 
+template<>
+FORCE_INLINE bool Vec3<float64>::isNearlyZero() const
+{
+	return getSquaredSize() < 4 * DBL_EPSILON;
+}
+
 template<>
 FORCE_INLINE bool Vec3<float32>::isNearlyZero() const
 {
diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index ca176df..4cece60 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -394,6 +394,12 @@ struct Vec4
 // Floating-point specialization
 //////////////////////////////////////////////////
 
+template<>
+FORCE_INLINE float64 Vec4<float64>::getSize() const
+{
+	return ::sqrt(getSquaredSize());
+}
+
 template<>
 FORCE_INLINE float32 Vec4<float32>::getSize() const
 {
-- 
2.43.0


From 2215ad8472af2040c335990f04e6f2187779ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 59/74] fix: define the constants of Vec2 and Vec4

---
 src/korin/core/private/math/math.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/math/math.cpp b/src/korin/core/private/math/math.cpp
index 4e35840..36cf851 100644
--- a/src/korin/core/private/math/math.cpp
+++ b/src/korin/core/private/math/math.cpp
@@ -1,5 +1,12 @@
 #include "math/math.h"
 
+//////////////////////////////////////////////////
+// Vec2
+//////////////////////////////////////////////////
+
+template<> const Vec2<float32> Vec2<float32>::zero = {0.f};
+template<> const Vec2<float32> Vec2<float32>::unit = {1.f};
+
 //////////////////////////////////////////////////
 // Vec3
 //////////////////////////////////////////////////
@@ -11,4 +18,11 @@ template<> const Vec3<float32> Vec3<float32>::left = {-1.f, 0.f, 0.f};
 template<> const Vec3<float32> Vec3<float32>::up = {0.f, 1.f, 0.f};
 template<> const Vec3<float32> Vec3<float32>::down = {0.f, -1.f, 0.f};
 template<> const Vec3<float32> Vec3<float32>::forward = {0.f, 0.f, 1.f};
-template<> const Vec3<float32> Vec3<float32>::backward = {0.f, 0.f, -1.f};
\ No newline at end of file
+template<> const Vec3<float32> Vec3<float32>::backward = {0.f, 0.f, -1.f};
+
+//////////////////////////////////////////////////
+// Vec4
+//////////////////////////////////////////////////
+
+template<> const Vec4<float32> Vec4<float32>::zero = {0.f};
+template<> const Vec4<float32> Vec4<float32>::unit = {1.f};
-- 
2.43.0


From 75c8dd65507b5c5dc9b18d1dd4947ae17eb3824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 60/74] fix: z component of the axis of a quaternion

---
 src/korin/core/public/math/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 72aa05c..d48acc5 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -72,7 +72,7 @@ public:
 		float32 s = 1.f / PlatformMath::sin(a);
 
 		outAngle = a * 2.f;
-		outAxis = Vec3<float32>(this->x * s, this->y * s, this->w * s);
+		outAxis = Vec3<float32>(this->x * s, this->y * s, this->z * s);
 	}
 
 	/**
-- 
2.43.0


From 6868b4d0fdfedf847d1c17224e66e90a4caf433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 61/74] fix: quaternion of a null rotation vector

---
 src/korin/core/public/math/quat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index d48acc5..ad1cfbb 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -52,7 +52,8 @@ public:
 		float32 alpha = v.getSize();
 		float32 a = alpha * 0.5f;
 
-		v *= PlatformMath::sin(a) / alpha;
+		// There is no axis if there is no rotation
+		if (alpha > 0.f) v *= PlatformMath::sin(a) / alpha;
 
 		this->x = v.x;
 		this->y = v.y;
-- 
2.43.0


From 25c9e165d710264adacd504e5a6f0c6a82bf65e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 62/74] fix: quaternion of a rotation vector was ambiguous

---
 src/korin/core/public/math/quat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index ad1cfbb..5593818 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -47,8 +47,9 @@ public:
 	/**
 	 * Constructs from physics rotation vector
 	 */
-	FORCE_INLINE Quat(Vec3<float32> v)
+	FORCE_INLINE Quat(const Vec3<float32> & inRotation)
 	{
+		Vec3<float32> v{inRotation};
 		float32 alpha = v.getSize();
 		float32 a = alpha * 0.5f;
 
-- 
2.43.0


From d3e48b1041ee2c457c85e3d621ef80cce006dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 63/74] fix: order of the factors of the product of quaternions

---
 src/korin/core/public/math/quat.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 5593818..ca6af2a 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -108,13 +108,12 @@ public:
 	{
 		// @ref https://en.wikipedia.org/wiki/Quaternion#Hamilton_product
 		// Wikipedia uses (angle, axis<i, j, k>) notation
-		// Here we use (axis<x, y, z>, angle) notation,
-		// thus everything is inverted
-		
+		// Here we use (axis<x, y, z>, angle) notation
+
 		return Quat{
-			this->w * other.x + this->x * other.w - this->y * other.z + this->z * other.y,
-			this->w * other.y + this->x * other.z + this->y * other.w - this->z * other.x,
-			this->w * other.z - this->x * other.y + this->y * other.x + this->z * other.w,
+			this->w * other.x + this->x * other.w + this->y * other.z - this->z * other.y,
+			this->w * other.y - this->x * other.z + this->y * other.w + this->z * other.x,
+			this->w * other.z + this->x * other.y - this->y * other.x + this->z * other.w,
 			this->w * other.w - this->x * other.x - this->y * other.y - this->z * other.z
 		};
 	}
-- 
2.43.0


From 3ed7f823d622c274d7077d9fa409ae85da47614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 64/74] fix: elements with a move constructor or assignment of
 their own were copied bit by bit

---
 .../core/public/generic/generic_platform_memory.h    | 12 ++++++------
 src/korin/core/public/templates/types.h              | 11 +++++++++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 4d0561f..cac4af7 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -86,14 +86,14 @@ struct GenericPlatformMemory
 	 * @param m num of elements
 	 */
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsBitwiseCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		for (uint64 i = 0; i < n; ++i)
 			new (dst + i) T{src[i]};
 	}
 
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsBitwiseCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		memcpy(dst, src, n * sizeof(T));
 	}
@@ -110,7 +110,7 @@ struct GenericPlatformMemory
 	 * @{
 	 */
 	template<typename TT>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsBitwiseCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
 		for (uint64 i = 0; i < n; ++i, ++dst, ++src)
 			// Non overlapping required
@@ -118,7 +118,7 @@ struct GenericPlatformMemory
 	}
 
 	template<typename TT>
-	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsBitwiseCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
 		memcpy(dst, src, n * sizeof(TT));
 	}
@@ -139,7 +139,7 @@ struct GenericPlatformMemory
 	 * @{
 	 */
 	template<typename TT>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type moveElements(TT * dst, TT * src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsBitwiseCopyable<TT>::value>::Type moveElements(TT * dst, TT * src, uint64 n)
 	{
 		if (LIKELY(dst < src))
 		{
@@ -164,7 +164,7 @@ struct GenericPlatformMemory
 	}
 
 	template<typename TT>
-	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<TT>::value>::Type moveElements(TT * dst, TT * src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsBitwiseCopyable<TT>::value>::Type moveElements(TT * dst, TT * src, uint64 n)
 	{
 		memmov(dst, src, n * sizeof(TT));
 	}
diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index d925316..8891ff7 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -194,6 +194,17 @@ struct IsTriviallyCopyable
 	enum {value = __has_trivial_copy(T)};
 };
 
+/**
+ * Sets value to true if copying, moving
+ * and assigning objects of type T amounts
+ * to copying their bytes
+ */
+template<typename T>
+struct IsBitwiseCopyable
+{
+	enum {value = __is_trivially_copyable(T)};
+};
+
 /**
  * Sets value to true if T has trivial
  * copy assignment
-- 
2.43.0


From 5d42a9857c02fdf9cf6d59793c0fe366426c656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 65/74] fix: memcmp reports which chunk of memory is greater

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index cac4af7..4244b05 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -51,7 +51,7 @@ struct GenericPlatformMemory
 	 * 	mem0 is greater than the corresponding
 	 * 	byte in mem1
 	 */
-	static FORCE_INLINE bool memcmp(const void * mem0, const void * mem1, sizet size)
+	static FORCE_INLINE int32 memcmp(const void * mem0, const void * mem1, sizet size)
 	{
 		return ::memcmp(mem0, mem1, size);
 	}
-- 
2.43.0


From e3d484f1439d27091b646941ed2a71c8034e7f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 66/74] fix: copy a StaticArray that is not constant

---
 src/korin/core/public/templates/array.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/korin/core/public/templates/array.h b/src/korin/core/public/templates/array.h
index 455dfbe..aa2d456 100644
--- a/src/korin/core/public/templates/array.h
+++ b/src/korin/core/public/templates/array.h
@@ -43,6 +43,24 @@ struct StaticArray
 		}
 	}
 
+	/**
+	 * Copy and move constructors, preferred
+	 * to the one that accepts item values.
+	 * @{
+	 */
+	constexpr StaticArray(const StaticArray &) = default;
+	constexpr StaticArray(StaticArray &) = default;
+	constexpr StaticArray(StaticArray &&) = default;
+	/** @} */
+
+	/**
+	 * Copy and move assignments.
+	 * @{
+	 */
+	constexpr StaticArray & operator=(const StaticArray &) = default;
+	constexpr StaticArray & operator=(StaticArray &&) = default;
+	/** @} */
+
 	/**
 	 * Constructor that accepts one or
 	 * more item values.
-- 
2.43.0


From 87b5f8feffbdc7aa7ca377a118114d6758739e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 67/74] fix: an array that grows moves its elements, which may
 not be copyable

---
 src/korin/core/public/containers/array.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index faad86e..b35ce79 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -315,11 +315,10 @@ protected:
 			// Allocate new memory
 			T * inBuffer = malloc.alloc(capacity);
 
-			// Copy elements and free old buffer
+			// Move elements and free old buffer
 			if (buffer)
 			{
-				Memory::constructCopyElements(inBuffer, buffer, count);
-				Memory::destroyElements(buffer, buffer + count);
+				Memory::moveElements(inBuffer, buffer, count);
 				malloc.free(buffer);
 			}
 
-- 
2.43.0


From fb6d6ca544481ff94ea40fccdd3ec592beb28ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 68/74] fix: minimum and maximum of several values of different
 types were truncated to the type of one of them

---
 src/korin/core/public/generic/generic_platform_math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_math.h b/src/korin/core/public/generic/generic_platform_math.h
index 86d18e8..786379b 100644
--- a/src/korin/core/public/generic/generic_platform_math.h
+++ b/src/korin/core/public/generic/generic_platform_math.h
@@ -68,7 +68,7 @@ struct GenericPlatformMath
 	template<typename T, typename U, typename ... Args>
 	static constexpr FORCE_INLINE T min(const T & a, const U & b, Args && ... c)
 	{
-		return a < b ? min(a, forward<Args>(c)...) : min(b, forward<Args>(c)...);
+		return a < b ? min(a, forward<Args>(c)...) : min(static_cast<T>(b), forward<Args>(c)...);
 	}
 
 	template<typename T, typename U>
@@ -80,7 +80,7 @@ struct GenericPlatformMath
 	template<typename T, typename U, typename ... Args>
 	static constexpr FORCE_INLINE T max(const T & a, const U & b, Args && ... c)
 	{
-		return a > b ? max(a, forward<Args>(c)...) : max(b, forward<Args>(c)...);
+		return a > b ? max(a, forward<Args>(c)...) : max(static_cast<T>(b), forward<Args>(c)...);
 	}
 	/// @}
 
-- 
2.43.0


From cdaff240d645f04cace786da83e8480ccd960a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 69/74] fix: inserting an item of the array itself read it
 after it was moved or freed

---
 src/korin/core/public/containers/array.h | 63 +++++++++++++++++-------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index b35ce79..a1777e8 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -583,7 +583,10 @@ public:
 	{
 		if (idx >= count)
 		{
-			return *(new (&(operator()(idx))) T{forward<ItemT>(initValue)});
+			// Value may be an item of this array,
+			// create it before buffer is resized
+			T value{forward<ItemT>(initValue)};
+			return *(new (&(operator()(idx))) T{move(value)});
 		}
 		
 		return operator()(idx);
@@ -641,14 +644,16 @@ protected:
 	 * resizing container.
 	 * 
 	 * @param idx position in which to insert
-	 * 	current item
-	 * @param item,items items to insert
+	 * 	first item
+	 * @param items items to insert, moved
 	 */
-	template<typename ItemT, typename ... ItemListT>
-	FORCE_INLINE void insertNoResize(uint64 idx, ItemT && item, ItemListT && ... items)
+	template<uint64 numItems>
+	FORCE_INLINE void insertListNoResize(uint64 idx, T (&items)[numItems])
 	{
-		new (buffer + idx) T{forward<ItemT>(item)};
-		insertNoResize(idx + 1, forward<ItemListT>(items) ...);
+		for (uint64 i = 0; i < numItems; ++i)
+		{
+			new (buffer + idx + i) T{move(items[i])};
+		}
 	}
 
 public:
@@ -665,6 +670,10 @@ public:
 	{
 		const uint64 j = idx + 1;
 
+		// Value may be an item of this array,
+		// create it before items are moved
+		T value{forward<ItemT>(item)};
+
 		if (idx < count)
 		{
 			resizeIfNecessary(count + 1);
@@ -679,8 +688,8 @@ public:
 			count = j;
 		}
 		
-		// Copy construct element
-		return insertNoResize(idx, forward<ItemT>(item));
+		// Move element in place
+		return insertNoResize(idx, move(value));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -690,6 +699,10 @@ public:
 		constexpr uint64 numArgs = 1 + sizeof... (ItemListT);
 		const uint64 j = idx + numArgs;
 
+		// Values may be items of this array,
+		// create them before items are moved
+		T values[] = {T{forward<ItemT>(item)}, T{forward<ItemListT>(items)} ...};
+
 		if (idx < count)
 		{
 			resizeIfNecessary(count + numArgs);
@@ -704,8 +717,8 @@ public:
 			count = j;
 		}
 		
-		// Copy construct elements
-		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		// Move elements in place
+		insertListNoResize(idx, values);
 	}
 	/** @} */
 
@@ -720,14 +733,18 @@ public:
 	template<typename ItemT>
 	T & insertFirst(ItemT && item)
 	{
+		// Value may be an item of this array,
+		// create it before items are moved
+		T value{forward<ItemT>(item)};
+
 		resizeIfNecessary(count + 1);
 
 		// Move elements up
 		Memory::moveElements(buffer + 1, buffer, count);
 		++count;
 
-		// Copy construct element
-		return insertNoResize(0, forward<ItemT>(item));
+		// Move element in place
+		return insertNoResize(0, move(value));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -735,12 +752,16 @@ public:
 	{
 		constexpr uint64 numArgs = 1 + sizeof... (items);
 
+		// Values may be items of this array,
+		// create them before items are moved
+		T values[] = {T{forward<ItemT>(item)}, T{forward<ItemListT>(items)} ...};
+
 		// Resize and move elements up
 		resizeIfNecessary(count + numArgs);
 		Memory::moveElements(buffer + numArgs, buffer, count);
 		count += numArgs;
 
-		insertNoResize(0, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		insertListNoResize(0, values);
 	}
 	/// @}
 
@@ -755,8 +776,12 @@ public:
 	template<typename ItemT>
 	T & insertLast(ItemT && item)
 	{
+		// Value may be an item of this array,
+		// create it before items are moved
+		T value{forward<ItemT>(item)};
+
 		resizeIfNecessary(count + 1);
-		return insertNoResize(count++, forward<ItemT>(item));
+		return insertNoResize(count++, move(value));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -764,9 +789,13 @@ public:
 	{
 		constexpr uint64 numArgs = 1 + sizeof... (items);
 
-		// Resize and copy construct elements
+		// Values may be items of this array,
+		// create them before items are moved
+		T values[] = {T{forward<ItemT>(item)}, T{forward<ItemListT>(items)} ...};
+
+		// Resize and move elements in place
 		resizeIfNecessary(count + numArgs);
-		insertNoResize(count, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		insertListNoResize(count, values);
 
 		count += numArgs;
 	}
-- 
2.43.0


From 18d24927d609c7d6bde771d22388b06ab4e225ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 70/74] fix: pointers with qualifiers of their own were not
 recognised as pointers

---
 src/korin/core/public/templates/types.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index 8891ff7..3e8b866 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -41,7 +41,10 @@ struct IsPointer
 	enum {value = false};
 };
 
-template<typename T> struct IsPointer<T*> { enum {value = true}; };
+template<typename T> struct IsPointer<T*>					{ enum {value = true}; };
+template<typename T> struct IsPointer<T* const>				{ enum {value = true}; };
+template<typename T> struct IsPointer<T* volatile>			{ enum {value = true}; };
+template<typename T> struct IsPointer<T* const volatile>	{ enum {value = true}; };
 /// @}
 
 /**
@@ -59,6 +62,10 @@ template<typename T> struct IsPointerOf<T*, T>					{ enum {value = true}; };
 template<typename T> struct IsPointerOf<const T*, T>			{ enum {value = true}; };
 template<typename T> struct IsPointerOf<volatile T*, T>			{ enum {value = true}; };
 template<typename T> struct IsPointerOf<const volatile T*, T>	{ enum {value = true}; };
+
+template<typename T, typename PtrT> struct IsPointerOf<T* const, PtrT>			: public IsPointerOf<T*, PtrT> {};
+template<typename T, typename PtrT> struct IsPointerOf<T* volatile, PtrT>		: public IsPointerOf<T*, PtrT> {};
+template<typename T, typename PtrT> struct IsPointerOf<T* const volatile, PtrT>	: public IsPointerOf<T*, PtrT> {};
 /** @} */
 
 /**
@@ -252,7 +259,10 @@ struct RemoveAllPointers
 	using Type = T;
 };
 
-template<typename T> struct RemoveAllPointers<T*> { using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T*>					{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* const>				{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* volatile>			{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* const volatile>	{ using Type = typename RemoveAllPointers<T>::Type; };
 /// @}
 
 /**
-- 
2.43.0


From 3302db02fbfaee0242b15b54d24239635e5f8ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 71/74] fix: functions that do not throw or take any arguments
 were not recognised as functions

---
 src/korin/core/public/templates/types.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index 3e8b866..c949bdf 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -151,7 +151,10 @@ struct IsCFunction
 	enum {value = false};
 };
 
-template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args...)> { enum {value = true}; };
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args...)>				{ enum {value = true}; };
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args..., ...)>			{ enum {value = true}; };
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args...) noexcept>		{ enum {value = true}; };
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args..., ...) noexcept>	{ enum {value = true}; };
 
 /**
  * Sets value to true if T is a trivial type
-- 
2.43.0


From 6be7b788d96ba99c18d4e1e54ae9f3a0eb52a7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 72/74] fix: the decayed type of an array was the type of its
 items

---
 src/korin/core/public/templates/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index c949bdf..bf4ee4d 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -378,7 +378,7 @@ class DecayType
 public:
 	using Type = typename ChooseType<
 		IsArray<U>::value,
-		typename RemoveArray<U>::Type, // If is array
+		typename AddPointer<typename RemoveArray<U>::Type>::Type, // If is array
 		typename ChooseType<
 			IsCFunction<U>::value,
 			typename AddPointer<U>::Type,
-- 
2.43.0


From e425d3fb47f48191393c202f8d09e9f42a76b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 73/74] fix: long was not an integral type

---
 src/korin/core/public/templates/types.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index bf4ee4d..c008d63 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -122,6 +122,9 @@ template<> struct IsIntegral<uint16>	{ enum {value = true}; };
 template<> struct IsIntegral<uint32>	{ enum {value = true}; };
 template<> struct IsIntegral<uint64>	{ enum {value = true}; };
 
+template<> struct IsIntegral<long>			{ enum {value = true}; };
+template<> struct IsIntegral<unsigned long>	{ enum {value = true}; };
+
 template<> struct IsIntegral<bool> { enum {value = true}; };
 
 template<> struct IsIntegral<ansichar>	{ enum {value = true}; };
-- 
2.43.0


From e81da56213c56e657adfdd8ac43ef59e617006f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 74/74] fix: objects derived from NonCopyable and NonMovable
 could not be constructed

---
 src/korin/core/public/templates/types.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index c008d63..3e2fb0c 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -395,6 +395,8 @@ public:
  */
 struct NonCopyable
 {
+	NonCopyable() = default;
+
 private:
 	NonCopyable(const NonCopyable&) = delete;
 	NonCopyable& operator=(const NonCopyable&) = delete;
@@ -405,6 +407,8 @@ private:
  */
 struct NonMovable
 {
+	NonMovable() = default;
+
 private:
 	NonMovable(NonMovable&&) = delete;
 	NonMovable& operator=(NonMovable&&) = delete;
-- 
2.43.0

