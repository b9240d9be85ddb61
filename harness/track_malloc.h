// Recording allocator: every block is tracked, misuse is counted.
#pragma once
#include "common.h"
#include "hal/platform_memory.h"
#include "hal/memory_base.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)(a))
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)(a))
#endif

namespace vt
{
	// storage events since the last report: [kind, allocator, block]; kind 0 block handed out, 1 block given
	// back, 2 allocator created, 3 allocator destroyed
	struct MemLog
	{
		bool rec = false;
		int blocks = 0, allocators = 0;
		std::string log;
		void note(int k, int a, int b) { if (rec) { if (!log.empty()) log += ","; log += "[" + std::to_string(k) + "," + std::to_string(a) + "," + std::to_string(b) + "]"; } }
	};
	inline MemLog & memlog() { static MemLog * m = new MemLog; return *m; }

	struct TrackMalloc : public MallocBase
	{
		std::unordered_map<void *, size_t> held;
		std::unordered_map<void *, int> id;
		int self = 0;
		long errors = 0;
		long allocs = 0;
		std::string first;
		TrackMalloc() {}
		virtual ~TrackMalloc() { for (auto & p : held) { ASAN_UNPOISON_MEMORY_REGION(p.first, 1); ::free(p.first); } }
		void * alloc(sizet size, sizet alignment) override
		{
			void * p = nullptr;
			if (alignment < sizeof(void *)) alignment = sizeof(void *);
			if (posix_memalign(&p, alignment, size ? size : 1)) return nullptr;
			memset(p, 0xCD, size);
			if (!size) ASAN_POISON_MEMORY_REGION(p, 1);	// not even the first byte is the caller's
			held[p] = size;
			memlog().note(0, self, id[p] = ++memlog().blocks);
			++allocs;
			return p;
		}
		void * realloc(void * orig, sizet size, sizet alignment) override
		{
			if (!orig) return alloc(size, alignment);
			auto it = held.find(orig);
			if (it == held.end()) { bad("realloc of a foreign block"); return nullptr; }
			if (!size) { free(orig); return nullptr; }
			void * p = alloc(size, alignment);
			memcpy(p, orig, it->second < size ? it->second : size);
			free(orig);
			return p;
		}
		void free(void * orig) override
		{
			if (!orig) return;
			auto it = held.find(orig);
			if (it == held.end()) { memlog().note(1, self, 0); bad("free of a block that is not held"); return; }
			memlog().note(1, self, id[orig]);
			if (!it->second) ASAN_UNPOISON_MEMORY_REGION(orig, 1);
			memset(orig, 0xDD, it->second);
			held.erase(it);
			::free(orig);
		}
		void bad(const char * w) { ++errors; if (first.empty()) first = w; }
	};
	// every block is aligned as asked, and no better
	struct StrictMalloc : public MallocBase
	{
		std::unordered_map<void *, std::pair<char *, size_t>> held;
		void * alloc(sizet size, sizet alignment) override
		{
			if (alignment < sizeof(void *)) alignment = sizeof(void *);
			void * p = nullptr;
			if (posix_memalign(&p, 2 * alignment, size + alignment)) return nullptr;
			ASAN_POISON_MEMORY_REGION(p, alignment);
			char * q = (char *)p + alignment;
			held[q] = {(char *)p, size};
			return q;
		}
		void * realloc(void * orig, sizet size, sizet alignment) override
		{
			if (!orig) return alloc(size, alignment);
			if (!size) { free(orig); return nullptr; }
			void * p = alloc(size, alignment);
			const size_t n = held[orig].second;
			memcpy(p, orig, n < size ? n : size);
			free(orig);
			return p;
		}
		void free(void * orig) override
		{
			if (!orig) return;
			auto it = held.find(orig);
			if (it == held.end()) { ::free(orig); return; }
			char * p = it->second.first;
			ASAN_UNPOISON_MEMORY_REGION(p, (char *)orig - p);
			held.erase(it);
			::free(p);
		}
	};
	inline StrictMalloc & strict() { static StrictMalloc * m = new StrictMalloc; return *m; }
	// an allocator that is part of its container
	struct OwnedMalloc : public TrackMalloc
	{
		OwnedMalloc() { self = ++memlog().allocators; memlog().note(2, self, 0); }
		~OwnedMalloc() { memlog().note(3, self, 0); }
		OwnedMalloc(const OwnedMalloc &) : OwnedMalloc{} {}
		OwnedMalloc & operator=(const OwnedMalloc &) { return *this; }
	};
}
