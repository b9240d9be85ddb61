// Object slots: construction, copy, move, assignment and destruction of container objects, and the
// projection of all slots that is logged with every event.
#pragma once
#include "common.h"
#include "track_malloc.h"
#include "templates/utility.h"

namespace vt
{
	template<typename Obj, bool Movable = true, bool Copyable = true> struct Slots
	{
		static constexpr int N = 3;
		Obj * a[N] = {};
		bool moved[N] = {};
		TrackMalloc * gm = nullptr, * um[N] = {};
		int made = 0;
		MallocBase * orig = nullptr;
		bool life = false;

		virtual ~Slots() {}
		virtual std::string contents(const Obj & c) = 0;
		// number of elements the object reports to hold
		virtual long held(const Obj &) { return 0; }
		// object bound to a given allocator; null when the type has no such constructor
		virtual Obj * makeOn(MallocBase *) { return nullptr; }
		virtual Obj * make() { if constexpr (std::is_default_constructible<Obj>::value) return new Obj(); else return nullptr; }

		std::string st()
		{
			std::string o = "[";
			for (int k = 0; k < N; ++k)
			{
				if (k) o += ",";
				o += std::string("{\"k\":\"") + (!a[k] ? "none" : moved[k] ? "moved" : "live") + "\",\"v\":" + (a[k] ? contents(*a[k]) : "[]") + "}";
			}
			return o + "]";
		}
		void fin(Ev & e)
		{
			if (life) e.sq("lf", reg().log);
			if (gm) e.raw("ml", "[" + memlog().log + "]");
			reg().rec = memlog().rec = false;
			if (!muted()) e.raw("st", st());
			if (life)
			{
				long h = 0;
				for (int k = 0; k < N; ++k) if (a[k]) h += held(*a[k]);
				e.i("hl", h).i("er", reg().errors);
				reg().log.clear();
			}
			e.emit();
			reg().rec = life;
			memlog().log.clear(); memlog().rec = gm != nullptr;
		}
		virtual void begin()
		{
			life = arg("life");
			reg().log.clear(); reg().place.clear(); reg().rec = life;
			reg().alive.clear(); reg().errors = 0; reg().first.clear();
			if (!arg("mem") && !life && (arg("block") || arg("semi") || arg("u64") || arg("i8") || arg("f64"))) gMalloc = &strict();
			if (arg("mem"))
			{
				// allocator 0 is the default one, 1..3 are supplied by the user
				memlog() = MemLog{};
				orig = gMalloc; gm = new TrackMalloc; gMalloc = gm;
				for (int k = 0; k < N; ++k) { um[k] = new TrackMalloc; um[k]->self = k + 1; }
				memlog().allocators = N; made = 0;
				memlog().rec = true;
			}
		}
		virtual void end()
		{
			for (int k = 0; k < N; ++k) { delete a[k]; a[k] = nullptr; moved[k] = false; }
			Ev e("End");
			fin(e);
			if (gm) { memlog().rec = false; gMalloc = orig; delete gm; gm = nullptr; for (auto *& u : um) { delete u; u = nullptr; } }
		}
		std::vector<int> rest(Toks & t) { std::vector<int> v; while (t.more()) v.push_back((int)t.i()); return v; }
		// the numbers 1..n in some order: ascending, descending, or with a stride prime to n
		template<typename F> static void each(long n, long how, F f) { for (long j = 0; j < n; ++j) f((int)(1 + (how == 0 ? j : how == 1 ? n - 1 - j : j * how % n))); }
		Ev ev(const char * n, int o) { return Ev(n).i("o", o + 1); }

		// returns true if it handled the operation; o is the first argument, already consumed
		bool common(Toks & t, int o)
		{
			const std::string & op = t.op();
			if (op == "new")
			{
				int m = 0;
				if (gm && arg("user") && ++made % 4) m = 1 + (made + o) % N;
				a[o] = m ? makeOn(um[m - 1]) : make();
				if (!a[o]) { m = 0; a[o] = make(); }
				moved[o] = false; auto e = ev("New", o); e.i("m", m); fin(e);
			}
			else if (op == "copy") { if constexpr (Copyable) { int p = (int)t.i(); a[o] = new Obj((const Obj &)*a[p]); moved[o] = false; auto e = ev("Copy", o); e.i("p", p + 1); fin(e); } }
			else if (op == "move") { if constexpr (Movable) { int p = (int)t.i(); a[o] = new Obj(::move(*a[p])); moved[o] = false; moved[p] = true; auto e = ev("Move", o); e.i("p", p + 1); fin(e); } }
			else if (op == "delete") { delete a[o]; a[o] = nullptr; moved[o] = false; auto e = ev("Delete", o); fin(e); }
			else if (op == "assign") { if constexpr (Copyable) { int p = (int)t.i(); Obj & r = (*a[o] = (const Obj &)*a[p]); auto e = ev("Assign", o); e.i("p", p + 1); chk(&r == a[o]); fin(e); } }
			else if (op == "massign") { if constexpr (Movable) { int p = (int)t.i(); Obj & r = (*a[o] = ::move(*a[p])); moved[p] = true; moved[o] = false; auto e = ev("MoveAssign", o); e.i("p", p + 1); chk(&r == a[o]); fin(e); } }
			else return false;
			return true;
		}
		// an assignment operator must return its own object; anything else is a wild reference
		void chk(bool ok) { if (!ok) { Ev e("BadReference"); e.emit(); } }
	};
}
