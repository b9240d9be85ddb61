// Regular expressions (C18, C19)
#define VT_MAIN
#include "common.h"
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "regex/regex.h"
#include "track_malloc.h"
#include <type_traits>
using namespace vt;

constexpr int SL = 4;
using Auto = Re::Automaton<ansichar>;
using Builder = Re::AutomatonBuilder<ansichar>;
using Exec = Re::Executor<ansichar>;
static Re::Regex * rx[SL];		// compiled patterns
static Auto * au[SL];			// automata built by hand
static const Auto & automaton(int o) { return rx[o] ? ((const Re::Regex *)rx[o])->getAutomaton() : *au[o]; }
static std::string shown[SL];

static std::vector<int> codes(const std::string & s) { std::vector<int> o; for (unsigned char c : s) o.push_back(c); return o; }
// a terminated string that fills its block of memory
struct Exact
{
	char * p;
	explicit Exact(const std::string & s) : p((char *)::malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); }
	~Exact() { ::free(p); }
};
static std::string show(int o) { String s = automaton(o).toString(); return std::string(*s, s.getLength()); }

// builds what the words describe, returns it as a pattern of the specification
static std::string construct(Toks & t, Builder & b, bool whole)
{
	const std::string w = t.s();
	auto group = [&](auto && f) { if (whole) b.beginGroup(); f(); if (whole) b.endGroup(); };
	std::string l, r;
	if (w == "sym") { const int c = (int)t.i(); b.pushState<Re::StateSymbol<ansichar>>((ansichar)c); return "{\"op\":\"rng\",\"lo\":" + std::to_string(c) + ",\"hi\":" + std::to_string(c) + "}"; }
	if (w == "rng") { const int lo = (int)t.i(), hi = (int)t.i(); b.pushState<Re::StateRange<ansichar>>((ansichar)lo, (ansichar)hi); return "{\"op\":\"rng\",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + "}"; }
	if (w == "any") { b.pushState<Re::StateAny<ansichar>>(); return "{\"op\":\"any\"}"; }
	if (w == "eps") { if (t.i()) b.pushState<Re::StateEpsilon<ansichar>>(); else b.beginGroup(), b.endGroup(); return "{\"op\":\"eps\"}"; }
	if (w == "two")
	{
		b.pushState<Re::StateLambda<ansichar>>([](const ansichar * const & in, int32 & n, int32) -> bool { n = 0; if (!in[0] || !in[1]) return false; n = 2; return true; }, "Two");
		return "{\"op\":\"two\"}";
	}
	if (w == "cat") { group([&] { l = construct(t, b, true); r = construct(t, b, true); }); return "{\"op\":\"cat\",\"l\":" + l + ",\"r\":" + r + "}"; }
	if (w == "alt") { b.beginGroup(); l = construct(t, b, false); b.pushBranch(); r = construct(t, b, false); b.endGroup(); return "{\"op\":\"alt\",\"l\":" + l + ",\"r\":" + r + "}"; }
	if (w == "look" || w == "nlook")
	{
		if (w == "look") b.beginMacro<Re::StatePositiveLookahed<ansichar>>(); else b.beginMacro<Re::StateNegativeLookahed<ansichar>>();
		l = construct(t, b, false);
		b.endMacro();
		return "{\"op\":\"" + w + "\",\"l\":" + l + "}";
	}
	if (w == "rep")
	{
		const int lo = (int)t.i(), hi = (int)t.i();	// hi < 0: no bound
		l = construct(t, b, true);
		if (lo == 0 && hi == 0) b.pushEmpty();
		else if (lo == 0 && hi == 1) b.pushSkip();
		else if (lo == 1 && hi < 0) b.pushJump();
		else if (lo == 0 && hi < 0 && t.i()) b.pushJump().pushSkip();
		else b.pushRepeat(lo, hi < 0 ? 0 : hi);
		return "{\"op\":\"rep\",\"min\":" + std::to_string(lo) + ",\"max\":" + std::to_string(hi < 0 ? 1000000 : hi) + ",\"l\":" + l + "}";
	}
	badop(t);
}
// the answer does not depend on what was there before
static bool run(Exec & x) { for (;;) { bool v = true; if (x.step(v)) return v; if (v) return true; } }

// an executor that accepts any beginning of the string
template<typename X = Exec> static void prefix(int o, const std::string & s)
{
	if constexpr (std::is_constructible<X, const Re::StateBase<ansichar> *, const Re::StateBase<ansichar> *, const char * const &, int32, bool>::value)
	{
		Exact a(s);
		X x{automaton(o).getStartState(), automaton(o).getAcceptedState(), a.p, 0, false};
		Ev e("Prefix"); e.i("o", o + 1).sq("s", codes(s)).b("v", run(x)).emit();
	}
}

static TrackMalloc * gm;
static MallocBase * orig;
void vtBegin() { if (arg("track")) { orig = gMalloc; gMalloc = gm = new TrackMalloc; } }
void vtEnd()
{
	for (auto & r : rx) { delete r; r = nullptr; }
	for (auto & a : au) { delete a; a = nullptr; }
	Ev e("End");
	if (gm)
	{
		e.i("held", gm->held.size()).i("err", gm->errors);
		gMalloc = orig; delete gm; gm = nullptr;
	}
	e.emit();
}
void vtExec(Toks & t)
{
	const std::string op = t.op();
	if (op == "once")
	{
		const std::string p = t.h(), s = t.h();
		Exact a(s);
		const bool v = Re::accept(String{p.c_str()}, String{a.p});
		Ev e("Once"); e.sq("t", codes(p)).sq("s", codes(s)).b("v", v).emit();
		return;
	}
	const int o = (int)t.i();
	if (op == "compile")
	{
		const std::string p = t.h();
		{
			String text{p.c_str()};
			rx[o] = new Re::Regex(text);
		}
		shown[o].clear();
		Ev e("Compile"); e.i("o", o + 1).sq("t", codes(p)).emit();
	}
	else if (op == "build")
	{
		const bool opt = t.i();
		au[o] = new Auto;
		std::string r;
		{
			Builder b = au[o]->createBuilder();
			r = construct(t, b, false);
			b.endGroup();
		}
		if (opt) au[o]->createOptimizer().removeEpsilons();
		shown[o].clear();
		Ev e("Build"); e.i("o", o + 1).raw("r", r).emit();
	}
	else if (op == "exec")
	{
		// an executor used for another string first, left in the middle of it, reset, and reset again
		const std::string first = t.h(), s = t.h();
		int k = (int)t.i();
		Exact a(first), c(s);
		std::vector<int> vs;
		{
			Exec x = automaton(o).createExecutor(a.p);
			bool v = false;
			while (k-- > 0 && !x.step(v));
			x.reset(c.p);
			vs.push_back(run(x));
			x.reset();
			vs.push_back(run(x));
		}
		Exec y = automaton(o).createExecutor(c.p);
		vs.push_back(run(y));
		std::string j = "[";
		for (size_t i = 0; i < vs.size(); ++i) j += std::string(i ? "," : "") + (vs[i] ? "true" : "false");
		Ev e("Exec"); e.i("o", o + 1).sq("s", codes(s)).raw("vs", j + "]").emit();
	}
	else if (op == "prefix")
	{
		prefix(o, t.h());
	}
	else if (op == "destroy")
	{
		delete rx[o]; rx[o] = nullptr;
		delete au[o]; au[o] = nullptr;
		Ev e("Destroy"); e.i("o", o + 1).emit();
	}
	else if (op == "show")
	{
		const std::string s = show(o);
		const bool same = shown[o].empty() || shown[o] == s;
		shown[o] = s;
		Ev e("Show"); e.i("o", o + 1).b("same", same).emit();
	}
	else if (op == "match")
	{
		const std::string s = t.h();
		Exact a(s);
		const bool v = rx[o] ? rx[o]->accept((const ansichar *)a.p) : automaton(o).acceptString(a.p);
		const bool kept = s == a.p;
		Ev e("Match"); e.i("o", o + 1).sq("s", codes(s)).b("v", v).b("kept", kept);
		if (rx[o] && s.size() < 64) { const String x{s.c_str()}; e.b("w", rx[o]->accept(x)); }
		e.emit();
	}
	else badop(t);
}
