// Atomic objects (C14).  A round runs the programs of several threads on shared objects and logs
// what every operation returned and the final values.
//   init TY v0 v1 ...            values of the objects (hex, unsigned)
//   th kind:obj:arg ...          program of the next thread
//   step                         deterministic: the first thread is interrupted after every single
//                                machine instruction by the whole program of the others (nested)
//   split                        as step, the second thread's operations at two different points
//   par REPS                     real threads, program order only
//   timed REPS                   real threads, call and return times
#define VT_MAIN
#include "common.h"
#include <thread>
#include <atomic>
#include <set>
#include <sched.h>
#include <ucontext.h>
#include <sys/mman.h>
#include "core_types.h"
#include "templates/atomic.h"
using namespace vt;
extern "C" char __executable_start, etext;

static const char * KIND[] = {"load", "loadr", "conv", "store", "storer", "assign", "preinc", "postinc", "predec", "postdec", "addeq", "subeq", "fadd", "fsub", "xchg"};
struct Op { int k, o; uint64_t a; uint64_t r; bool rv; long s, f; };
struct S24 { char c[24]; };

struct Any
{
	virtual void set(int o, uint64_t v) = 0;
	virtual uint64_t get(int o) = 0;
	virtual bool guard() = 0;
	virtual int bits() = 0;
	virtual int scale() = 0;
	virtual void exec(Op & op) = 0;
};
template<typename T> struct Bits { static uint64_t to(T v) { return (uint64_t)v & (sizeof(T) == 8 ? ~0ull : ((1ull << (8 * (sizeof(T) % 8))) - 1)); } static T from(uint64_t v) { return (T)v; } enum { scale = 1 }; using Int = T; };
template<typename T> struct Bits<T*> { static uint64_t to(T * v) { return (uint64_t)v; } static T * from(uint64_t v) { return (T*)v; } enum { scale = sizeof(T) }; using Int = long; };

constexpr int NOBJ = 3;
template<typename T, typename Obj> struct Cells
{
	struct alignas(128) Cell { uint8_t pre[32]; Obj obj; uint8_t post[32]; };
	static Cell * make() { return (Cell*)aligned_alloc(128, sizeof(Cell) * NOBJ); }
	Cell * c = make();
	void wipe(int o) { memset((void*)&c[o], 0xA5, sizeof(Cell)); }
	bool guard()
	{
		for (int o = 0; o < NOBJ; ++o) for (int j = 0; j < 32; ++j) if (c[o].pre[j] != 0xA5 || c[o].post[j] != 0xA5) return false;
		return true;
	}
};
template<typename T> struct Obj : Any		// through Atomic
{
	Cells<T, Atomic<T>> m;
	using B = Bits<T>;
	void set(int o, uint64_t v) override { m.wipe(o); ::new((void*)&m.c[o].obj) Atomic<T>(B::from(v)); }
	uint64_t get(int o) override { return B::to(m.c[o].obj.load()); }
	bool guard() override { return m.guard(); }
	int bits() override { return 8 * sizeof(T); }
	int scale() override { return B::scale; }
	void exec(Op & op) override
	{
		using Order = typename Atomic<T>::AtomicOrder;
		Atomic<T> & x = m.c[op.o].obj;
		switch (op.k)
		{
			case 0: op.r = B::to(x.load()); break;
			case 1: op.r = B::to(x.load(Order::Relaxed)); break;
			case 2: op.r = B::to((T)x); break;
			case 3: x.store(B::from(op.a)); break;
			case 4: x.store(B::from(op.a), Order::Relaxed); break;
			case 5: op.r = B::to(x = B::from(op.a)); break;
			case 6: op.r = B::to(++x); break;
			case 7: op.r = B::to(x++); break;
			case 8: op.r = B::to(--x); break;
			case 9: op.r = B::to(x--); break;
			case 10: op.r = B::to(x += (typename B::Int)op.a); break;
			case 11: op.r = B::to(x -= (typename B::Int)op.a); break;
			default: _exit(77);
		}
	}
};
template<typename T, typename I, bool arith> struct Raw : Any	// the platform layer itself
{
	Cells<T, volatile T> m;
	using B = Bits<T>;
	void set(int o, uint64_t v) override { m.wipe(o); m.c[o].obj = B::from(v); }
	uint64_t get(int o) override { return B::to(m.c[o].obj); }
	bool guard() override { return m.guard(); }
	int bits() override { return 8 * sizeof(T); }
	int scale() override { return 1; }
	void exec(Op & op) override
	{
		using P = PlatformAtomics;
		volatile T * x = &m.c[op.o].obj;
		switch (op.k)
		{
			case 0: op.r = B::to(P::read(x)); break;
			case 1: op.r = B::to(P::read<P::Relaxed>(x)); break;
			case 3: P::store(x, B::from(op.a)); break;
			case 4: P::store<P::Relaxed>(x, B::from(op.a)); break;
			case 14: op.r = B::to(P::exchange(x, B::from(op.a))); break;
			default:
				if constexpr (arith)
				{
					if (op.k == 12) op.r = B::to(P::add(x, (I)op.a));
					else if (op.k == 13) op.r = B::to(P::sub(x, (I)op.a));
					else _exit(77);
				}
				else _exit(77);
		}
	}
};
static Any * pick(const std::string & ty)
{
	static std::map<std::string, Any *> m;
	if (m.empty())
	{
		m["i8"] = new Obj<int8>; m["u8"] = new Obj<uint8>; m["i16"] = new Obj<int16>; m["u16"] = new Obj<uint16>;
		m["i32"] = new Obj<int32>; m["u32"] = new Obj<uint32>; m["i64"] = new Obj<int64>; m["u64"] = new Obj<uint64>;
		m["pc"] = new Obj<char*>; m["pi"] = new Obj<int*>; m["pl"] = new Obj<const int64*>; m["ps"] = new Obj<S24*>; m["pp"] = new Obj<void**>;
		m["ri8"] = new Raw<int8, int, true>; m["ru16"] = new Raw<uint16, int16, true>; m["ri32"] = new Raw<int32, int, true>; m["ru64"] = new Raw<uint64, int64, true>;
		m["ri64"] = new Raw<int64, int64, true>; m["rp"] = new Raw<int*, int, false>;
	}
	if (!m.count(ty)) { fprintf(stderr, "type %s\n", ty.c_str()); _exit(77); }
	return m[ty];
}

// ---------------------------------------------------------------- one round
static Any * A;
static std::string TY;
static std::vector<uint64_t> init;
static std::vector<std::vector<Op>> prog;
static std::set<std::vector<uint64_t>> seen;	// outcomes already logged

static std::string limbs(uint64_t v)
{
	int b = A->bits();
	if (b == 8) return "[" + std::to_string(v & 255) + "]";
	std::string o = "[";
	for (int k = 0; k < b / 16; ++k) o += (k ? "," : "") + std::to_string((v >> (16 * k)) & 0xffff);
	return o + "]";
}
static void start()
{
	for (int o = 0; o < NOBJ; ++o) A->set(o, o < (int)init.size() ? init[o] : 0);
}
static void outcome()
{
	static std::vector<uint64_t> key;
	key.clear();
	for (size_t o = 0; o < init.size(); ++o) key.push_back(A->get((int)o));
	for (auto & p : prog) for (auto & x : p) { if (x.k != 3 && x.k != 4) key.push_back(x.r); key.push_back(x.s); key.push_back(x.f); }
	key.push_back(A->guard());
	if (seen.size() > 600 || !seen.insert(key).second) return;
	Ev e("Round");
	e.str("ty", TY).i("b", A->bits() == 8 ? 256 : 65536);
	std::string s = "[", f = "[", p = "[";
	for (size_t o = 0; o < init.size(); ++o) { s += (o ? "," : "") + limbs(init[o]); f += (o ? "," : "") + limbs(A->get((int)o)); }
	for (size_t t = 0; t < prog.size(); ++t)
	{
		p += t ? ",[" : "[";
		for (size_t j = 0; j < prog[t].size(); ++j)
		{
			Op & x = prog[t][j];
			bool rv = x.k != 3 && x.k != 4;
			p += std::string(j ? "," : "") + "{\"k\":\"" + KIND[x.k] + "\",\"o\":" + std::to_string(x.o + 1) + ",\"a\":" + limbs(x.a) + ",\"sc\":" + std::to_string(x.k == 5 || x.k == 14 ? 1 : A->scale())
				+ ",\"r\":" + (rv ? limbs(x.r) : "[]") + ",\"s\":" + std::to_string(x.s) + ",\"f\":" + std::to_string(x.f) + "}";
		}
		p += "]";
	}
	e.raw("init", s + "]").raw("ths", p + "]").raw("fin", f + "]").b("guard", A->guard());
	e.emit();
}

// ---------------------------------------------------------------- preemption at every instruction
// The instructions of a program are found by stepping through it once; then a breakpoint on one of
// them runs the programs of the other threads exactly there.
static std::vector<unsigned char *> stops[4];	// per thread: the breakpoints still to be met, in order
static std::vector<unsigned char *> found;
static unsigned char saved;
static volatile int depth;
static long clk;
static size_t done_[4];
static bool counting;
static void trapOn() { asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static void trapOff() { asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static void writable(unsigned char * p)
{
	static std::set<uintptr_t> done;
	uintptr_t g = (uintptr_t)p & ~4095ul;
	if (done.insert(g).second && mprotect((void*)g, 4096, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("mprotect"); _exit(77); }
}
static void arm(int d) { if (!stops[d].empty()) { unsigned char * p = stops[d].front(); saved = *p; *p = 0xCC; } }
static void undo(int k) { if (!stops[k].empty()) { if (*stops[k].front() == 0xCC) *stops[k].front() = saved; stops[k].clear(); } }
static void runLevel(int d, size_t upto)
{
	int was = depth;
	for (; done_[d] < upto; ++done_[d])
	{
		Op & op = prog[d][done_[d]];
		op.s = ++clk;
		Any * a = A;
		depth = d;
		if (counting) { trapOn(); a->exec(op); trapOff(); }
		else
		{
			if (done_[d] == 0) arm(d);
			a->exec(op);
		}
		depth = was;
		op.f = ++clk;
	}
}
static void onTrap(int, siginfo_t *, void * u)
{
	ucontext_t * c = (ucontext_t *)u;
	unsigned char * pc = (unsigned char *)c->uc_mcontext.gregs[REG_RIP];
	if (counting)
	{
		for (auto * q : found) if (q == pc) return;
		if (found.size() < found.capacity()) found.push_back(pc);
		return;
	}
	const int d = depth;
	--pc;
	if (stops[d].empty() || stops[d].front() != pc || *pc != 0xCC) { fprintf(stderr, "stray trap\n"); _exit(79); }
	*pc = saved;
	c->uc_mcontext.gregs[REG_RIP] = (greg_t)pc;
	stops[d].erase(stops[d].begin());
	if (d + 1 < (int)prog.size())
	{
		size_t all = prog[d + 1].size();
		runLevel(d + 1, stops[d].empty() ? all : std::min(all, done_[d + 1] + 1));
		undo(d + 1);
	}
	depth = d;
	if (!stops[d].empty()) arm(d);
}
static std::vector<unsigned char *> stepCount(int d)
{
	start();
	counting = true;
	found.clear();
	found.reserve(4000);
	for (int k = 0; k < 4; ++k) { stops[k].clear(); done_[k] = 0; }
	runLevel(d, 1);		// the first operation of the thread is the one that is interrupted
	counting = false;
	std::vector<unsigned char *> v;
	const unsigned char * lo = (const unsigned char *)&__executable_start, * hi = (const unsigned char *)&etext;
	for (auto * q : found) if (q >= lo && q < hi && (q < (unsigned char *)trapOff || q > (unsigned char *)trapOff + 64) && (q < (unsigned char *)runLevel || q > (unsigned char *)runLevel + 1024)) v.push_back(q);
	for (auto * q : v) writable(q);
	return v;
}
static void stepRun(std::vector<unsigned char *> s0, std::vector<unsigned char *> s1)
{
	start();
	clk = 0;
	depth = 0;
	for (int k = 0; k < 4; ++k) { stops[k].clear(); done_[k] = 0; }
	stops[0] = s0;
	stops[1] = s1;
	for (int k = 0; k < (int)prog.size(); ++k)	// whatever was not reached runs afterwards
	{
		runLevel(k, prog[k].size());
		if (k == 0) { undo(0); }
		undo(1);
	}
	outcome();
}

// ---------------------------------------------------------------- real threads
static std::atomic<long> epoch{0}, ready{0}, arrived{0}, gclk{0};
static std::atomic<int> nthreads{0};
static bool timed;
static void work(int t)
{
	long last = 0;
	unsigned rnd = 12345u + 777u * t;
	for (;;)
	{
		for (int k = 0; epoch.load(std::memory_order_acquire) == last; ++k) if (k > 20000) sched_yield();
		last = epoch.load();
		if (t >= (int)prog.size()) { continue; }
		rnd = rnd * 1103515245u + 12345u;
		arrived.fetch_add(1);
		const int n = (int)prog.size();
		for (int k = 0; arrived.load(std::memory_order_acquire) < n; ++k) if (k > 3000) sched_yield();
		for (volatile unsigned d = (rnd >> 16) % 24; d > 0; d = d - 1) {}
		Op * op = prog[t].data();
		Op * end = op + prog[t].size();
		if (timed)
			for (; op != end; ++op) { op->s = gclk.fetch_add(1) + 1; A->exec(*op); op->f = gclk.fetch_add(1) + 1; }
		else
			for (; op != end; ++op) A->exec(*op);
		ready.fetch_add(1, std::memory_order_release);
	}
}
static void parRun(long reps, bool tm)
{
	while (nthreads.load() < 3) { int t = nthreads.fetch_add(1); std::thread(work, t).detach(); }
	timed = tm;
	for (long r = 0; r < reps; ++r)
	{
		start();
		gclk = 0;
		for (auto & p : prog) for (auto & x : p) { x.s = 0; x.f = 1000000; }
		arrived = 0;
		ready = 0;
		epoch.fetch_add(1);
		for (int k = 0; ready.load(std::memory_order_acquire) < (long)prog.size(); ++k) if (k > 3000) sched_yield();
		outcome();
	}
}

void vtBegin()
{
	struct sigaction s{};
	s.sa_sigaction = onTrap;
	s.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGTRAP, &s, nullptr);
	init.clear(); prog.clear(); seen.clear();
}
void vtEnd() { Ev("End").emit(); }
void vtExec(Toks & t)
{
	const std::string op = t.op();
	if (op == "init")
	{
		TY = t.s();
		A = pick(TY);
		init.clear(); prog.clear(); seen.clear();
		while (t.more()) init.push_back(strtoull(t.s().c_str(), nullptr, 16));
	}
	else if (op == "th")
	{
		prog.emplace_back();
		while (t.more())
		{
			std::string x = t.s();
			size_t a = x.find(':'), b = x.find(':', a + 1);
			Op o{};
			o.k = -1;
			for (int k = 0; k < 15; ++k) if (x.substr(0, a) == KIND[k]) o.k = k;
			if (o.k < 0) badop(t);
			o.o = atoi(x.substr(a + 1, b - a - 1).c_str());
			uint64_t v = strtoull(x.substr(b + 1).c_str(), nullptr, 16);
			o.a = A->bits() == 64 ? v : v & ((1ull << A->bits()) - 1);
			prog.back().push_back(o);
		}
	}
	else if (op == "step")
	{
		auto n = stepCount(0);
		if (n.size() < 3) { fprintf(stderr, "no instructions found\n"); _exit(77); }
		if (prog.size() < 3) for (auto * p : n) stepRun({p}, {});
		else
		{
			auto m = stepCount(1);
			size_t every = t.more() ? t.i() : 1, k = 0;
			for (auto * p : n) for (auto * r : m) if (k++ % every == 0) stepRun({p}, {r});
		}
	}
	else if (op == "split")
	{
		auto n = stepCount(0);
		size_t every = t.more() ? t.i() : 1, k = 0;
		for (size_t i = 0; i < n.size(); ++i) for (size_t j = i + 1; j < n.size(); ++j) if (k++ % every == 0) stepRun({n[i], n[j]}, {});
	}
	else if (op == "par") parRun(t.i(), false);
	else if (op == "timed") parRun(t.i(), true);
	else badop(t);
}
