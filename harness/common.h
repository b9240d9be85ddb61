// Shared by all harnesses: script reader, event log, element type with observable lifetime,
// recording allocator.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <sstream>
#include <functional>
#include <memory>
#include <new>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace vt
{
	extern int fd;
	extern std::vector<std::string> args;	// extra command line arguments

	inline bool arg(const char * a) { for (auto & x : args) if (x == a) return true; return false; }

	// TLC integers are 32 bits; anything beyond is logged as a sentinel that no model value equals
	inline long long clampi(long long v)
	{
		if (v > 2000000000ll) return 2000000001ll;
		if (v < -2000000000ll) return -2000000001ll;
		return v;
	}
	inline long long clampu(unsigned long long v) { return v > 2000000000ull ? 2000000001ll : (long long)v; }

	inline std::string q(const std::string & s)
	{
		std::string o = "\"";
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { o += '\\'; o += c; }
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
			else o += c;
		}
		return o + "\"";
	}
	template<typename V> std::string seq(const V & v)
	{
		std::string o = "[";
		bool first = true;
		for (auto x : v) { if (!first) o += ","; first = false; o += std::to_string(clampi((long long)x)); }
		return o + "]";
	}

	struct Ev
	{
		std::string s;
		explicit Ev(const std::string & name) : s("{\"e\":\"" + name + "\"") {}
		Ev & i(const char * k, long long v) { s += std::string(",\"") + k + "\":" + std::to_string(clampi(v)); return *this; }
		Ev & u(const char * k, unsigned long long v) { s += std::string(",\"") + k + "\":" + std::to_string(clampu(v)); return *this; }
		Ev & b(const char * k, bool v) { s += std::string(",\"") + k + "\":" + (v ? "true" : "false"); return *this; }
		Ev & str(const char * k, const std::string & v) { s += std::string(",\"") + k + "\":" + q(v); return *this; }
		Ev & raw(const char * k, const std::string & v) { s += std::string(",\"") + k + "\":" + v; return *this; }
		template<typename V> Ev & sq(const char * k, const V & v) { return raw(k, seq(v)); }
		void emit()
		{
			s += "}\n";
			size_t off = 0;
			while (off < s.size())
			{
				ssize_t n = ::write(fd, s.data() + off, s.size() - off);
				if (n <= 0) _exit(76);
				off += n;
			}
		}
	};

	// ---------------------------------------------------------------- observable lifetimes
	struct Registry
	{
		std::unordered_map<const void *, int> alive;
		long errors = 0;
		std::string first;
		void bad(const char * w) { ++errors; if (first.empty()) first = w; }
		// life events since the last call: 3 * place + {0 born, 1 destroyed, 2 used}
		bool rec = false;
		std::vector<int> log;
		std::unordered_map<const void *, int> place;
		void note(const void * p, int k)
		{
			if (!rec) return;
			int id = place.emplace(p, (int)place.size() + 1).first->second * 3 + k;
			if (log.empty() || log.back() != id || k != 2) log.push_back(id);
		}
	};
	Registry & reg();
	constexpr int MOVED = -7777;
	constexpr int DEAD = -8888;

	struct Tracked
	{
		const void * self;
		int v;
		Tracked() : self(this), v(0) { born(); }
		Tracked(int x) : self(this), v(x) { born(); }
		Tracked(const Tracked & o) : self(this), v(o.use("copy from")) { born(); }
		Tracked(Tracked && o) : self(this), v(o.use("move from")) { o.v = MOVED; born(); }
		Tracked & operator=(const Tracked & o) { use("assign to"); v = o.use("assign from"); return *this; }
		Tracked & operator=(Tracked && o) { use("assign to"); int x = o.use("assign from"); if (&o != this) o.v = MOVED; v = x; return *this; }
		~Tracked()
		{
			auto it = reg().alive.find(this);
			reg().note(this, 1);
			if (it == reg().alive.end() || self != this) reg().bad("destroyed an object that is not alive");
			else reg().alive.erase(it);
			v = DEAD; self = nullptr;
		}
		int use(const char * what) const
		{
			reg().note(this, 2);
			if (self != this || !reg().alive.count(this)) { reg().bad(what); return DEAD; }
			return v;
		}
		operator int() const { return use("read"); }
		bool operator==(const Tracked & o) const { return use("compare") == o.use("compare"); }
		bool operator!=(const Tracked & o) const { return !(*this == o); }
		bool operator<(const Tracked & o) const { return use("compare") < o.use("compare"); }
		bool operator>(const Tracked & o) const { return o < *this; }
		bool operator<=(const Tracked & o) const { return !(o < *this); }
		bool operator>=(const Tracked & o) const { return !(*this < o); }
	private:
		void born() { reg().note(this, 0); if (!reg().alive.emplace(this, 1).second) reg().bad("constructed over a living object"); }
	};

	// true when the object cannot tell, or was moved from
	template<typename T> bool gone(const T & x) { if constexpr (std::is_base_of_v<Tracked, T>) return x.use("read") == MOVED; else return true; }

	// can be moved, not copied
	struct MoveOnly : Tracked
	{
		MoveOnly() : Tracked() {}
		MoveOnly(int x) : Tracked(x) {}
		MoveOnly(const MoveOnly &) = delete;
		MoveOnly(MoveOnly && o) : Tracked((Tracked &&)o) {}
		MoveOnly & operator=(const MoveOnly &) = delete;
		MoveOnly & operator=(MoveOnly && o) { Tracked::operator=((Tracked &&)o); return *this; }
	};
	template<typename T> constexpr bool copies = true;
	template<> constexpr bool copies<MoveOnly> = false;
	// an argument: the object itself, or what may be moved from when it cannot be copied
	template<typename T> T & pass(T & x) { return x; }
	inline MoveOnly && pass(MoveOnly & x) { return (MoveOnly &&)x; }

	// Model values are small integers. Plain values are stored as they are; with wide() on, the values
	// -1..31 are spread in order over the whole range of the type (the differences of two of them need
	// not be representable), and fractional types use fractions.
	inline bool & wide() { static bool w = false; return w; }
	constexpr int ODD = -99999;
	template<typename T> struct Code { static T of(int x) { return T(x); } };
	template<> struct Code<int> { static constexpr int S = 134000000; static int of(int x) { return wide() ? (x - 15) * S : x; } static int un(int c) { return !wide() ? c : c % S ? ODD : c / S + 15; } };
	template<> struct Code<long long> { static constexpr long long S = 1ll << 58; static long long of(int x) { return wide() ? (x - 15) * S : x; } static int un(long long c) { return !wide() ? (int)c : c % S ? ODD : (int)(c / S) + 15; } };
	template<> struct Code<unsigned> { static constexpr unsigned S = 130000000; static unsigned of(int x) { return wide() ? (x + 1) * S : (unsigned)x; } static int un(unsigned c) { return !wide() ? (int)c : c % S ? ODD : (int)(c / S) - 1; } };
	template<> struct Code<unsigned long long> { static constexpr unsigned long long S = 1ull << 58; static unsigned long long of(int x) { return wide() ? (x + 1) * S : (unsigned long long)x; } static int un(unsigned long long c) { return !wide() ? (int)c : c % S ? ODD : (int)(c / S) - 1; } };
	template<> struct Code<signed char> { static signed char of(int x) { return (signed char)(wide() ? (x - 15) * 7 : x); } static int un(signed char c) { return !wide() ? c : c % 7 ? ODD : c / 7 + 15; } };
	template<> struct Code<unsigned char> { static unsigned char of(int x) { return (unsigned char)(wide() ? (x + 1) * 7 : x); } static int un(unsigned char c) { return !wide() ? c : c % 7 ? ODD : c / 7 - 1; } };
	template<> struct Code<short> { static short of(int x) { return (short)(wide() ? (x - 15) * 2000 : x); } static int un(short c) { return !wide() ? c : c % 2000 ? ODD : c / 2000 + 15; } };
	template<> struct Code<float> { static float of(int x) { return wide() ? (x - 15) * .25f : x; } static int un(float c) { int k = wide() ? (int)(c * 4.f) + 15 : (int)c; return of(k) == c ? k : ODD; } };
	template<> struct Code<double> { static double of(int x) { return wide() ? (x - 15) / 1024. : x; } static int un(double c) { int k = wide() ? (int)(c * 1024.) + 15 : (int)c; return of(k) == c ? k : ODD; } };
	template<typename T> T mk(int x) { return Code<T>::of(x); }
	inline int val(int x) { return Code<int>::un(x); }
	template<typename T, typename = decltype(Code<T>::un(T{}))> int val(const T & x) { return Code<T>::un(x); }
	inline int val(const Tracked & t) { return t.use("read"); }

	// 200 bytes without a lifetime to observe; a copy that misses a part of it is recognised, and a place it may not have
	struct alignas(64) Block
	{
		int w[50];
		Block() : Block(0) {}
		Block(int x) { for (int k = 0; k < 50; ++k) w[k] = x * 64 + k; }
		bool operator==(const Block & o) const { return !memcmp(w, o.w, sizeof(w)); }
		bool operator!=(const Block & o) const { return !(*this == o); }
		bool operator<(const Block & o) const { return w[0] < o.w[0]; }
		bool operator>(const Block & o) const { return w[0] > o.w[0]; }
	};
	inline int val(const Block & b) { uintptr_t p = (uintptr_t)&b; asm volatile("" : "+r"(p)); if (p % 64) return ODD; int x = (b.w[0] - 0) / 64; for (int k = 0; k < 50; ++k) if (b.w[k] != x * 64 + k) return ODD; return x; }

	// ---------------------------------------------------------------- script interpreter
	inline bool & muted() { static bool m = false; return m; }
	struct Toks
	{
		std::vector<std::string> t;
		size_t k = 0;
		const std::string & op() const { return t[0]; }
		bool more() const { return k + 1 < t.size(); }
		std::string s() { if (k + 1 >= t.size()) { fprintf(stderr, "missing argument: %s\n", t[0].c_str()); _exit(77); } return t[++k]; }
		long long i() { return atoll(s().c_str()); }
		unsigned long long u() { return strtoull(s().c_str(), nullptr, 0); }
		// strings are written in hex ("-" is the empty string)
		std::string h()
		{
			std::string x = s(), o;
			if (x == "-") return o;
			for (size_t j = 0; j + 1 < x.size(); j += 2) o += (char)strtol(x.substr(j, 2).c_str(), nullptr, 16);
			return o;
		}
	};
	[[noreturn]] inline void badop(Toks & t) { fprintf(stderr, "unknown operation: %s\n", t.op().c_str()); _exit(77); }
}

// Provided by each harness
void vtBegin();				// start of scenario; every slot empty
void vtExec(vt::Toks & t);		// one operation, logs one event
void vtEnd();				// destroys everything, logs what is left

#ifdef VT_MAIN
namespace vt
{
	int fd = -1;
	std::vector<std::string> args;
	Registry & reg() { static Registry * r = new Registry; return *r; }
}
static void vtTimers(int cpu)
{
	struct itimerval t{};
	t.it_value.tv_sec = cpu;
	setitimer(ITIMER_PROF, &t, nullptr);
	struct itimerval w{};
	w.it_value.tv_sec = cpu * 12 + 60;
	setitimer(ITIMER_REAL, &w, nullptr);
}
int main(int argc, char ** argv)
{
	if (argc < 4) return 77;
	for (int k = 4; k < argc; ++k) vt::args.push_back(argv[k]);
	FILE * f = fopen(argv[1], "r");
	if (!f) return 77;
	vt::fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	const int cpu = atoi(argv[3]);
	// the stack of a runaway recursion must fail quickly
	struct rlimit rl{64u << 20, 64u << 20};
	setrlimit(RLIMIT_STACK, &rl);
	struct rlimit co{0, 0};
	setrlimit(RLIMIT_CORE, &co);
	char * line = nullptr;
	size_t cap = 0;
	bool open = false;
	ssize_t n;
	while ((n = getline(&line, &cap, f)) >= 0)
	{
		while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
		if (!n) continue;
		vt::Toks t;
		std::istringstream is(line);
		std::string w;
		while (is >> w) t.t.push_back(w);
		if (t.op() == "reset")
		{
			if (open) vtEnd();
			vtTimers(cpu);
			open = true;
			vt::Ev("Reset").emit();
			vt::muted() = false;
			vtBegin();
		}
		else if (t.op() == "mute") vt::muted() = t.i();	// results only, contents are shown again later
		else vtExec(t);
	}
	if (open) vtEnd();
	vt::Ev("Done").emit();
	_exit(0);
}
#endif
