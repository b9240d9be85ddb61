// Vectors (C20)
#define VT_MAIN
#include "common.h"
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "math/math.h"
#include "math/simd.h"
using namespace vt;

template<typename T> constexpr bool isf = false;
template<> constexpr bool isf<float32> = true;
template<> constexpr bool isf<float64> = true;
// a component in the unit of the specification (64ths of floating-point numbers)
template<typename T> static long long out(T v, double unit = 64)
{
	if constexpr (isf<T>)
	{
		const double d = (double)v * unit;
		if (!(d > -2e9 && d < 2e9) || d != (double)(long long)d) return 2000000001ll;
		return (long long)d;
	}
	else return sizeof(T) == 4 && T(-1) > T(0) ? clampu((unsigned long long)v) : clampi((long long)v);
}
template<typename T> static T in(long long v) { if constexpr (isf<T>) return T(v) / T(64); else return T(v); }

template<typename T> struct Bank
{
	Vec2<T> v2[4]; Vec3<T> v3[4]; Vec4<T> v4[4];
	template<int n> auto & get() { if constexpr (n == 2) return v2; else if constexpr (n == 3) return v3; else return v4; }
};
static Bank<float32> * bf; static Bank<float64> * bd; static Bank<int32> * bi; static Bank<uint32> * bu; static Bank<int64> * bl;
template<typename F> static void withT(const std::string & T, F && f)
{
	switch (T[0])
	{
		case 'f': f(*bf); break;
		case 'd': f(*bd); break;
		case 'i': f(*bi); break;
		case 'u': f(*bu); break;
		default: f(*bl);
	}
}
template<int N> struct Dim { static constexpr int n = N; };
template<typename F> static void withN(int n, F && f) { if (n == 2) f(Dim<2>{}); else if (n == 3) f(Dim<3>{}); else f(Dim<4>{}); }

template<typename T> static bool names(const Vec2<T> & v, std::vector<T> & o) { o = {v.x, v.y}; return v.u == v.x && v.v == v.y; }
template<typename T> static bool names(const Vec3<T> & v, std::vector<T> & o) { o = {v.x, v.y, v.z}; return v.r == v.x && v.g == v.y && v.b == v.z; }
template<typename T> static bool names(const Vec4<T> & v, std::vector<T> & o) { o = {v.x, v.y, v.z, v.w}; return true; }
template<typename T> static T & named(Vec2<T> & v, int i, bool other) { return i == 0 ? (other ? v.u : v.x) : (other ? v.v : v.y); }
template<typename T> static T & named(Vec3<T> & v, int i, bool other) { return i == 0 ? (other ? v.r : v.x) : i == 1 ? (other ? v.g : v.y) : (other ? v.b : v.z); }
template<typename T> static T & named(Vec4<T> & v, int i, bool) { return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w; }

template<typename T> static void rf(Ev & e, Bank<T> & b)
{
	bool same = true;
	std::string o = "[";
	for (int n = 2; n <= 4; ++n) withN(n, [&](auto N)
	{
		const auto & bank = b.template get<decltype(N)::n>();
		o += n > 2 ? ",[" : "[";
		for (int k = 1; k <= 3; ++k)
		{
			std::vector<T> x;
			std::vector<long long> y;
			same &= names(bank[k], x);
			for (int i = 0; i < n; ++i) { same &= bank[k][i] == x[i] && bank[k].array[i] == x[i]; y.push_back(out(x[i])); }
			o += (k > 1 ? "," : "") + seq(y);
		}
		o += "]";
	});
	e.raw("rf", o + "]").b("same", same);
}
template<typename V, typename W> static V op2(const std::string & op, const V & a, const W & b) { return op == "add" ? V(a + b) : op == "sub" ? V(a - b) : op == "mul" ? V(a * b) : V(a / b); }
template<typename V, typename T> static V sop(const std::string & op, T s, const V & a) { return op == "add" ? s + a : op == "sub" ? s - a : op == "mul" ? s * a : s / a; }
template<typename V, typename W> static bool cop(const std::string & op, V & a, const W & b)
{
	V & r = op == "add" ? a += b : op == "sub" ? a -= b : op == "mul" ? a *= b : a /= b;
	return &r == &a;
}
// the scalar is a component of the vector itself
template<typename V, typename T> static V & copref(const std::string & op, V & a, T & c) { return op == "add" ? a += c : op == "sub" ? a -= c : op == "mul" ? a *= c : a /= c; }

void vtBegin() { bf = new Bank<float32>; bd = new Bank<float64>; bi = new Bank<int32>; bu = new Bank<uint32>; bl = new Bank<int64>; }
void vtEnd() { delete bf; delete bd; delete bi; delete bu; delete bl; Ev("End").emit(); }

void vtExec(Toks & t)
{
	const std::string op = t.op();
	if (op == "simd")
	{
		const std::string o = t.s();
		const int a = (int)t.i(), b = (int)t.i(), how = (int)t.i();
		using S = Vector4<float32>;
		alignas(16) float32 x[4], y[4], mem[8]; float32 * z = how & 1 ? mem + 1 : mem;
		for (int i = 0; i < 4; ++i) x[i] = bf->v4[a][i], y[i] = bf->v4[b][i];
		for (auto & m : mem) m = 777;
		S::Type u = how & 2 ? S::load(x[0], x[1], x[2], x[3]) : how & 4 ? S::loadu(x) : S::load(x);
		S::Type v = y[0] == y[1] && y[1] == y[2] && y[2] == y[3] && how & 8 ? S::load(y[0]) : S::loadu(y);
		S::store(z, o == "add" ? S::add(u, v) : o == "sub" ? S::sub(u, v) : o == "mul" ? S::mul(u, v) : S::div(u, v));
		std::vector<long long> r;
		for (int i = 0; i < 4; ++i) r.push_back(out(z[i]));
		if (mem[how & 1 ? 0 : 4] != 777 || mem[5] != 777) r.push_back(1);
		Ev e("Simd"); e.str("op", o).i("a", a).i("b", b).sq("r", r).emit();
		return;
	}
	if (op == "const")
	{
		const int n = (int)t.i(); const std::string c = t.s();
		std::vector<long long> r;
		auto put = [&](const auto & v, int m) { for (int i = 0; i < m; ++i) r.push_back(out(v[i])); };
		using V = Vec3<float32>;
		if (n == 2) put(c == "zero" ? Vec2<float32>::zero : Vec2<float32>::unit, 2);
		else if (n == 4) put(c == "zero" ? Vec4<float32>::zero : Vec4<float32>::unit, 4);
		else put(c == "zero" ? V::zero : c == "unit" ? V::unit : c == "right" ? V::right : c == "left" ? V::left : c == "up" ? V::up : c == "down" ? V::down : c == "forward" ? V::forward : V::backward, 3);
		Ev e("Const"); e.i("n", n).str("c", c).sq("r", r).emit();
		return;
	}
	const std::string T = t.s();
	const int n = (int)t.i();
	if (op == "conv")
	{
		const std::string U = t.s();
		const int k = (int)t.i(), a = (int)t.i();
		withT(T, [&](auto & b) { withT(U, [&](auto & c) { withN(n, [&](auto N)
		{
			const auto & from = c.template get<decltype(N)::n>()[a];
			auto & to = b.template get<decltype(N)::n>()[k];
			using To = std::remove_reference_t<decltype(to)>;
			if constexpr (std::is_same<To, std::remove_cv_t<std::remove_reference_t<decltype(from)>>>::value) to = from;
			else to = static_cast<To>(from);
		}); });
		Ev e("Conv"); e.str("T", T).i("n", n).str("U", U).i("k", k).i("a", a); rf(e, b); e.emit(); });
		return;
	}
	withT(T, [&](auto & bank) { withN(n, [&](auto N)
	{
		auto & v = bank.template get<decltype(N)::n>();
		using V = std::remove_reference_t<decltype(v[0])>;
		using C = std::remove_reference_t<decltype(v[0].x)>;
		constexpr int n = decltype(N)::n;
		auto fin = [&](Ev & e) { rf(e, bank); e.emit(); };
		if (op == "set")
		{
			const int k = (int)t.i(), via = (int)t.i();
			std::vector<long long> w; std::vector<C> x;
			for (int i = 0; i < n; ++i) { w.push_back(t.i()); x.push_back(in<C>(w.back())); }
			bool all = true; for (auto y : w) all &= y == w[0];
			if (via == 1 && all) v[k] = V(x[0]);
			else if (via == 2) { v[k] = V(); for (int i = 0; i < n; ++i) v[k][i] = x[i]; }
			else if constexpr (n == 2) v[k] = V{x[0], x[1]};
			else if constexpr (n == 3) v[k] = V{x[0], x[1], x[2]};
			else v[k] = V{x[0], x[1], x[2], x[3]};
			Ev e("Set"); e.str("T", T).i("n", n).i("k", k).sq("v", w); fin(e);
		}
		else if (op == "setc")
		{
			const int k = (int)t.i(), i = (int)t.i(), via = (int)t.i(); const long long x = t.i();
			C c = in<C>(x);
			if (via == 0) v[k][i - 1] = c; else if (via == 1) v[k].array[i - 1] = c; else named(v[k], i - 1, via == 3) = c;
			Ev e("SetC"); e.str("T", T).i("n", n).i("k", k).i("i", i).i("x", x); fin(e);
		}
		else if (op == "copy") { const int k = (int)t.i(), a = (int)t.i(); V c{v[a]}; v[k] = c; Ev e("Copy"); e.str("T", T).i("n", n).i("k", k).i("a", a); fin(e); }
		else if (op == "bin" || op == "cmpd")
		{
			const std::string o = t.s();
			const int k = (int)t.i(), a = (int)t.i(), b = (int)t.i();
			bool self = true;
			if (op == "bin") v[k] = op2(o, (const V &)v[a], (const V &)v[b]);
			else self = cop(o, v[a], (const V &)v[b]);
			Ev e(self ? "Bin" : "NotSelf"); e.str("T", T).i("n", n).str("op", o).i("k", k).i("a", a).i("b", b); fin(e);
		}
		else if (op == "vecs" || op == "cmpds" || op == "svec")
		{
			const std::string o = t.s();
			const int k = (int)t.i(), a = (int)t.i(); const long long s = t.i();
			bool self = true;
			if (op == "vecs") v[k] = op2(o, (const V &)v[a], in<C>(s));
			else if (op == "svec") v[k] = sop(o, in<C>(s), (const V &)v[a]);
			else self = cop(o, v[a], in<C>(s));
			Ev e(!self ? "NotSelf" : op == "svec" ? "SVec" : "VecS"); e.str("T", T).i("n", n).str("op", o).i("k", k).i("a", a).i("s", s); fin(e);
		}
		else if (op == "vecc" || op == "cmpdc")
		{
			const std::string o = t.s();
			const int k = (int)t.i(), a = (int)t.i(), b = (int)t.i(), i = (int)t.i();
			if (op == "vecc") v[k] = op2(o, (const V &)v[a], v[b][i - 1]);
			else copref(o, v[a], v[b][i - 1]);
			Ev e("VecC"); e.str("T", T).i("n", n).str("op", o).i("k", k).i("a", a).i("b", b).i("i", i); fin(e);
		}
		else if (op == "neg") { const int k = (int)t.i(), a = (int)t.i(); v[k] = -((const V &)v[a]); Ev e("Neg"); e.str("T", T).i("n", n).i("k", k).i("a", a); fin(e); }
		else if (op == "dot") { const int a = (int)t.i(), b = (int)t.i(); const C r = (const V &)v[a] & v[b]; Ev e("Dot"); e.str("T", T).i("n", n).i("a", a).i("b", b).i("r", out(r, 4096)); fin(e); }
		else if (op == "sq") { const int a = (int)t.i(); const C r = ((const V &)v[a]).getSquaredSize(); Ev e("Sq"); e.str("T", T).i("n", n).i("a", a).i("r", out(r, 4096)); fin(e); }
		else if (op == "size") { const int a = (int)t.i(); long long r = 0; if constexpr (isf<C>) r = out(((const V &)v[a]).getSize()); Ev e("Size"); e.str("T", T).i("n", n).i("a", a).i("r", r); fin(e); }
		else if (op == "norm")
		{
			// in place or a new vector, which must be the same; in 1024ths, rounded
			const int a = (int)t.i();
			if constexpr (isf<C>)
			{
				V c{v[a]}; V & self = c.normalize(); const V d = ((const V &)v[a]).getNormal();
				std::vector<long long> r;
				bool same = &self == &c;
				for (int i = 0; i < n; ++i) { same &= c[i] == d[i]; r.push_back((long long)__builtin_floor((double)d[i] * 1024 + 0.5)); }
				Ev e(same ? "Norm" : "NotSelf"); e.str("T", T).i("n", n).i("a", a).sq("r", r); fin(e);
			}
		}
		else if (op == "cross")
		{
			const int k = (int)t.i(), a = (int)t.i(), b = (int)t.i();
			if constexpr (n < 4) bank.v3[k] = (const V &)v[a] ^ v[b];
			Ev e("Cross"); e.str("T", T).i("n", n).i("k", k).i("a", a).i("b", b); fin(e);
		}
		else if (op == "cmp")
		{
			const int i = (int)t.i(), j = (int)t.i();
			const V & a = v[i], & b = v[j];
			std::vector<int> m{a.cmpeq(b), a.cmpne(b), a.cmplt(b), a.cmpgt(b), a.cmple(b), a.cmpge(b)};
			std::string h = "[";
			for (bool x : {a == b, a != b, a < b, a > b, a <= b, a >= b}) h += std::string(h.size() > 1 ? "," : "") + (x ? "true" : "false");
			Ev e("Cmp"); e.str("T", T).i("n", n).i("a", i).i("b", j).sq("m", m).raw("h", h + "]"); fin(e);
		}
		else if (op == "near")
		{
			const int a = (int)t.i();
			if constexpr (n == 3 && isf<C>) { const bool r = v[a].isNearlyZero(); Ev e("Near"); e.str("T", T).i("a", a).b("r", r); fin(e); }
		}
		else if (op == "ext")
		{
			const int k = (int)t.i(), a = (int)t.i(); const long long x = t.i();
			if constexpr (n == 3) v[k] = Vec3<C>(bank.v2[a], in<C>(x));
			else if constexpr (n == 4) { if (x == 0 && t.i()) v[k] = Vec4<C>(bank.v3[a]); else v[k] = Vec4<C>(bank.v3[a], in<C>(x)); }
			Ev e("Ext"); e.str("T", T).i("n", n).i("k", k).i("a", a).i("x", x); fin(e);
		}
		else if (op == "drop") { const int k = (int)t.i(), a = (int)t.i(); bank.v3[k] = (Vec3<C>)bank.v4[a]; Ev e("Drop"); e.str("T", T).i("k", k).i("a", a); fin(e); }
		else badop(t);
	}); });
}
