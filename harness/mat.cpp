// 4x4 matrices (C21): mat <element type>
#define VT_MAIN
#include "common.h"
#include <utility>
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "math/mat4.h"
using namespace vt;

struct Base { virtual void exec(Toks &) = 0; virtual ~Base() {} };
template<typename E> struct Run : Base
{
	using M = Mat4<E>;
	M m[4];
	Run() { for (M & x : m) x = M(E(0)); }
	static E in(long long x) { return E(x); }
	static long long out(const E & x) { return (long long)x; }
	static E & field(M & x, int i)
	{
		E * const f[16] = {&x.a, &x.b, &x.c, &x.d, &x.e, &x.f, &x.g, &x.h, &x.i, &x.j, &x.k, &x.l, &x.m, &x.n, &x.o, &x.p};
		return *f[i];
	}
	void fin(Ev & e)
	{
		bool same = true;
		std::string o = "[";
		for (int k = 1; k <= 3; ++k)
		{
			const M & c = m[k];
			std::vector<long long> v;
			for (int i = 0; i < 16; ++i)
			{
				const E & x = c(i);
				v.push_back(out(x));
				const E * r[] = {&c[i / 4][i % 4], &c(i / 4, i % 4), *c + i, &c.vec[i], &c.mat[i / 4][i % 4], &field(m[k], i), &m[k][i / 4][i % 4], &m[k](i / 4, i % 4), &m[k](i), *m[k] + i};
				for (const E * y : r) same &= *y == x;
			}
			o += (k > 1 ? "," : "") + seq(v);
		}
		e.raw("m", o + "]").b("same", same).emit();
	}
	template<size_t... I> static void list(M & to, const E * v, std::index_sequence<I...>) { to = M(v[0], v[1], v[I + 2]...); }
	void exec(Toks & t) override
	{
		const std::string op = t.op();
		if (op == "cmp")
		{
			const int a = (int)t.i(), b = (int)t.i();
			Ev e("Cmp"); e.i("a", a).i("b", b).i("mask", ((const M &)m[a]).cmp(m[b])).b("eq", (const M &)m[a] == m[b]).b("ne", (const M &)m[a] != m[b]); fin(e);
			return;
		}
		const int k = (int)t.i();
		M & x = m[k];
		if (op == "scalar") { const long long s = t.i(); const E c = in(s); x = M(c); Ev e("Scalar"); e.i("k", k).i("x", s); fin(e); }
		else if (op == "list" || op == "buffer")
		{
			std::vector<long long> v; E w[16] = {};
			const int n = (int)t.i();
			for (int i = 0; i < n; ++i) { v.push_back(t.i()); w[i] = in(v.back()); }
			if (op == "buffer") { const E * p = w; M y(p); x = y; }
			else if (n == 16) list(x, w, std::make_index_sequence<14>());
			else if (n == 12) list(x, w, std::make_index_sequence<10>());
			else if (n == 5) list(x, w, std::make_index_sequence<3>());
			else list(x, w, std::make_index_sequence<0>());
			Ev e(op == "list" ? "List" : "Buffer"); e.i("k", k).sq("v", v); fin(e);
		}
		else if (op == "write")
		{
			const int i = (int)t.i(), j = (int)t.i(), via = (int)t.i(); const long long s = t.i(); const E c = in(s);
			switch (via)
			{
				case 0: x[i][j] = c; break;
				case 1: x(i, j) = c; break;
				case 2: x(4 * i + j) = c; break;
				case 3: (*x)[4 * i + j] = c; break;
				case 4: x.vec[4 * i + j] = c; break;
				case 5: x.mat[i][j] = c; break;
				default: field(x, 4 * i + j) = c;
			}
			Ev e("Write"); e.i("k", k).i("i", i).i("j", j).i("x", s); fin(e);
		}
		else if (op == "copy") { const int a = (int)t.i(); M y{(const M &)m[a]}; x = y; Ev e("Copy"); e.i("k", k).i("a", a); fin(e); }
		else if (op == "assign") { const int a = (int)t.i(); x = m[a]; Ev e("Assign"); e.i("k", k).i("a", a); fin(e); }
		else if (op == "transpose") { M & r = x.transpose(); Ev e("Transpose"); e.i("k", k).b("self", &r == &x); fin(e); }
		else badop(t);
	}
};
static Base * r;
void vtBegin()
{
	const std::string s = args[0];
	if (s == "f") r = new Run<float32>; else if (s == "d") r = new Run<float64>; else if (s == "b") r = new Run<int8>;
	else if (s == "u") r = new Run<uint16>; else if (s == "i") r = new Run<int32>; else r = new Run<int64>;
}
void vtEnd() { delete r; Ev("End").emit(); }
void vtExec(Toks & t) { r->exec(t); }
