// Quaternions (C21)
#define VT_MAIN
#include "common.h"
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "math/math.h"
using namespace vt;

static Quat * qs;
static long long shown(double x, double unit = 65536)
{
	const double d = __builtin_floor(x * unit + 0.5);
	return d > -2e9 && d < 2e9 ? (long long)d : 2000000001ll;
}
template<typename V> static std::vector<long long> comps(const V & v, int n, double unit = 65536)
{
	std::vector<long long> r;
	for (int i = 0; i < n; ++i) r.push_back(shown(v[i], unit));
	return r;
}
static std::string all() { std::string o = "["; for (int k = 0; k < 4; ++k) o += (k ? "," : "") + seq(comps(qs[k], 4)); return o + "]"; }
static void fin(Ev & e) { e.raw("q", all()).emit(); }

void vtBegin() { qs = new Quat[4]; }
void vtEnd() { delete[] qs; Ev("End").emit(); }
void vtExec(Toks & t)
{
	const std::string op = t.op();
	const int k = (int)t.i();
	Quat & x = qs[k - 1];
	if (op == "default") { Quat y; x = y; Ev e("Default"); e.i("k", k); fin(e); }
	else if (op == "set")
	{
		std::string o = "[";
		for (int i = 0; i < 4; ++i) { const long long c = t.i(); x[i] = float32(c) / 64; o += (i ? ",[" : "[") + std::to_string(c) + ",0]"; }
		Ev e("Set"); e.i("k", k).raw("c", o + "]"); fin(e);
	}
	else if (op == "copy") { const int a = (int)t.i(); Quat y{qs[a - 1]}; x = y; Ev e("Copy"); e.i("k", k).i("a", a); fin(e); }
	else if (op == "mul") { const int a = (int)t.i(), b = (int)t.i(); x = (const Quat &)qs[a - 1] * (const Quat &)qs[b - 1]; Ev e("Mul"); e.i("k", k).i("a", a).i("b", b); fin(e); }
	else if (op == "inv") { const int a = (int)t.i(); x = -(const Quat &)qs[a - 1]; Ev e("Inv"); e.i("k", k).i("a", a); fin(e); }
	else if (op == "angle" || op == "vector")
	{
		std::vector<int> a; double l = 0;
		for (int i = 0; i < 3; ++i) { a.push_back((int)t.i()); l += a[i] * a[i]; }
		const int n = (int)t.i();
		const double angle = n * 3.14159265358979323846 / 12, s = 1 / __builtin_sqrt(l);
		Vec3<float32> v{float32(a[0] * s), float32(a[1] * s), float32(a[2] * s)};
		if (op == "angle") x = Quat{float32(angle), v};
		else x = Quat{Vec3<float32>{float32(a[0] * s * angle), float32(a[1] * s * angle), float32(a[2] * s * angle)}};
		Ev e(op == "angle" ? "FromAngle" : "FromVector"); e.i("k", k).sq("a", a).i("n", n); fin(e);
	}
	else if (op == "null") { x = Quat{Vec3<float32>{0.f, 0.f, 0.f}}; Ev e("FromNull"); e.i("k", k); fin(e); }
	else if (op == "turn")
	{
		std::vector<long long> v;
		for (int i = 0; i < 3; ++i) v.push_back(t.i());
		const Vec3<float32> w{float32(v[0]), float32(v[1]), float32(v[2])};
		Ev e("Turn"); e.i("k", k).sq("v", v).sq("r", comps((const Quat &)x * w, 3)); fin(e);
	}
	else if (op == "axes")
	{
		const auto a = ((const Quat &)x).getAxes();
		std::string o = "[";
		for (int i = 0; i < 3; ++i) o += (i ? "," : "") + seq(comps(a[i], 3));
		Ev e("Axes"); e.i("k", k).raw("r", o + "]"); fin(e);
	}
	else if (op == "dirs")
	{
		const Quat & y = x;
		std::string o = "[";
		for (const Vec3<float32> & v : {y.getRight(), y.getLeft(), y.getUp(), y.getDown(), y.getForward(), y.getBackward()}) o += (o.size() > 1 ? "," : "") + seq(comps(v, 3));
		Ev e("Dirs"); e.i("k", k).raw("r", o + "]"); fin(e);
	}
	else if (op == "readangle") { Ev e("Angle"); e.i("k", k).i("n", shown(((const Quat &)x).getAngle())); fin(e); }
	else if (op == "readaxis")
	{
		float32 a = 0; Vec3<float32> v;
		((const Quat &)x).getAngleAndAxis(a, v);
		Ev e("Axis"); e.i("k", k).i("n", shown(a)).sq("r", comps(v, 3, 1024)); fin(e);
	}
	else if (op == "size") { Ev e("Size"); e.i("k", k).i("r", shown(((const Quat &)x).getSquaredSize(), 64)); fin(e); }
	else badop(t);
}
