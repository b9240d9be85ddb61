// Type queries and transformations (C26): the types are generated
#define VT_MAIN
#include "common.h"
#include "core_types.h"
#include "templates/types.h"
#include "templates/base.h"
#include "templates/enable_if.h"
#include "templates/utility.h"
using namespace vt;

// the term of a type, as the compiler sees it
typedef std::vector<const char *> W;
template<class A> struct Tm;
#define BASIC(c, n) template<> struct Tm<c> { static void put(W & w) { w.push_back(n); } };
BASIC(void, "void") BASIC(bool, "bool") BASIC(char, "char") BASIC(signed char, "schar") BASIC(unsigned char, "uchar") BASIC(wchar_t, "wchar")
BASIC(short, "short") BASIC(unsigned short, "ushort") BASIC(int, "int") BASIC(unsigned, "uint") BASIC(long, "long") BASIC(unsigned long, "ulong")
BASIC(long long, "llong") BASIC(unsigned long long, "ullong") BASIC(float, "float") BASIC(double, "double") BASIC(decltype(nullptr), "null")
struct Thing { int x; };
enum Choice { ONE, TWO };
union Either { int i; float f; };
struct None {};
BASIC(Thing, "thing") BASIC(Choice, "enum") BASIC(Either, "union") BASIC(None, "none")
BASIC(int Thing::*, "member") 
#define OUTER(pat, n, in, ...) template<__VA_ARGS__> struct Tm<pat> { static void put(W & w) { w.push_back(n); Tm<in>::put(w); } };
OUTER(A *, "p", A, class A)
OUTER(A &, "l", A, class A)
OUTER(A &&, "r", A, class A)
OUTER(const A, "c", A, class A)
OUTER(volatile A, "v", A, class A)
OUTER(const volatile A, "c", volatile A, class A)
#define ARR(n, b) OUTER(A[b], n, A, class A) OUTER(const A[b], n, const A, class A) OUTER(volatile A[b], n, volatile A, class A) OUTER(const volatile A[b], n, const volatile A, class A)
ARR("a", ) ARR("a2", 2) ARR("a3", 3)
OUTER(A(), "f", A, class A)
OUTER(A(int), "fi", A, class A)
template<class A> struct Tm<A(int, ...)> { static void put(W & w) { w.push_back("fe"); Tm<A>::put(w); } };
OUTER(A() noexcept, "fn", A, class A)

template<class A> std::string term()
{
	W w; Tm<A>::put(w);
	std::string s = "[";
	for (size_t i = 0; i < w.size(); ++i) s += std::string(i ? ",\"" : "\"") + w[i] + "\"";
	return s + "]";
}
// constructors of types
template<class A> using mk_p = A *;
template<class A> using mk_l = A &;
template<class A> using mk_r = A &&;
template<class A> using mk_c = const A;
template<class A> using mk_v = volatile A;
template<class A> using mk_a = A[];
template<class A> using mk_a2 = A[2];
template<class A> using mk_a3 = A[3];
template<class A> using mk_f = A();
template<class A> using mk_fi = A(int);
template<class A> using mk_fe = A(int, ...);
template<class A> using mk_fn = A() noexcept;

template<class A> A && some();
template<class A, bool isVoid> struct Casts { static void put(Ev & e)
{
	e.raw("mv", term<decltype(move(some<A>()))>());
	e.raw("fw", term<decltype(forward<A>(some<typename RemoveReference<A>::Type &>()))>());
} };
template<class A> struct Casts<A, true> { static void put(Ev &) {} };
template<class A> struct IsL { static constexpr bool v = false; };
template<class A> struct IsL<A &> { static constexpr bool v = true; };
// functions are always lvalues
template<class A> struct IsFn { static constexpr bool v = false; };
template<class A> struct IsFn<A()> { static constexpr bool v = true; };
template<class A> struct IsFn<A(int)> { static constexpr bool v = true; };
template<class A> struct IsFn<A(int, ...)> { static constexpr bool v = true; };
template<class A> struct IsFn<A() noexcept> { static constexpr bool v = true; };
template<class A> struct IsFn<A &&> : IsFn<A> {};
template<class A, bool skip> struct Forwards { static void put(Ev & e) { e.raw("fr", term<decltype(forward<A>(some<A>()))>()); } };
template<class A> struct Forwards<A, true> { static void put(Ev &) {} };
template<class A> struct IsV { static constexpr bool v = false; };
template<> struct IsV<void> { static constexpr bool v = true; };
template<> struct IsV<const void> { static constexpr bool v = true; };
template<> struct IsV<volatile void> { static constexpr bool v = true; };
template<> struct IsV<const volatile void> { static constexpr bool v = true; };

template<class A> void row(const char * t)
{
	Ev e("Type");
	e.raw("t", t).raw("seen", term<A>());
	e.b("ptr", IsPointer<A>::value).b("ref", IsReference<A>::value).b("vol", IsVolatile<A>::value).b("arr", IsArray<A>::value)
	 .b("fun", IsCFunction<A>::value).b("void", IsVoid<A>::value).b("integ", IsIntegral<A>::value).b("same", IsSameType<A, A>::value).b("vptr", IsVoidPointer<A>::value);
	e.raw("rp", term<typename RemovePointer<A>::Type>()).raw("rap", term<typename RemoveAllPointers<A>::Type>())
	 .raw("rr", term<typename RemoveReference<A>::Type>()).raw("ra", term<typename RemoveArray<A>::Type>())
	 .raw("rv", term<typename RemoveVolatile<A>::Type>()).raw("rc", term<typename RemoveConst<A>::Type>()).raw("rcv", term<typename RemoveConstVolatile<A>::Type>())
	 .raw("ap", term<typename AddPointer<A>::Type>()).raw("nk", term<typename NakedType<A>::Type>()).raw("dc", term<typename DecayType<A>::Type>());
	Casts<A, IsV<A>::v>::put(e);
	Forwards<A, IsV<A>::v || IsL<A>::v || IsFn<A>::v>::put(e);
	e.emit();
}
template<class> struct Wrap;
template<bool b, class A> struct Enabled
{
	template<class B> static std::string get(Wrap<typename EnableIf<b, B>::Type> *) { return term<typename EnableIf<b, B>::Type>(); }
	template<class B> static std::string get(...) { return term<None>(); }
	template<class B> static std::string gett(Wrap<EnableIfT<b, B>> *) { return term<EnableIfT<b, B>>(); }
	template<class B> static std::string gett(...) { return term<None>(); }
};
template<class A, class B, bool cond> void two(const char * a, const char * b)
{
	Ev e("Two");
	e.raw("a", a).raw("b", b).b("cond", cond);
	e.b("same", IsSameType<A, B>::value).b("of", IsPointerOf<A, B>::value);
	e.raw("cho", term<typename ChooseType<cond, A, B>::Type>());
	e.raw("en", Enabled<cond, A>::template get<A>(nullptr)).raw("ent", Enabled<cond, A>::template gett<A>(nullptr));
	e.emit();
}
template<class A> Ev cls(const char * k)
{
	Ev e("Class");
	e.raw("k", k).b("ctor", IsTriviallyConstructible<A>::value).b("copy", IsTriviallyCopyable<A>::value).b("assign", IsTriviallyAssignable<A>::value)
	 .b("dtor", IsTriviallyDestructible<A>::value).b("bits", IsBitwiseCopyable<A>::value).b("triv", IsTrivial<A>::value).b("pod", IsPOD<A>::value);
	return e;
}
inline std::string flags(std::vector<bool> v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += std::string(i ? "," : "") + (v[i] ? "true" : "false"); return s + "]"; }

struct Scenario { void (*run)(); };
#include "generated_types.h"
void vtBegin() {}
void vtEnd() { Ev("End").emit(); }
void vtExec(Toks & t) { scenarios[t.i()].run(); }
