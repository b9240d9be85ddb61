// Compile-time names (C24): the declarations are generated
#define VT_MAIN
#include <array>
#include <utility>
#include "common.h"
#include "core_types.h"
#include "templates/name.h"
#include "containers/string.h"
using namespace vt;

struct Entry
{
	const char * event; const char * fields;
	const Name * name;
	std::vector<int> (*ct)();		// read during compilation
	long len;				// length of a concatenation, or -1
};
template<const Name & n, size_t ...I> constexpr auto read(std::index_sequence<I...>) { return std::array<int, sizeof...(I) + 1>{(int)(unsigned char)n[I]..., 0}; }
template<const Name & n> std::vector<int> ctRead()
{
	constexpr auto v = read<n>(std::make_index_sequence<n.getLength()>());
	return std::vector<int>(v.begin(), v.end() - 1);
}
struct Scenario { const Entry * e; int n; };
#include "generated_names.h"

void vtBegin() {}
void vtEnd() { Ev("End").emit(); }
static std::vector<int> codes(const char * p, size_t n) { std::vector<int> v; for (size_t i = 0; i < n && i < 5000; ++i) v.push_back((unsigned char)p[i]); return v; }
void vtExec(Toks & t)
{
	const Scenario & s = scenarios[t.i()];
	std::string all;
	for (int i = 0; i < s.n; ++i)
	{
		const Entry & e = s.e[i];
		Ev v(e.event);
		v.s += e.fields;
		if (e.len >= 0) v.i("len", e.len);
		// every name so far, also from a copy
		std::string o = "[";
		for (int k = 0; k <= i; ++k)
		{
			const Name & n = *s.e[k].name;
			const Name c{n};
			std::vector<int> x;
			for (size_t j = 0; j < n.getLength() && j < 5000; ++j) x.push_back((unsigned char)c[j]);
			const String str{n};
			o += std::string(k ? "," : "") + "{\"len\":" + std::to_string(c.getLength()) + ",\"p\":" + seq(codes(*n, n.getLength())) + ",\"x\":" + seq(x)
				+ ",\"c\":" + seq(s.e[k].ct()) + ",\"s\":" + seq(codes(*str, str.getLength())) + ",\"z\":" + std::to_string((unsigned char)(*n)[n.getLength()]) + "}";
		}
		v.raw("all", o + "]").emit();
	}
}
