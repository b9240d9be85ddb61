#define VT_MAIN
#include "slots.h"
#include "containers/string.h"
#include "containers/list.h"
using namespace vt;

static std::vector<int> codes(const char * p, size_t n) { std::vector<int> v; for (size_t k = 0; k < n && k < 200000; ++k) v.push_back((int)(signed char)p[k]); return v; }
// contents that hold the terminator are given by length
static bool nul(const std::string & x) { return x.find('\0') != std::string::npos; }
static String str(const std::string & x) { return String(x.data(), x.size()); }
static std::vector<int> codes(const std::string & s) { return codes(s.data(), s.size()); }

struct Box : public vt::Slots<String>
{
	std::string contents(const String & c) override
	{
		for (int k = 0; k < N; ++k) if (a[k] == &c && moved[k]) return "[]";
		const size_t n = c.getLength();
		auto v = codes(*c, n);
		if ((*c)[n] != 0) v.push_back(-1000);	// not terminated
		return seq(v);
	}
	void made(int o, String * s) { a[o] = s; moved[o] = false; }
	void num(int o, const std::string & ty, const std::string & txt, int how)
	{
		String & s = *a[o];
		bool ok = true;
		auto go = [&](auto x) { if (how == 0) { String & r = (s += x); ok = &r == &s; } else if (how == 1) { String & r = (s <<= x); ok = &r == &s; } else { String r = s + x; s = r; } };
		if (ty == "i32") go((int32)strtol(txt.c_str(), 0, 10));
		else if (ty == "u32") go((uint32)strtoul(txt.c_str(), 0, 10));
		else if (ty == "i64") go((int64)strtoll(txt.c_str(), 0, 10));
		else if (ty == "u64") go((uint64)strtoull(txt.c_str(), 0, 10));
		else if (ty == "f32") go((float32)strtod(txt.c_str(), 0));
		else if (ty == "f64") go((float64)strtod(txt.c_str(), 0));
		else if (ty == "arr") { Array<int32> x; for (char ch : txt) if (ch >= '0' && ch <= '9') x.add((int32)(ch - '0')); go(x); }
		else _exit(77);
		chk(ok);
	}
	void exec(Toks & t)
	{
		const std::string op = t.op();
		int o = (int)t.i();
		if (op == "fromc") { auto x = t.h(); made(o, nul(x) ? new String(x.data(), x.size()) : new String(x.c_str())); auto e = ev("From", o); e.sq("xs", codes(x)); fin(e); return; }
		if (op == "frombuf") { auto x = t.h(); size_t n = t.u(); made(o, new String(x.data(), n)); auto e = ev("From", o); e.sq("xs", codes(x.substr(0, n))); fin(e); return; }
		if (op == "fill") { size_t n = t.u(); int ch = (signed char)t.i(); made(o, new String(n, (char)ch)); auto e = ev("Fill", o); e.u("n", n).i("c", ch); fin(e); return; }
		if (op == "cap") { size_t n = t.u(); made(o, new String(n)); auto e = ev("New", o); fin(e); return; }
		if (op == "name") { auto x = t.h(); Name nm(x.data(), x.size()); made(o, new String(nm)); auto e = ev("From", o); e.sq("xs", codes(x)); fin(e); return; }
		if (common(t, o)) return;
		String * c = a[o];
		if (op == "assignc") { auto x = t.h(); String & r = nul(x) ? (*c = str(x)) : (*c = x.c_str()); chk(&r == c); auto e = ev("Become", o); e.sq("xs", codes(x)); fin(e); }
		else if (op == "set") { int i = (int)t.i(), ch = (signed char)t.i(); if (ch % 2) (*c)[i] = (char)ch; else c->getAt(i) = (char)ch; auto e = ev("Write", o); e.i("i", i).i("c", ch); fin(e); }
		else if (op == "appc") { auto x = t.h(); String & r = nul(x) ? (*c += str(x)) : (*c += x.c_str()); chk(&r == c); auto e = ev("Append", o); e.sq("xs", codes(x)); fin(e); }
		else if (op == "appch") { int ch = (signed char)t.i(); String & r = (*c += (char)ch); chk(&r == c); auto e = ev("Append", o); e.sq("xs", std::vector<int>{ch}); fin(e); }
		else if (op == "apps") { int p = (int)t.i(); String & r = (*c += *a[p]); chk(&r == c); auto e = ev("AppendOf", o); e.i("p", p + 1); fin(e); }
		else if (op == "appown") { int i = (int)t.i(); String & r = (*c += (const char *)**c + i); chk(&r == c); auto e = ev("AppendTail", o); e.i("i", i); fin(e); }
		else if (op == "appnum" || op == "printnum" || op == "plusnum")
		{
			std::string ty = t.s(), txt = t.h();
			num(o, ty, txt, op == "appnum" ? 0 : op == "printnum" ? 1 : 2);
			auto e = ev(op == "printnum" ? "Become" : "Append", o); e.sq("xs", codes(txt)); fin(e);
		}
		else if (op == "plus") { int p = (int)t.i(), q = (int)t.i(); made(o, new String(*a[p] + *a[q])); auto e = ev("Plus", o); e.i("p", p + 1).i("q", q + 1); fin(e); }
		else if (op == "plusc") { int p = (int)t.i(); auto x = t.h(); if (x.size() == 1) made(o, new String(*a[p] + x[0])); else if (nul(x)) made(o, new String(*a[p] + str(x))); else made(o, new String(*a[p] + x.c_str())); auto e = ev("PlusC", o); e.i("p", p + 1).sq("xs", codes(x)); fin(e); }
		else if (op == "substr") { int p = (int)t.i(); size_t n = t.u(), pos = t.u(); const String & s = *a[p]; made(o, pos == 0 ? new String(s.substr(n)) : new String(s.substr(n, pos))); auto e = ev("Substr", o); e.i("p", p + 1).u("n", n).u("pos", pos); fin(e); }
		else if (op == "lower") { int p = (int)t.i(); made(o, new String(((const String &)*a[p]).toLower())); auto e = ev("Lower", o); e.i("p", p + 1); fin(e); }
		else if (op == "upper") { int p = (int)t.i(); made(o, new String(((const String &)*a[p]).toUpper())); auto e = ev("Upper", o); e.i("p", p + 1); fin(e); }
		else if (op == "format")
		{
			int w = (int)t.i(), p = (int)t.i(); int n = (int)t.i();
			const String & s = *a[p];
			std::vector<int> pre, post;
			auto lit = [](const char * x) { return codes(std::string(x)); };
			if (w == 0) made(o, new String(String::format("%s", *s)));
			else if (w == 1) { made(o, new String(String::format("<%s>%d", *s, n))); pre = lit("<"); post = lit(">"); auto d = codes(std::to_string(n)); post.insert(post.end(), d.begin(), d.end()); }
			else if (w == 2) { made(o, new String(String::format("%d%%%s", n, *s))); pre = codes(std::to_string(n) + "%"); }
			else { made(o, new String(String::format("%c%s%c", 'q', *s, 'z'))); pre = lit("q"); post = lit("z"); }
			auto e = ev("Format", o); e.i("p", p + 1).sq("pre", pre).sq("post", post); fin(e);
		}
		else if (op == "spls") { size_t pos = t.u(), n = t.u(); int p = (int)t.i(); String & r = c->splice(pos, n, *a[p]); chk(&r == c); auto e = ev("SpliceOf", o); e.u("pos", pos).u("n", n).i("p", p + 1); fin(e); }
		else if (op == "splc") { size_t pos = t.u(), n = t.u(); auto x = t.h(); String & r = x.empty() ? c->splice(pos, n) : nul(x) ? c->splice(pos, n, str(x)) : c->splice(pos, n, x.c_str()); chk(&r == c); auto e = ev("Splice", o); e.u("pos", pos).u("n", n).sq("xs", codes(x)); fin(e); }
		else if (op == "splown") { size_t pos = t.u(), n = t.u(), i = t.u(); String & r = c->splice(pos, n, (const char *)**c + i); chk(&r == c); auto e = ev("SpliceTail", o); e.u("pos", pos).u("n", n).u("i", i); fin(e); }
		// ---- search and replace
		else if (op == "findch") { int ch = (signed char)t.i(); size_t st = t.u(); const String & s = *c; int64 r = st ? s.findIndex((char)ch, st) : s.findIndex((char)ch); auto e = ev("Find", o); e.sq("xs", std::vector<int>{ch}).u("from", st).i("r", r).b("ch", true); fin(e); }
		else if (op == "findc") { auto x = t.h(); size_t st = t.u(), n = t.u(); const String & s = *c; int64 r = n ? s.findIndex(x.c_str(), st, n) : nul(x) ? s.findIndex(x.c_str(), st, x.size()) : st ? s.findIndex(x.c_str(), st) : s.findIndex(x.c_str()); auto e = ev("Find", o); e.sq("xs", codes(n ? x.substr(0, n) : x)).u("from", st).i("r", r).b("ch", false); fin(e); }
		else if (op == "finds") { auto x = t.h(); size_t st = t.u(); const String & s = *c; const String pat(x.data(), x.size()); int64 r = st ? s.findIndex(pat, st) : s.findIndex(pat); auto e = ev("Find", o); e.sq("xs", codes(x)).u("from", st).i("r", r).b("ch", false); fin(e); }
		else if (op == "findof") { int p = (int)t.i(); size_t st = t.u(); int64 r = ((const String &)*c).findIndex(*a[p], st); auto e = ev("FindOf", o); e.i("p", p + 1).u("from", st).i("r", r); fin(e); }
		else if (op == "findall")
		{
			auto x = t.h(); int how = (int)t.i();
			const String & s = *c; const String pat(x.data(), x.size());
			auto r = how == 0 || (how == 1 && nul(x)) ? s.findAll(pat) : how == 1 ? s.findAll(x.c_str()) : s.findAll(x[0]);
			std::vector<long long> v; for (uint64 k = 0; k < r.getCount(); ++k) v.push_back((long long)r[k]);
			auto e = ev("FindAll", o); e.sq("xs", how == 2 ? codes(x.substr(0, 1)) : codes(x)).sq("r", v).b("ch", how == 2); fin(e);
		}
		else if (op == "repl") { auto x = t.h(), y = t.h(); String & r = nul(x + y) ? c->replaceAll(str(x), str(y)) : c->replaceAll(x.c_str(), y.c_str()); chk(&r == c); auto e = ev("Replace", o); e.sq("xs", codes(x)).sq("ys", codes(y)); fin(e); }
		else if (op == "replof") { int p = (int)t.i(), q = (int)t.i(); String & r = c->replaceAll(*a[p], *a[q]); chk(&r == c); auto e = ev("ReplaceOf", o); e.i("p", p + 1).i("q", q + 1); fin(e); }
		else if (op == "cmp")
		{
			int p = (int)t.i();
			const String & x = *c; const String & y = *a[p]; const char * z = *y;
			auto e = ev("Compare", o);
			e.i("p", p + 1).i("d", x.cmp(y)).i("dc", x.cmp(z)).i("id", x.icmp(y)).i("idc", x.icmp(z)).i("rd", y.cmp(x)).i("ird", y.icmp(x));
			e.b("eq", x == y).b("ne", x != y).b("lt", x < y).b("gt", x > y).b("le", x <= y).b("ge", x >= y);
			e.b("eqc", x == z).b("nec", x != z).b("ltc", x < z).b("gtc", x > z).b("lec", x <= z).b("gec", x >= z);
			fin(e);
		}
		else if (op == "cmpn")
		{
			int p = (int)t.i(); size_t n = t.u(), st = t.u();
			auto e = ev("CompareN", o);
			e.i("p", p + 1).u("n", n).u("from", st).i("d", st ? PlatformStrings::cmpn(**c, **a[p], n, st) : PlatformStrings::cmpn(**c, **a[p], n)).i("id", st ? PlatformStrings::icmpn(**c, **a[p], n, st) : PlatformStrings::icmpn(**c, **a[p], n));
			fin(e);
		}
		else if (op == "query")
		{
			const String & k = *c;
			auto e = ev("Query", o);
			std::vector<int> f;
			if (!moved[o])
			{
				for (size_t j = 0; j < k.getLength(); ++j) f.push_back(j % 2 ? (*c)[j] : k.getAt(j));
				e.u("n", k.getLength()).u("n2", k.getSize()).u("n3", k.getLen()).u("n4", PlatformStrings::getLength(*k)).u("n5", k.getArray().getCount());
				e.sq("f", f).sq("d", codes(k.getData(), strlen(k.getData()))).sq("b", codes(c->getBuffer(), c->getLength()));
			}
			fin(e);
		}
		else badop(t);
	}
};
static Box * box() { static Box * b = new Box; return b; }
void vtBegin() { box()->begin(); }
void vtEnd() { box()->end(); }
void vtExec(Toks & t) { box()->exec(t); }
