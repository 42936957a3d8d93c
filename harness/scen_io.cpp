// C18..C20: extraction, formatting, round trips through text.
#include "scen.hpp"
#include <iomanip>
#include <iostream>
#include <sstream>
#include <cerrno>
#include <clocale>
#include <cstdlib>
#include <fstream>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>

static Dom const any{ 2.2250738585072014e-308, 1.7976931348623157e308, true };
static int const ioTags[]{ S, V, B, T, SP, IS, CX, DX, MV };

static char const * const wsp[]{ " ", "  ", "\t", "\n", " \n ", "\r\n", "   ", "\v", "\f", "\t\t " };
static std::string ws(Rng & r, bool maybeNone)
{
	if (maybeNone && r.chance(.4)) return "";
	std::string s = wsp[r.below(10)];
	if (r.chance(.15)) s += wsp[r.below(10)];
	if (r.chance(.02)) s += std::string(r.range(20, 400), ' ');
	return s;
}
static double anyValid(Rng & r)
{
	static Dom const d{ 2.2250738585072014e-308, 1.7976931348623157e308, true };
	for (;;)
	{
		double const x = r.chance(.3) ? anyBits(r) : num(r, d);
		if (okNum(x)) return x;
	}
}
// a decimal spelling and the value it stands for
static std::string spell(Rng & r, double x, double & val)
{
	char b[700];
	if (r.chance(.01)) // very long
	{
		std::string s = x < 0 ? "-" : "";
		s += std::string(r.range(1, 600), '0');
		snprintf(b, sizeof b, "%d.%0*d", r.range(0, 9999), r.range(1, 300), r.range(0, 999999));
		s += b;
		val = std::strtod(s.c_str(), nullptr);
		return s;
	}
	switch (r.below(9))
	{
		case 0: snprintf(b, sizeof b, "%.17g", x); break;
		case 1: snprintf(b, sizeof b, "%.*g", r.range(1, 30), x); break;
		case 2: snprintf(b, sizeof b, "%.*e", r.range(0, 40), x); break;
		case 3: snprintf(b, sizeof b, "%.*E", r.range(0, 20), x); break;
		case 4: if (std::fabs(x) < 1e20) snprintf(b, sizeof b, "%.*f", r.range(0, 60), x); else snprintf(b, sizeof b, "%.17g", x); break;
		case 5: snprintf(b, sizeof b, "%+.17g", x); break;
		case 6: snprintf(b, sizeof b, "%d", r.range(-100000, 100000)); break;
		case 7: // leading zeros, bare points
			if (r.chance(.5)) snprintf(b, sizeof b, "%s00%d.%d", r.chance(.5) ? "-" : "", r.range(0, 999), r.range(0, 99999));
			else snprintf(b, sizeof b, "%s", r.chance(.5) ? ".5" : r.chance(.5) ? "7." : "-.25e1");
			break;
		default: snprintf(b, sizeof b, "%.*g", 17, x); break;
	}
	errno = 0;
	val = std::strtod(b, nullptr);
	if (!okNum(val)) { val = r.range(-9, 9); snprintf(b, sizeof b, "%g", val); }
	return b;
}
static void format(std::ios & s, Rng & r)
{
	// output formatting state of a caller
	if (r.chance(.5)) s.setf(r.chance(.5) ? std::ios::fixed : std::ios::scientific, std::ios::floatfield);
	if (r.chance(.1)) s.setf(std::ios::fixed | std::ios::scientific, std::ios::floatfield); // hexfloat
	if (r.chance(.5)) s.precision(r.range(0, 25));
	if (r.chance(.4)) s.setf(std::ios::showpos);
	if (r.chance(.4)) s.setf(std::ios::showpoint);
	if (r.chance(.4)) s.setf(std::ios::uppercase);
	if (r.chance(.4)) s.setf(r.chance(.5) ? std::ios::left : std::ios::internal, std::ios::adjustfield);
	if (r.chance(.3)) s.setf(std::ios::boolalpha | std::ios::showbase);
	if (r.chance(.2)) s.setf(std::ios::unitbuf);
	if (r.chance(.2)) s.setf(r.chance(.5) ? std::ios::hex : std::ios::oct, std::ios::basefield);
}
namespace {
// a stream buffer as of a pipe or a terminal: gives a few characters at a time, takes one at a time, cannot seek, tells nothing
struct Drip : std::streambuf
{
	std::string text, out;
	size_t at{ 0 }, step;
	char b[8];
	Drip(std::string const & t, size_t st) : text(t), step(st) {}
	int_type underflow() override
	{
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (at >= text.size()) return traits_type::eof();
		if (!step) return traits_type::to_int_type(text[at]); // not buffered at all
		size_t const n = std::min({ step, sizeof b, text.size() - at });
		text.copy(b, n, at);
		at += n;
		setg(b, b, b + n);
		return traits_type::to_int_type(*b);
	}
	int_type uflow() override
	{
		if (step) return std::streambuf::uflow();
		int_type const ch = underflow();
		if (ch != traits_type::eof()) ++at;
		return ch;
	}
	int_type overflow(int_type ch) override { if (ch != traits_type::eof()) out += (char)ch; return traits_type::not_eof(ch); }
};
// a stream to read from: of a string, of a file, or of a buffer of another kind
struct In
{
	std::istringstream str;
	std::unique_ptr<Drip> drip;
	std::unique_ptr<std::istream> other;
	std::istream & is;
	static std::istream * make(In & s, std::string const & text, Rng & r)
	{
		uint32_t const k = r.below(100);
		if (k < 30)
		{
			s.drip.reset(new Drip(text, r.below(7)));
			s.other.reset(new std::istream(s.drip.get()));
			return s.other.get();
		}
		if (k == 30)
		{
			int const m = memfd_create("in", 0);
			if (m >= 0 && write(m, text.data(), text.size()) == (ssize_t)text.size())
				s.other.reset(new std::ifstream("/proc/self/fd/" + std::to_string(m)));
			if (m >= 0) close(m);
			if (s.other && s.other->good()) return s.other.get();
		}
		s.str.str(text);
		return &s.str;
	}
	In(std::string const & text, Rng & r) : is(*make(*this, text, r)) {}
};
// a stream to write to
struct Sink
{
	std::ostringstream str;
	Drip drip;
	std::ostream via;
	std::ostream & os;
	explicit Sink(Rng & r) : drip("", 1), via(&drip), os(r.chance(.3) ? via : str) {}
	std::string text() const { return &os == &via ? drip.out : str.str(); }
};
std::ios::iostate anyMask(Rng & r)
{
	static std::ios::iostate const m[]{ std::ios::failbit, std::ios::badbit, std::ios::eofbit, std::ios::failbit | std::ios::badbit, std::ios::failbit | std::ios::eofbit, std::ios::failbit | std::ios::badbit | std::ios::eofbit };
	return m[r.below(6)];
}
}
// numbers as in other languages: decimal comma, grouped thousands
namespace {
struct Comma : std::numpunct<char>
{
	std::string groups;
	char sep;
	Comma(std::string const & g, char s) : groups(g), sep(s) {}
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return sep; }
	std::string do_grouping() const override { return groups; }
};
std::locale commaLocale(Rng & r)
{
	static std::locale const all[]{ { std::locale::classic(), new Comma("", '.') }, { std::locale::classic(), new Comma("\3", '.') }, { std::locale::classic(), new Comma("\3", '\'') } };
	return all[r.below(3)];
}
// the global locale for a while
struct Abroad
{
	std::locale was;
	bool on;
	Abroad(Rng & r, double p) : on(r.chance(p)) { if (on) was = std::locale::global(commaLocale(r)); }
	~Abroad() { if (on) std::locale::global(was); }
};
// the C library's numbers, too, with a decimal comma for a while (if that locale can be had)
struct AbroadC
{
	bool on;
	AbroadC(Rng & r, double p) : on(r.chance(p) && setlocale(LC_NUMERIC, "de_DE.UTF-8")) { if (on) ++counters.foreign; }
	~AbroadC() { if (on) setlocale(LC_NUMERIC, "C"); }
};
}
struct Fmt { std::ios::fmtflags f; std::streamsize p; char fill; };
static Fmt fmtOf(std::ios & s) { return { s.flags(), s.precision(), s.fill() }; }
static bool sameFmt(Fmt const & a, Fmt const & b) { return a.f == b.f && a.p == b.p && a.fill == b.fill; }

static Val stale(Rng & r, int t)
{
	Val v;
	v.t = (Tag)t;
	for (int i = 0; i < nComp(t); ++i) v.c[i] = r.chance(.8) ? 1000. + r.range(0, 99) : anyBits(r);
	return v;
}
// first component of each grade in storage order; sizes
static int gradeStart(int t, int k) { int const g = gradeOf(mvIdx(t, k)); while (k > 0 && gradeOf(mvIdx(t, k - 1)) == g) --k; return k; }

static void extraction()
{
	for (int t : ioTags)
	{
		scen("C18", std::string("extract ") + tagName(t), {}, any, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			int const n = nComp(t);
			std::string text = ws(r, true), all;
			double want[8];
			for (int i = 0; i < n; ++i)
			{
				if (i) text += ws(r, false);
				text += spell(r, anyValid(r), want[i]);
			}
			bool const abroad = r.chance(.1);
			std::locale const loc = abroad ? commaLocale(r) : std::locale::classic();
			if (abroad)
			{
				std::replace(text.begin(), text.end(), '.', ',');
				auto const & np = std::use_facet<std::numpunct<char>>(loc);
				if (!np.grouping().empty() && r.chance(.4))
				{
					// thousands grouped
					text.clear();
					for (int i = 0; i < n; ++i)
					{
						int const a = r.range(-999, 999), b = (int)r.below(1000), k = (int)r.below(100);
						char q[60];
						if (i) text += ws(r, false);
						snprintf(q, sizeof q, "%d%03d.%02d", a, b, k);
						want[i] = std::strtod(q, nullptr);
						snprintf(q, sizeof q, "%d%c%03d,%02d", a, np.thousands_sep(), b, k);
						text += q;
					}
				}
			}
			bool const more = r.chance(.6);
			// what follows may follow at once, if it is nothing a number could go on with
			static char const * const close[]{ ",", ";", ")", "]", "}", "/", "|", "#", "\"", "<", ":", "=" };
			std::string glued = more && !abroad && r.chance(.4) ? close[r.below(12)] : "";
			if (!glued.empty() && r.chance(.7))
			{
				// any other character, if numbers read one by one would stop there
				char const ch = r.chance(.6) ? "fFdDlLxXpPiInNjJqu_aA%^&*~@!?'`$\\([{>+-bcghkmorstvwyzBCGHKMOQRSTUVWYZ"[r.below(69)] : (char)r.range(1, 255);
				std::istringstream probe(text + ch + "4711 end");
				double z = 0;
				for (int i = 0; i < n; ++i) probe >> z;
				if (probe.good() && probe.peek() == (unsigned char)ch && !isspace((unsigned char)ch)) glued = std::string(1, ch);
			}
			std::string const tail = more ? glued + (glued.empty() || r.chance(.5) ? ws(r, false) : "") + "4711 end" : r.chance(.5) ? ws(r, true) : "";
			In in(text + tail, r);
			std::istream & is = in.is;
			if (abroad) is.imbue(loc);
			format(is, r);
			if (r.chance(.15)) is.exceptions(anyMask(r));
			Fmt const before = fmtOf(is);
			Val v = stale(r, t);
			++counters.calls;
			try { AbroadC const c1(r, .05); sut.get[t](is, &v); }
			catch (std::ios_base::failure const &) { if (!(is.exceptions() & std::ios::eofbit) || !is.eof()) OPV("\"%s\": the stream throws", text.c_str()); }
			is.exceptions(std::ios::goodbit);
			checkDefined(v.c, 8 * n, "extracted");
			for (int i = 0; i < n; ++i)
				if (!(v.c[i] == want[i])) OPV("\"%s\" gives component %d = %.17g want %.17g", text.c_str(), i, v.c[i], want[i]);
			if (is.fail() || is.bad()) OPV("\"%s\" leaves the stream failed", text.c_str());
			if (!sameFmt(before, fmtOf(is))) OPV("stream formatting changed by extraction");
			if (more)
			{
				if (is.eof()) OPV("\"%s\" + more text reads to the end", text.c_str());
				std::string next, end;
				if (!glued.empty())
				{
					int const ch = is.get();
					if (ch != (unsigned char)glued[0]) OPV("after \"%s\" the next character reads %d, not '%s'", text.c_str(), ch, glued.c_str());
				}
				is >> next >> end;
				if (next != "4711" || end != "end") OPV("after \"%s\" the next item reads \"%s\"", text.c_str(), next.c_str());
			}
			return true;
		}, 1.);
		scen("C18", std::string("bad text ") + tagName(t), {}, any, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			int const n = nComp(t);
			std::string text = ws(r, true);
			double want[8];
			int const pos = r.below(n);
			uint32_t const kind = r.below(9);
			bool textBad = true;
			static char const * const junk[]{ "abc", "x1", "--1", "+", "-", ".", "e5", "1e", "1e+", "nan", "inf", "NaN", "-inf", "INFINITY", "(1)", ",", ";", "#", "\"1\"", "$3", "one" };
			for (int i = 0; i < n; ++i)
			{
				if (i) text += ws(r, false);
				if (i == pos)
				{
					if (kind == 0) { text += std::string(r.chance(.5) ? "" : " "); break; }                 // text ends
					if (kind <= 3) { text += junk[r.below(sizeof junk / sizeof *junk)]; want[i] = 0; }
					else if (kind == 4) { text += r.chance(.5) ? "1e309" : r.chance(.5) ? "-1.8e308" : "1e99999"; }
					else if (kind == 5) { text += r.chance(.5) ? "1e-310" : "-4.9e-324"; textBad = false; } // subnormal: no valid number
					else if (kind == 6) { text += junk[r.below(sizeof junk / sizeof *junk)]; text += "7"; if (text.size() > 2 && text.compare(text.size() - 2, 2, "+7") == 0) { text.erase(text.size() - 2); text += "q"; } }
					else if (kind == 7) { text += std::string("\0", 1); }
					else { text += "\xff\xfe"; }
					want[i] = 0;
					continue;
				}
				text += spell(r, anyValid(r), want[i]);
			}
			if (r.chance(.35))
			{
				// numbers well enough, but punctuated: list separators, brackets, units, comments, fractions
				static char const * const between[]{ ",", ", ", " , ", ";", "; ", ":", "|", "/", " / ", "&", "\\", "\\\n", " # x\n", " // x\n", "%", "% ", "f ", "f, ", "m ", "_", "'", "x", " x ", "*", " e1 ", " i ", "\"", "<", "=", "\0", "..", "e", "d5 ", "u ", "+i", " and " };
				static char const * const before[]{ "(", "[", "{", "<", "# x\n", "v=", "v = ", "$", "\"", "'", "Vector(", "\xef\xbb\xbf", "+ ", "- ", "~", "0x", "" };
				bool const every = r.chance(.5);
				int const m = r.below(sizeof between / sizeof *between);
				std::string const sep = between[m], lead = r.chance(.3) ? before[r.below(sizeof before / sizeof *before)] : "";
				text = lead;
				for (int i = 0; i < n; ++i)
				{
					if (i) { if (every || i == pos) text += sep; else text += ws(r, false); }
					if (r.chance(.6)) text += std::to_string(r.range(-99, 99)); else text += spell(r, anyValid(r), want[i]);
				}
				if (!lead.empty() && r.chance(.5)) text += lead[0] == '(' ? ")" : lead[0] == '[' ? "]" : lead[0] == '{' ? "}" : "";
				if (r.chance(.5)) text += " 5 6 7";
			}
			// what the standard says about the text, number by number
			int firstBad = n;
			{
				std::istringstream probe(text);
				for (int i = 0; i < n; ++i)
				{
					double z = 0;
					probe >> z;
					if (probe.fail()) { firstBad = i; textBad = true; break; }
					if (!okNum(z)) { firstBad = i; textBad = false; break; }
					want[i] = z;
				}
			}
			In in(text, r);
			std::istream & is = in.is;
			format(is, r);
			if (r.chance(.1)) { std::string junk2; is.seekg(0, std::ios::end); is >> junk2; textBad = true; firstBad = 0; if (r.chance(.5)) is.clear(r.chance(.5) ? std::ios::failbit : std::ios::badbit); }
			if (firstBad == n) return false; // turned out fine
			Val v = stale(r, t);
			std::ios::iostate const mask = r.chance(.25) ? anyMask(r) : std::ios::goodbit;
			try { is.exceptions(mask); } catch (std::ios_base::failure const &) {} // throws at once when failed already
			bool thrown = false;
			++counters.calls;
			try { sut.get[t](is, &v); }
			catch (std::ios_base::failure const &) { thrown = true; }
			is.exceptions(std::ios::goodbit);
			if (thrown && mask == std::ios::goodbit) OPV("extraction throws an exception the stream was not asked for after \"%s\"", text.c_str());
			checkDefined(v.c, 8 * n, "extracted");
			if (okVal(v)) OPV("bad text \"%s\" gives the valid %s", text.c_str(), show(v).c_str());
			if (sut.isValid[t](&v)) OPV("isValid accepts what \"%s\" gave: %s", text.c_str(), show(v).c_str());
			int const gs = gradeStart(t, firstBad);
			for (int i = 0; i < gs; ++i) if (!(v.c[i] == want[i])) OPV("\"%s\": component %d read before the fault is %.17g want %.17g", text.c_str(), i, v.c[i], want[i]);
			if (textBad)
			{
				if (!is.fail() && !thrown) OPV("stream does not report failure after \"%s\"", text.c_str());
				if (!thrown && (mask & std::ios::failbit)) OPV("no exception after \"%s\" from a stream asked for it", text.c_str());
				for (int i = gs; i < n; ++i) if (okNum(v.c[i])) OPV("\"%s\": component %d of the failed part is %.17g", text.c_str(), i, v.c[i]);
			}
			else
				for (int i = gs; i < n && gradeStart(t, i) == gs; ++i) if (okNum(v.c[i])) OPV("\"%s\": component %d of the failed grade is %.17g", text.c_str(), i, v.c[i]);
			return true;
		}, 1.);
	}
	for (int k = 0; k < sut.nArr; ++k)
	{
		ArrFns const & f = sut.arr[k];
		if (!f.get) continue;
		scen("C18", "extract array of " + std::to_string(f.n), {}, any, [&f](Case const & c, Ctx & x) {
			Rng r(c.seed);
			int const n = f.n;
			int const bad = r.chance(.5) ? r.below(n) : -1;
			uint32_t const kind = r.below(3);
			std::string text = ws(r, true);
			std::vector<double> want(n), v(n);
			for (int i = 0; i < n; ++i)
			{
				if (i) text += ws(r, false);
				if (i == bad && kind == 0) break;
				if (i == bad) text += kind == 1 ? "x" : "1e-310";
				else text += spell(r, anyValid(r), want[i]);
			}
			bool const more = bad < 0 && r.chance(.6);
			bool const letter = more && r.chance(.4); // a letter that is no part of a number follows at once
			char const ch = "fdlxpq_,;)]("[r.below(12)];
			In in(text + (letter ? std::string(1, ch) : "") + (more ? " 4711" : ""), r);
			std::istream & is = in.is;
			format(is, r);
			for (double & z : v) z = 1000. + r.range(0, 99);
			std::ios::iostate const mask = r.chance(.2) ? anyMask(r) : std::ios::goodbit;
			is.exceptions(mask);
			bool thrown = false;
			++counters.calls;
			try { f.get(is, v.data()); }
			catch (std::ios_base::failure const &) { thrown = true; }
			is.exceptions(std::ios::goodbit);
			if (thrown && !(mask & is.rdstate())) OPV("\"%s\": the stream throws what it was not asked for", text.c_str());
			checkDefined(v.data(), 8 * n, "extracted");
			if (bad < 0)
			{
				for (int i = 0; i < n; ++i) if (!(v[i] == want[i])) OPV("\"%s\" gives element %d = %.17g want %.17g", text.c_str(), i, v[i], want[i]);
				if (is.fail()) OPV("\"%s\" leaves the stream failed", text.c_str());
				is.setf(std::ios::dec, std::ios::basefield);
				int z = 0;
				if (letter) { z = is.get(); if (z != ch) OPV("after \"%s\" the next character reads %d, not %c", text.c_str(), z, ch); }
				if (more && !(is >> z && z == 4711)) OPV("after \"%s\" the next number reads %d", text.c_str(), z);
			}
			else
			{
				for (int i = 0; i < n; ++i) if (okNum(v[i])) OPV("bad text \"%s\" gives element %d = %.17g", text.c_str(), i, v[i]);
				if (kind != 2 && !is.fail() && !thrown) OPV("stream does not report failure after \"%s\"", text.c_str());
			}
			return true;
		}, .3);
	}
	scen("C18", "sequence", {}, any, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		int const m = 2 + r.below(8);
		std::string text;
		std::vector<Val> want;
		for (int k = 0; k < m; ++k)
		{
			Val w;
			w.t = (Tag)ioTags[r.below(9)];
			for (int i = 0; i < nComp(w.t); ++i) { text += spell(r, anyValid(r), w.c[i]); text += ws(r, false); }
			want.push_back(w);
		}
		int const fault = r.chance(.4) ? (int)r.below(m) : -1;
		(void)fault;
		std::stringstream ss;
		ss << text;
		Val v = stale(r, want[0].t);
		for (int k = 0; k < m; ++k)
		{
			Val const & w = want[k];
			if (v.t != w.t || r.chance(.5)) v = stale(r, w.t); // else reuse the previous content
			++counters.calls;
			sut.get[w.t](ss, &v);
			for (int i = 0; i < nComp(w.t); ++i) if (!(v.c[i] == w.c[i])) OPV("item %d of \"%s\" is %s want %s", k, text.c_str(), show(v).c_str(), show(w).c_str());
			if (ss.fail()) OPV("stream failed after item %d of \"%s\"", k, text.c_str());
		}
		// nothing is left: the next read fails and is not valid; after clear() the stream is usable again
		int const t = ioTags[r.below(9)];
		v = stale(r, t);
		sut.get[t](ss, &v);
		if (okVal(v) || !ss.fail()) OPV("read past the end gives %s", show(v).c_str());
		ss.clear();
		std::string again;
		Val w;
		w.t = (Tag)t;
		for (int i = 0; i < nComp(t); ++i) { again += spell(r, anyValid(r), w.c[i]); again += " "; }
		ss << again;
		sut.get[t](ss, &v);
		if (!sameNum(v, w)) OPV("after clear(), \"%s\" gives %s", again.c_str(), show(v).c_str());
		return true;
	}, 4.);
}

//
// formatting
//
static bool tokens(std::string const & s, std::vector<std::string> & out)
{
	std::istringstream is(s);
	std::string w;
	while (is >> w) out.push_back(w);
	return true;
}
// |text - x| <= half a unit of the last digit (exact arithmetic on strings via long formatting)
static bool halfUnit(std::string const & tok, double x, int digits)
{
	// the correctly rounded text, from the C library, must be the same number
	char b[2000];
	snprintf(b, sizeof b, "%.*f", digits, x);
	if (tok == b) return true;
	// otherwise accept any text within half a unit: compare in quad with exact decimal
	Q const t = strtoflt128(tok.c_str(), nullptr), lim = powq(10, -digits) / 2;
	Q const rel = rabs((Q)x) * 1e-33Q;
	return rabs(t - (Q)x) <= lim * (1 + 1e-20Q) + rel;
}
static bool fixedShape(std::string const & t, int digits)
{
	size_t i = 0;
	if (t[i] == '-') ++i;
	size_t const d0 = i;
	while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
	if (i == d0) return false;
	if (digits == 0) return i == t.size();
	if (i >= t.size() || t[i] != '.') return false;
	++i;
	size_t const f0 = i;
	while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
	return i == t.size() && (int)(i - f0) == digits;
}
static bool sciShape(std::string const & t, int digits)
{
	size_t i = 0;
	if (t[i] == '-') ++i;
	if (!(t[i] >= '0' && t[i] <= '9')) return false;
	++i;
	if (digits > 0)
	{
		if (t[i] != '.') return false;
		++i;
		size_t const f0 = i;
		while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
		if ((int)(i - f0) != digits) return false;
	}
	if (i >= t.size() || (t[i] != 'e')) return false;
	++i;
	if (t[i] != '+' && t[i] != '-') return false;
	++i;
	size_t const e0 = i;
	while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
	return i == t.size() && i - e0 >= 2;
}
static std::string putText(int t, Val const & v, std::ostringstream & os)
{
	++counters.calls;
	sut.put[t](os, &v);
	return os.str();
}
static bool checkFixedText(std::string const & s, Val const & v, int digits, bool delimited, char const * what, Ctx & x)
{
	std::vector<std::string> tk;
	tokens(s, tk);
	if ((int)tk.size() != nComp(v.t)) { x.viol("%s of %s has %zu numbers: \"%s\"", what, show(v).c_str(), tk.size(), s.c_str()); return false; }
	for (int i = 0; i < nComp(v.t); ++i)
	{
		if (!fixedShape(tk[i], digits)) { x.viol("%s of %s: \"%s\" is not fixed notation with %d digits", what, show(v).c_str(), tk[i].c_str(), digits); return false; }
		if (!halfUnit(tk[i], v.c[i], digits)) { x.viol("%s: component %d = %.17g shown as %s", what, i, v.c[i], tk[i].c_str()); return false; }
		if ((tk[i][0] == '-') != (v.c[i] < 0. || (v.c[i] == 0. && std::signbit(v.c[i]))) && v.c[i] != 0.) { x.viol("%s: sign of component %d = %.17g lost in %s", what, i, v.c[i], tk[i].c_str()); return false; }
	}
	if (delimited && (s.empty() || s[0] != ' ')) { x.viol("%s of %s does not start with a delimiter: \"%s\"", what, show(v).c_str(), s.c_str()); return false; }
	return true;
}
static Val moderateVal(Rng & r, int t)
{
	Dom const d{ 1e-30, 1e140, true };
	Val v = entity(r, t, d);
	if (r.chance(.3)) // near rounding boundaries and carries
		for (int i = 0; i < nComp(t); ++i)
			if (r.chance(.6))
			{
				int const dg = r.range(0, 9);
				double const u = std::pow(10., -dg);
				v.c[i] = r.sgn() * (r.chance(.5) ? std::pow(10., r.range(0, 9)) - u * .5 * r.range(0, 3) : r.range(0, 99999) * u + .5 * u);
				if (r.chance(.4)) v.c[i] = ulpUp(v.c[i], r.range(-2, 2));
			}
	return v;
}
static void formatting()
{
	for (int t = 0; t < NTAG; ++t)
	{
		if (sut.put[t]) scen("C19", std::string("insert ") + tagName(t), {}, any, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val const v = moderateVal(r, t);
			std::ostringstream plain;
			std::string const s = putText(t, v, plain);
			if (!checkFixedText(s, v, 6, true, "operator<<", x)) return true;
			{
				std::vector<std::string> tk;
				tokens(s, tk);
				bool fits = true;
				for (auto const & k : tk) fits = fits && k.find('.') - (k[0] == '-') <= 3;
				Val z;
				z.t = (Tag)t;
				std::ostringstream oz;
				std::string const s0 = putText(t, z, oz);
				if (fits && s.size() != s0.size()) OPV("operator<< of %s writes \"%s\", not as wide as \"%s\" for zero", show(v).c_str(), s.c_str(), s0.c_str());
			}
			// into a stream with history and formatting state
			Sink sink(r);
			std::ostream & os = sink.os;
			format(os, r);
			if (r.chance(.5)) os.fill(r.chance(.5) ? '*' : '0');
			if (r.chance(.2)) os.exceptions(anyMask(r));
			std::string pre = r.chance(.5) ? "x" : "";
			os << pre;
			if (r.chance(.4)) { os << 2.25; pre = sink.text(); }
			Fmt const f = fmtOf(os);
			{ AbroadC const c1(r, .1); sut.put[t](os, &v); }
			if (sink.text() != pre + s) OPV("operator<< of %s writes \"%s\" into a formatted stream, \"%s\" into a plain one", show(v).c_str(), sink.text().substr(std::min(pre.size(), sink.text().size())).c_str(), s.c_str());
			if (!sameFmt(f, fmtOf(os))) OPV("operator<< of %s changes the stream's formatting", show(v).c_str());
			if (!os.good()) OPV("stream not good after operator<<");
			// a second value follows without merging
			Val const w = moderateVal(r, t);
			sut.put[t](os, &w);
			std::ostringstream o2;
			std::string const s2 = putText(t, w, o2);
			if (sink.text() != pre + s + s2) OPV("second value written as \"%s\" want \"%s\"", sink.text().substr(std::min(pre.size() + s.size(), sink.text().size())).c_str(), s2.c_str());
			return true;
		});
		if (sut.fixed[t]) scen("C19", std::string("fixed ") + tagName(t), {}, any, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val const v = moderateVal(r, t);
			int const nargs = r.below(3);
			int const before = r.chance(.9) ? r.range(0, 12) : r.range(13, 30), after = nargs == 2 ? (r.chance(.97) ? r.range(0, 30) : r.range(31, 300)) : 6;
			++counters.calls;
			std::string const s = sut.fixed[t](&v, before, after, nargs);
			if (!checkFixedText(s, v, after, true, "io::fixed", x)) return true;
			// columns line up as long as no number has more leading digits than asked for
			{
				size_t const lead = nargs == 0 ? 3 : before;
				std::vector<std::string> tk;
				tokens(s, tk);
				bool fits = true;
				for (auto const & k : tk) { size_t const dot = k.find('.'); fits = fits && (dot == std::string::npos ? k.size() : dot) - (k[0] == '-') <= std::max<size_t>(lead, 1); }
				Val z;
				z.t = (Tag)t;
				std::string const s0 = sut.fixed[t](&z, std::max<size_t>(lead, 1), after, nargs);
				if (fits && lead > 0 && s.size() != s0.size()) OPV("io::fixed of %s is \"%s\", not as wide as \"%s\" for zero", show(v).c_str(), s.c_str(), s0.c_str());
			}
			std::string again;
			{ AbroadC const c1(r, .1); again = sut.fixed[t](&v, before, after, nargs); }
			if (again != s) OPV("io::fixed of %s gives \"%s\" then \"%s\"", show(v).c_str(), s.c_str(), again.c_str());
			return true;
		});
		if (sut.enote[t]) scen("C19", std::string("enote ") + tagName(t), {}, any, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val v = moderateVal(r, t);
			if (r.chance(.3)) for (int i = 0; i < nComp(t); ++i) v.c[i] = anyValid(r);
			int const nargs = r.below(2), dg = nargs ? (r.chance(.97) ? r.range(0, 30) : r.range(31, 300)) : 15;
			++counters.calls;
			std::string const s = sut.enote[t](&v, dg, nargs);
			std::vector<std::string> tk;
			tokens(s, tk);
			if ((int)tk.size() != nComp(t)) OPV("io::enote of %s has %zu numbers: \"%s\"", show(v).c_str(), tk.size(), s.c_str());
			for (int i = 0; i < nComp(t); ++i)
			{
				char b[400];
				snprintf(b, sizeof b, "%.*e", dg, v.c[i]);
				if (!sciShape(tk[i], dg)) OPV("\"%s\" is not e-notation with %d digits", tk[i].c_str(), dg);
				if (std::string(b) != tk[i] && !(v.c[i] == 0. && std::strtod(tk[i].c_str(), nullptr) == 0.)) OPV("io::enote: component %d = %.17g shown as %s", i, v.c[i], tk[i].c_str());
			}
			std::string again;
			{ AbroadC const c1(r, .1); again = sut.enote[t](&v, dg, nargs); }
			if (again != s) OPV("io::enote of %s gives \"%s\" then \"%s\"", show(v).c_str(), s.c_str(), again.c_str());
			return true;
		});
	}
}

//
// round trips
//
static void roundTrips()
{
	for (int t : ioTags)
	{
		scen("C20", std::string("enote ") + tagName(t), {}, any, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val v;
			v.t = (Tag)t;
			for (int i = 0; i < nComp(t); ++i) v.c[i] = anyValid(r);
			Abroad const abroad(r, .08);
			bool const dflt = r.chance(.4);
			int const dg = dflt ? 15 : r.range(16, 30);
			std::string s;
			if (sut.enote[t]) s = sut.enote[t](&v, dg, dflt ? 0 : 1);
			else // component by component
				for (int i = 0; i < nComp(t); ++i) { Val const d = mk(D, { v.c[i] }); s += sut.enote[D](&d, dg, dflt ? 0 : 1) + " "; }
			In in(s, r);
			std::istream & is = in.is;
			Val w = stale(r, t);
			counters.calls += 2;
			// fifteen digits of the largest doubles can round up to infinity
			if (dflt) for (int i = 0; i < nComp(t); ++i) if (std::fabs(v.c[i]) > 1e308 || (v.c[i] != 0. && std::fabs(v.c[i]) < 1e-307)) return false;
			{ AbroadC const c1(r, .05); sut.get[t](is, &w); }
			for (int i = 0; i < nComp(t); ++i)
			{
				if (!dflt && std::memcmp(&v.c[i], &w.c[i], 8) != 0) OPV("%s became %s through \"%s\"", show(v).c_str(), show(w).c_str(), s.c_str());
				if (dflt && !(fabsl((LD)v.c[i] - w.c[i]) <= 7e-16L * fabsl(v.c[i]))) OPV("%s became %s through \"%s\"", show(v).c_str(), show(w).c_str(), s.c_str());
			}
			return true;
		});
		scen("C20", std::string("fixed ") + tagName(t), {}, any, [t](Case const & c, Ctx & x) {
			Rng r(c.seed);
			Val const v = moderateVal(r, t);
			Abroad const abroad(r, .08);
			bool const ins = !sut.fixed[t] || r.chance(.5);
			int const dg = ins ? 6 : r.range(0, 25);
			std::string s;
			if (ins) { std::ostringstream os; s = putText(t, v, os); }
			else s = sut.fixed[t](&v, r.range(0, 10), dg, 2);
			In in(s, r);
			std::istream & is = in.is;
			Val w = stale(r, t);
			++counters.calls;
			{ AbroadC const c1(r, .05); sut.get[t](is, &w); }
			for (int i = 0; i < nComp(t); ++i)
				if (!(rabs((Q)v.c[i] - (Q)w.c[i]) <= powq(10, -dg) / 2 * (1 + 1e-20Q) + rabs((Q)v.c[i]) * 1.2e-16Q)) OPV("%s became %s through \"%s\"", show(v).c_str(), show(w).c_str(), s.c_str());
			return true;
		});
	}
	scen("C20", "mixed sequence", {}, any, [](Case const & c, Ctx & x) {
		Rng r(c.seed);
		int const m = 2 + r.below(7);
		std::stringstream both;
		Sink sink(r);
		bool const apart = r.chance(.4); // written to one stream and read from another, or one stream for both
		std::ostream & ss = apart ? sink.os : both;
		format(ss, r);
		std::vector<Val> vs;
		std::vector<int> mode;
		for (int k = 0; k < m; ++k)
		{
			int const t = ioTags[r.below(9)];
			Val v = moderateVal(r, t);
			int md = r.below(3);
			if (md == 0 && sut.enote[t])
			{
				for (int i = 0; i < nComp(t); ++i) v.c[i] = anyValid(r);
				ss << sut.enote[t](&v, 17, 1);
			}
			else if (md == 1 && sut.fixed[t]) ss << sut.fixed[t](&v, 3, 9, 2);
			else { md = 2; sut.put[t](ss, &v); }
			ss << wsp[r.below(10)];
			vs.push_back(v); mode.push_back(md);
		}
		std::string const text = apart ? sink.text() : both.str();
		In in(apart ? text : "", r);
		std::istream & is = apart ? in.is : both;
		for (int k = 0; k < m; ++k)
		{
			Val const & v = vs[k];
			Val w = stale(r, v.t);
			++counters.calls;
			sut.get[v.t](is, &w);
			if (is.fail()) OPV("stream failed at item %d: \"%s\"", k, text.c_str());
			for (int i = 0; i < nComp(v.t); ++i)
			{
				if (mode[k] == 0 ? std::memcmp(&v.c[i], &w.c[i], 8) != 0
					: !(rabs((Q)v.c[i] - (Q)w.c[i]) <= powq(10, mode[k] == 1 ? -9 : -6) / 2 * (1 + 1e-20Q) + rabs((Q)v.c[i]) * 1.2e-16Q))
					OPV("item %d: %s became %s in \"%s\"", k, show(v).c_str(), show(w).c_str(), text.c_str());
			}
		}
		return true;
	}, 4.);
}
void regIo() { extraction(); formatting(); roundTrips(); }
