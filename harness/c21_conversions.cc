/* C21: things written as text and read back: numbers, names, fractions, colours, luminances, ratings, composed messages */

#include "compose.hpp"
#include "exceptions.h"
#include "locale_convert.h"
#include "rating.h"
#include "raw_convert.h"
#include "types.h"
#include "warnings.h"
#include <libcxml/cxml.h>
#include <libxml++/libxml++.h>
#include "mc.h"
#include <cmath>
#include <fstream>
#include <limits>

using std::string;
using std::vector;
namespace String = dcp::String;

static int64_t unit = 0;

template <class T>
static string decimal(T v)
{
	if (v == 0) {
		return "0";
	}
	__int128 w = v;
	bool const negative = w < 0;
	if (negative) {
		w = -w;
	}
	string s;
	for (; w; w /= 10) {
		s.insert(s.begin(), '0' + int(w % 10));
	}
	return negative ? "-" + s : s;
}

/** Values near the ends of the type, around powers of 2 and 10, and the small ones */
template <class T>
static vector<T> values()
{
	std::set<T> v;
	typedef std::numeric_limits<T> L;
	__int128 const low = L::min();
	__int128 const high = L::max();
	auto add = [&](__int128 x) {
		if (x >= low && x <= high) {
			v.insert(static_cast<T>(x));
		}
	};
	if (sizeof(T) <= 2) {
		for (__int128 i = low; i <= high; ++i) {
			add(i);
		}
	}
	__int128 two = 1;
	__int128 ten = 1;
	for (int i = 0; i < 64; ++i) {
		for (int d = -2; d <= 2; ++d) {
			add(two + d);
			add(-two + d);
			if (i < 20) {
				add(ten + d);
				add(-ten + d);
			}
		}
		two *= 2;
		ten = i < 19 ? ten * 10 : ten;
	}
	for (int i = 0; i < 1000; ++i) {
		add(low + i);
		add(high - i);
		add(i);
		add(-i);
	}
	return vector<T>(v.begin(), v.end());
}

template <class T>
static void there(char const* name)
{
	int64_t n = 0;
	for (T v: values<T>()) {
		++n;
		if (mc::mine(unit++) && mc::at(name, { 0, n })) {
			mc::transition();
			auto const s = dcp::locale_convert<string>(v);
			MC_CHECK(s == decimal(v), "%s was written as %s", decimal(v).c_str(), s.c_str());
			auto const m = String::compose("%1", v);
			MC_CHECK(m == decimal(v), "%s was composed as %s", decimal(v).c_str(), m.c_str());
			mc::outcome(s);
		}
	}
}

template <class T>
static void raw(char const* name)
{
	int64_t n = 0;
	for (T v: values<T>()) {
		++n;
		if (mc::mine(unit++) && mc::at(name, { 1, n })) {
			mc::transition();
			T const r = dcp::raw_convert<T>(decimal(v));
			MC_CHECK(r == v, "%s was read as %s", decimal(v).c_str(), decimal(r).c_str());
		}
	}
}

template <class T>
static void local(char const* name)
{
	int64_t n = 0;
	for (T v: values<T>()) {
		++n;
		if (mc::mine(unit++) && mc::at(name, { 2, n })) {
			mc::transition();
			T const r = dcp::locale_convert<T>(decimal(v));
			MC_CHECK(r == v, "%s was read as %s", decimal(v).c_str(), decimal(r).c_str());
		}
	}
}

static vector<double> doubles()
{
	vector<double> v;
	for (double m: { 1.0, 1.5, 1.1, 2.0 / 3, 9.99, 0.123456789012345, 4503599627370497.0 / 4503599627370496.0 }) {
		for (int e = -40; e <= 40; ++e) {
			v.push_back(ldexp(m, e));
			v.push_back(-ldexp(m, e));
			v.push_back(m * pow(10, e / 4));
		}
	}
	for (int i = 0; i < 2000; ++i) {
		v.push_back(i / 8.0);
		v.push_back(i / 1000.0);
	}
	return v;
}

static void reals()
{
	auto const all = doubles();
	for (size_t n = 0; n < all.size(); ++n) {
		if (!mc::mine(unit++) || !mc::at("real", { int64_t(n) })) {
			continue;
		}
		double const d = all[n];
		float const f = d;
		mc::transition(6);
		auto const exact = mc::format("%.17g", d);
		MC_CHECK(dcp::raw_convert<double>(exact) == d, "%s was read as %.17g", exact.c_str(), dcp::raw_convert<double>(exact));
		MC_CHECK(dcp::locale_convert<double>(exact) == d, "%s was read as %.17g by locale_convert", exact.c_str(), dcp::locale_convert<double>(exact));
		auto const fexact = mc::format("%.9g", f);
		MC_CHECK(dcp::raw_convert<float>(fexact) == f, "%s was read as %.9g", fexact.c_str(), dcp::raw_convert<float>(fexact));
		MC_CHECK(dcp::locale_convert<float>(fexact) == f, "%s was read as %.9g by locale_convert", fexact.c_str(), dcp::locale_convert<float>(fexact));
		/* 16 digits unless others are asked for */
		auto const s = dcp::locale_convert<string>(d);
		MC_CHECK(fabs(dcp::locale_convert<double>(s) - d) <= fabs(d) * 1e-15, "%.17g was written as %s", d, s.c_str());
		auto const fs = dcp::locale_convert<string>(f);
		MC_CHECK(dcp::locale_convert<float>(fs) == f, "%.9g was written as %s", f, fs.c_str());
		for (int p = 1; p < 17; ++p) {
			auto const general = dcp::locale_convert<string>(d, p);
			double const back = strtod(general.c_str(), nullptr);
			MC_CHECK(fabs(back - d) <= fabs(d) * 0.51 * pow(10, 1 - p), "%.17g was written with %d digits as %s", d, p, general.c_str());
			auto const fixed = dcp::locale_convert<string>(d, p, true);
			auto const point = fixed.find('.');
			MC_CHECK(point != string::npos && int(fixed.size() - point - 1) == p && fixed.find('e') == string::npos, "%.17g was written with %d places as %s", d, p, fixed.c_str());
			MC_CHECK(fabs(strtod(fixed.c_str(), nullptr) - d) <= 0.51 * pow(10, -p) + fabs(d) * 1e-15, "%.17g was written with %d places as %s", d, p, fixed.c_str());
			mc::transition(2);
		}
	}
}

/** What String::compose should do */
static string composed(string const& f, vector<string> const& args)
{
	string o;
	for (size_t i = 0; i < f.size(); ++i) {
		if (f[i] != '%' || i + 1 == f.size()) {
			o += f[i];
		} else if (f[i + 1] == '%') {
			o += '%';
			++i;
		} else if (isdigit(f[i + 1])) {
			size_t n = 0;
			while (i + 1 < f.size() && isdigit(f[i + 1])) {
				n = n * 10 + f[++i] - '0';
			}
			if (n >= 1 && n <= args.size()) {
				o += args[n - 1];
			}
		} else {
			o += '%';
		}
	}
	return o;
}

static void compose()
{
	vector<string> const words = { "a", " ", "%1", "%2", "%3", "%%", "b%", "%10", "." };
	vector<string> const args = { "", "x", "%1", "%%", "long one" };
	for (int n = 0; n <= (mc::thorough() ? 5 : 4); ++n) {
		mc::sequences(words.size(), n, [&](vector<int> const& v) {
			if (!mc::mine(unit++)) {
				return;
			}
			string f;
			for (auto i: v) {
				f += words[i];
			}
			mc::state(f);
			for (size_t i = 0; i < args.size(); ++i) {
				for (size_t j = 0; j < args.size(); ++j) {
					if (!mc::at(mc::format("compose:%zu:%zu:", i, j) + f)) {
						continue;
					}
					mc::transition(3);
					auto const& a = args[i];
					auto const& b = args[j];
					auto one = String::compose(f, a);
					MC_CHECK(one == composed(f, { a }), "\"%s\" with \"%s\" gave \"%s\"", f.c_str(), a.c_str(), one.c_str());
					auto two = String::compose(f, a, b);
					MC_CHECK(two == composed(f, { a, b }), "\"%s\" with \"%s\" and \"%s\" gave \"%s\"", f.c_str(), a.c_str(), b.c_str(), two.c_str());
					auto three = String::compose(f, a, b.c_str(), 42);
					MC_CHECK(three == composed(f, { a, b, "42" }), "\"%s\" with \"%s\", \"%s\" and 42 gave \"%s\"", f.c_str(), a.c_str(), b.c_str(), three.c_str());
					mc::outcome(three);
				}
			}
		});
	}
	if (mc::mine(unit++) && mc::at("compose many")) {
		MC_CHECK(String::compose("%1%2%3%4%5%6%7%8%9%10", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j") == "abcdefghij", "ten arguments were not put in their places");
		MC_CHECK(String::compose("%10 %9 %8 %7 %6 %5 %4 %3 %2 %1", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10) == "10 9 8 7 6 5 4 3 2 1", "ten arguments were not put in their places");
	}
}

/** Names of an enumeration, with others that mean the same */
template <class T>
static void names(char const* family, vector<string> const& n, std::function<string (T)> to, std::function<T (string)> from, vector<std::pair<string, int>> const& also = {})
{
	std::map<string, int> known(also.begin(), also.end());
	for (size_t i = 0; i < n.size(); ++i) {
		known[n[i]] = i;
	}
	std::set<string> tries;
	for (auto const& k: known) {
		auto const& s = k.first;
		tries.insert(s);
		for (size_t p = 0; p <= s.size(); ++p) {
			for (char c = ' '; c < 127; ++c) {
				auto t = s;
				t.insert(p, 1, c);
				tries.insert(t);
				if (p < s.size()) {
					t = s;
					t[p] = c;
					tries.insert(t);
				}
			}
			if (p < s.size()) {
				auto t = s;
				t.erase(p, 1);
				tries.insert(t);
			}
		}
	}
	for (auto const& t: tries) {
		if (!mc::mine(unit++) || !mc::at(string(family) + ":" + t)) {
			continue;
		}
		mc::transition();
		auto const k = known.find(t);
		int got = -1;
		try {
			got = int(from(t));
		} catch (std::exception&) {
		}
		MC_CHECK(got == (k == known.end() ? -1 : k->second), "%s \"%s\" was read as %d", family, t.c_str(), got);
	}
	for (size_t i = 0; i < n.size(); ++i) {
		if (mc::mine(unit++) && mc::at(family, { int64_t(i) })) {
			mc::transition();
			auto const s = to(T(i));
			MC_CHECK(s == n[i], "%s %zu was written as %s instead of %s", family, i, s.c_str(), n[i].c_str());
			mc::state(family + s);
		}
	}
}

static void fractions()
{
	vector<int> const n = { 0, 1, -1, 2, 3, 24, 25, 30, 48, 1000, 1001, 24000, 30000, 65536, 48000, 1000000, INT32_MAX, INT32_MIN, INT32_MAX - 1 };
	vector<dcp::Fraction> all;
	for (auto a: n) {
		for (auto b: n) {
			all.push_back(dcp::Fraction(a, b));
		}
	}
	for (size_t i = 0; i < all.size(); ++i) {
		if (!mc::mine(unit++)) {
			continue;
		}
		auto const& a = all[i];
		if (mc::at("fraction", { a.numerator, a.denominator })) {
			mc::transition();
			auto const s = a.as_string();
			MC_CHECK(s == decimal(a.numerator) + " " + decimal(a.denominator), "%d/%d was written as %s", a.numerator, a.denominator, s.c_str());
			dcp::Fraction const b(s);
			MC_CHECK(b.numerator == a.numerator && b.denominator == a.denominator, "%s was read as %d/%d", s.c_str(), b.numerator, b.denominator);
			if (a.denominator > 0) {
				MC_CHECK(fabs(a.as_float() - double(a.numerator) / a.denominator) <= 1e-6 * fabs(double(a.numerator) / a.denominator), "%s has the value %g", s.c_str(), a.as_float());
			}
			for (auto const& bad: { s + " ", " " + s, s + " 1", decimal(a.numerator), string(""), s + " 1 1" }) {
				bool refused = false;
				try {
					dcp::Fraction f(bad);
				} catch (dcp::XMLError&) {
					refused = true;
				}
				MC_CHECK(refused, "\"%s\" was accepted as a fraction", bad.c_str());
			}
		}
		for (size_t j = 0; j < all.size(); ++j) {
			if (!mc::at("fractions", { int64_t(i), int64_t(j) })) {
				continue;
			}
			mc::transition();
			auto const& b = all[j];
			bool const same = a.numerator == b.numerator && a.denominator == b.denominator;
			MC_CHECK((a == b) == same && (a != b) == !same, "%s and %s are %s", a.as_string().c_str(), b.as_string().c_str(), a == b ? "equal" : "unequal");
			if (a.denominator > 0 && b.denominator > 0) {
				MC_CHECK((a < b) == (int64_t(a.numerator) * b.denominator < int64_t(b.numerator) * a.denominator), "%s < %s is %d", a.as_string().c_str(), b.as_string().c_str(), a < b);
			}
		}
	}
}

static void colours()
{
	vector<int> const grid = { 0, 1, 9, 10, 15, 16, 127, 128, 159, 160, 171, 254, 255 };
	auto check = [](int r, int g, int b) {
		if (!mc::mine(unit++) || !mc::at("colour", { r, g, b })) {
			return;
		}
		mc::transition();
		dcp::Colour const c(r, g, b);
		auto const rgb = mc::format("%02X%02X%02X", r, g, b);
		MC_CHECK(c.r == r && c.g == g && c.b == b, "colour %s was not kept", rgb.c_str());
		MC_CHECK(c.to_rgb_string() == rgb && c.to_argb_string() == "FF" + rgb, "colour %s was written as %s and %s", rgb.c_str(), c.to_rgb_string().c_str(), c.to_argb_string().c_str());
		for (string alpha: { "FF", "00", "80", "a0" }) {
			auto lower = rgb;
			for (auto& i: lower) {
				i = tolower(i);
			}
			for (auto const& t: { alpha + rgb, alpha + lower }) {
				dcp::Colour const d(t);
				MC_CHECK(d == c && !(d != c) && d.r == r && d.g == g && d.b == b, "%s was read as %d,%d,%d", t.c_str(), d.r, d.g, d.b);
			}
		}
		for (int i = 0; i < 3; ++i) {
			dcp::Colour d = c;
			(i == 0 ? d.r : (i == 1 ? d.g : d.b)) ^= 1;
			MC_CHECK(!(c == d) && c != d, "%s and %s are equal", rgb.c_str(), d.to_rgb_string().c_str());
		}
		for (int n = 0; n < 7; ++n) {
			bool refused = false;
			try {
				dcp::Colour d(("FF" + rgb).substr(0, n));
			} catch (dcp::XMLError&) {
				refused = true;
			}
			MC_CHECK(refused, "%s was accepted as a colour", ("FF" + rgb).substr(0, n).c_str());
		}
		mc::outcome(rgb);
	};
	for (int i = 0; i < 256; ++i) {
		for (auto j: grid) {
			for (auto k: grid) {
				check(i, j, k);
				check(j, i, k);
				check(j, k, i);
			}
		}
	}
}

static void luminances()
{
	typedef dcp::Luminance L;
	for (int u = 0; u < 2; ++u) {
		auto const unit_ = L::Unit(u);
		vector<double> v = { 0.001, 0.5, 4.5, 3.4, 14, 48, 99.99, 100.25, 123.456, 300, 999.999, 1000, 1234, 4000, 10000, 12345 };
		for (int i = 0; i < 4000; ++i) {
			v.push_back(i / 64.0);
		}
		for (size_t i = 0; i < v.size(); ++i) {
			if (!mc::mine(unit++) || !mc::at("luminance", { u, int64_t(i) })) {
				continue;
			}
			mc::transition();
			L l(1, unit_);
			l.set_value(v[i]);
			MC_CHECK(l.value() == float(v[i]) && l.unit() == unit_, "luminance %g was not kept", v[i]);
			MC_CHECK(fabs(l.value_in_foot_lamberts() - (u ? v[i] : v[i] / 3.426)) < 1e-3 * (1 + v[i] / 100), "luminance %g is %g foot-lamberts", v[i], l.value_in_foot_lamberts());
			xmlpp::Document doc;
			auto root = doc.create_root_node("Root");
			l.as_xml(root, "");
			auto node = std::make_shared<cxml::Node>(root);
			L const back(node->node_child("Luminance"));
			auto const content = node->node_child("Luminance")->content();
			MC_CHECK(content.find_first_not_of("0123456789.") == string::npos || v[i] < 0.001, "luminance %g was written as %s", v[i], content.c_str());
			MC_CHECK(back == l && fabs(back.value() - v[i]) < 0.001, "luminance %g in units %d was written as %s", v[i], u, content.c_str());
			L const other(v[i], L::Unit(!u));
			MC_CHECK(!(other == l) && !(L(v[i] + 0.01, unit_) == l), "luminances which differ are equal");
			mc::outcome(content);
		}
		if (mc::at("negative luminance", { u })) {
			for (float x: { -0.001f, -1.0f, -1e9f }) {
				bool refused = false;
				try {
					L l(x, unit_);
				} catch (dcp::MiscError&) {
					refused = true;
				}
				MC_CHECK(refused, "luminance %g was accepted", x);
			}
		}
	}
}

static void ratings()
{
	/* Systems start with a URL, then name, countries, code and ratings */
	if (!mc::mine(unit++) || !mc::at("ratings")) {
		return;
	}
	std::ifstream f("/repo/ratings");
	vector<vector<string>> want;
	string line;
	while (std::getline(f, line)) {
		while (!line.empty() && isspace((unsigned char) line.back())) {
			line.pop_back();
		}
		if (line.substr(0, 4) == "http") {
			want.push_back({});
		}
		if (!want.empty()) {
			want.back().push_back(line);
		}
	}
	if (want.empty()) {
		printf("there is no list of ratings\n");
		exit(77);
	}
	dcp::load_rating_list("/repo/ratings");
	auto const got = dcp::rating_systems();
	MC_CHECK(got.size() == want.size(), "there are %zu rating systems instead of %zu", got.size(), want.size());
	for (size_t i = 0; i < want.size(); ++i) {
		auto const& w = want[i];
		auto const& g = got[i];
		MC_CHECK(g.agency == w[0] && g.name == w[1] && g.country_and_region_names == w[2] && g.country_code == w[3] && g.ratings.size() == w.size() - 4, "rating system %s is wrong", w[0].c_str());
		for (size_t j = 4; j < w.size(); ++j) {
			mc::transition();
			auto const& r = g.ratings[j - 4];
			MC_CHECK(r == dcp::Rating(w[0], w[j]) && r.agency == w[0] && r.label == w[j], "rating %s of %s is wrong", w[j].c_str(), w[0].c_str());
			MC_CHECK(!(r == dcp::Rating(w[0] + "x", w[j])) && !(r == dcp::Rating(w[0], w[j] + "x")), "different ratings are equal");
			xmlpp::Document doc;
			auto root = doc.create_root_node("Rating");
			r.as_xml(root);
			dcp::Rating const back(std::make_shared<cxml::Node>(root));
			MC_CHECK(back == r && back.agency == r.agency && back.label == r.label, "rating %s of %s did not read back", w[j].c_str(), w[0].c_str());
		}
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	there<unsigned char>("unsigned char");
	there<unsigned short>("unsigned short");
	there<int>("int");
	there<unsigned int>("unsigned int");
	there<long>("long");
	there<unsigned long>("unsigned long");
	there<long long>("long long");
	there<unsigned long long>("unsigned long long");
	raw<unsigned char>("unsigned char");
	raw<unsigned short>("unsigned short");
	raw<int>("int");
	raw<long>("long");
	raw<unsigned long>("unsigned long");
	raw<long long>("long long");
	raw<unsigned long long>("unsigned long long");
	local<unsigned char>("unsigned char");
	local<unsigned short>("unsigned short");
	local<int>("int");
	local<unsigned int>("unsigned int");
	local<long>("long");
	local<unsigned long>("unsigned long");
	local<long long>("long long");
	local<unsigned long long>("unsigned long long");
	reals();
	compose();
	names<dcp::Effect>("effect", { "none", "border", "shadow" }, dcp::effect_to_string, dcp::string_to_effect);
	names<dcp::Direction>("direction", { "ltr", "rtl", "ttb", "btt" }, dcp::direction_to_string, dcp::string_to_direction, { { "horizontal", 0 }, { "vertical", 2 } });
	names<dcp::Marker>("marker", { "FFOC", "LFOC", "FFTC", "LFTC", "FFOI", "LFOI", "FFEC", "LFEC", "FFMC", "LFMC", "FFOB", "LFOB" }, dcp::marker_to_string, dcp::marker_from_string);
	names<dcp::Status>("status", { "final", "temp", "pre" }, dcp::status_to_string, dcp::string_to_status);
	names<dcp::Formulation>("formulation", { "modified-transitional-1", "multiple-modified-transitional-1", "dci-any", "dci-specific" }, dcp::formulation_to_string, dcp::string_to_formulation);
	names<dcp::Luminance::Unit>("unit", { "candela-per-square-metre", "foot-lambert" }, dcp::Luminance::unit_to_string, dcp::Luminance::string_to_unit);
	fractions();
	colours();
	luminances();
	ratings();
	mc::finish();
}
