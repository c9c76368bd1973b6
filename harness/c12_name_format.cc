/* C12: names made from a specification */

#include "name_format.h"
#include "mc.h"

using std::map;
using std::string;
using std::vector;

static string clean(string const& s)
{
	string o;
	for (char c: s) {
		o += (c == '/' || c == ':') ? '-' : (c == ' ' ? '_' : c);
	}
	return o;
}

static string reference(string const& spec, map<char, string> const& values, string const& suffix, string const& ignore)
{
	string out;
	string rest = spec;
	while (!rest.empty()) {
		if (rest.length() >= 2 && rest[0] == '%' && values.count(rest[1]) == 1 && ignore.find(rest[1]) == string::npos) {
			out += clean(values.at(rest[1]));
			rest = rest.substr(2);
		} else {
			out += clean(rest.substr(0, 1));
			rest = rest.substr(1);
		}
	}
	return out + suffix;
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	string const alphabet = "%ab/: x.";
	vector<map<char, string>> const maps = {
		{},
		{ { 'a', "one/two three:four" }, { 'b', "" } },
		{ { 'a', "%b" }, { 'b', "%a%" }, { '%', "percent sign" } },
		{ { 'a', "A" }, { ' ', "space" }, { '/', "slash/" }, { 'x', ":x:" } },
	};
	vector<string> const ignores = { "", "a", "ab", "%", "/ " };
	vector<string> const suffixes = { "", ".xml", "/ :%a" };
	int const longest = mc::thorough() ? 7 : 5;
	int64_t unit = 0;
	for (int length = 0; length <= longest; ++length) {
		mc::sequences(alphabet.length(), length, [&](vector<int> const& v) {
			if (!mc::mine(unit++)) {
				return;
			}
			string spec;
			for (auto i: v) {
				spec += alphabet[i];
			}
			for (size_t m = 0; m < maps.size(); ++m) {
				for (size_t i = 0; i < ignores.size(); ++i) {
					for (size_t s = 0; s < suffixes.size(); ++s) {
						if (!mc::at(mc::format("name:%d:%d:%d:", int(m), int(i), int(s)) + spec)) {
							continue;
						}
						dcp::NameFormat f(spec);
						dcp::NameFormat g;
						g.set_specification(spec);
						auto const want = reference(spec, maps[m], suffixes[s], ignores[i]);
						auto const got = i == 0 ? f.get(maps[m], suffixes[s]) : f.get(maps[m], suffixes[s], ignores[i]);
						mc::trace();
						mc::transition(2);
						if (m + i + s == 0) {
							mc::state(spec);
						}
						mc::outcome(got);
						MC_CHECK(got == want, "'%s' gives '%s' rather than '%s'", spec.c_str(), got.c_str(), want.c_str());
						MC_CHECK(g.get(maps[m], suffixes[s], ignores[i]) == want, "'%s' set afterwards gives something else", spec.c_str());
						MC_CHECK(f.specification() == spec && g.specification() == spec && f == g, "'%s' is not kept as the specification", spec.c_str());
						MC_CHECK(!(dcp::NameFormat(spec + "x") == f), "'%s' is said to equal '%sx'", spec.c_str(), spec.c_str());
						if (length == longest && m == 1 && mc::want_sample("name")) {
							mc::sample("name", "'" + spec + "' -> '" + got + "'");
						}
					}
				}
			}
		});
	}

	/* Long ones: codes repeated, values of all lengths, and many codes at once */
	for (int n = 0; n <= 300; ++n) {
		if (!mc::mine(unit++)) {
			continue;
		}
		string value;
		for (int i = 0; i < n; ++i) {
			value += "ab/c d:e%f.\xc3\xa9"[i % 13];
		}
		map<char, string> values = { { 'v', value } };
		string codes;
		string nothing;
		for (int i = 0; i < n; ++i) {
			char const c = 'A' + i % 26;
			codes += string("%") + c + (i % 3 ? "" : "/");
			nothing += i % 2 ? "%z" : "%";
			if (i < 26) {
				values[c] = mc::format("%d:", i);
			}
		}
		vector<string> const specs = { "%v", "<%v%v>", "%v/%v %v:%v", value, value + "%v", "%" + value, codes, codes + "%v" + codes, nothing + "%v" };
		for (size_t s = 0; s < specs.size(); ++s) {
			for (auto const& ignore: { string(), string("v"), string("ABCDEFGHIJKLM") }) {
				if (!mc::at(mc::format("long:%d:%d:", n, int(s)) + ignore)) {
					continue;
				}
				auto const want = reference(specs[s], values, ".mxf", ignore);
				auto const got = dcp::NameFormat(specs[s]).get(values, ".mxf", ignore);
				mc::trace();
				mc::transition();
				mc::outcome(got);
				MC_CHECK(got == want, "'%s' gives '%s' rather than '%s'", specs[s].c_str(), got.c_str(), want.c_str());
			}
		}
	}

	/* Every character on its own, as a specification, a key and a value */
	for (int c = 1; c < 256; ++c) {
		if (!mc::mine(unit++) || !mc::at("character", { c })) {
			continue;
		}
		string const s(1, char(c));
		mc::trace();
		mc::transition(3);
		MC_CHECK(dcp::NameFormat(s).get({}, "") == clean(s), "character %d is not kept", c);
		MC_CHECK(dcp::NameFormat("%" + s + "!").get({ { char(c), "value" } }, "") == "value!", "character %d does not work as a key", c);
		MC_CHECK(dcp::NameFormat("%k").get({ { 'k', "<" + s + ">" } }, "") == clean("<" + s + ">"), "character %d is not kept in a value", c);
	}
	mc::finish();
}
