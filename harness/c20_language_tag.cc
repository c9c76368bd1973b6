/* C20: language tags.  The reference reads the lists of subtags itself and has its own grammar. */

#include "exceptions.h"
#include "language_tag.h"
#include "mc.h"
#include <algorithm>
#include <fstream>
#include <sstream>

using std::pair;
using std::string;
using std::vector;
using dcp::LanguageTag;
typedef LanguageTag::SubtagType Type;

static vector<Type> const types = { Type::LANGUAGE, Type::SCRIPT, Type::REGION, Type::VARIANT, Type::EXTLANG };
static char const* const names[] = { "language", "script", "region", "variant", "extlang", "dcnc" };
typedef vector<pair<string, string>> List;
static List lists[6];
/** Subtags in lower case -> the first description */
static std::map<string, pair<string, string>> index_of[5];

static string lower(string s)
{
	for (auto& c: s) {
		c = tolower(c);
	}
	return s;
}

static string upper(string s)
{
	for (auto& c: s) {
		c = toupper(c);
	}
	return s;
}

static string trim(string s)
{
	while (!s.empty() && isspace((unsigned char) s.back())) {
		s.pop_back();
	}
	while (!s.empty() && isspace((unsigned char) s[0])) {
		s.erase(0, 1);
	}
	return s;
}

static void load()
{
	for (int i = 0; i < 6; ++i) {
		std::ifstream f(string("/repo/tags/") + names[i]);
		string a, b;
		while (std::getline(f, a) && std::getline(f, b)) {
			lists[i].push_back({ trim(a), trim(b) });
		}
		if (lists[i].empty()) {
			printf("there is no list of tags %s\n", names[i]);
			exit(77);
		}
		if (i < 5) {
			for (auto const& j: lists[i]) {
				index_of[i].insert({ lower(j.first), j });
			}
		}
	}
}

static pair<string, string> const* find(int type, string const& s)
{
	auto i = index_of[type].find(lower(s));
	return i == index_of[type].end() ? nullptr : &i->second;
}

/** What a tag should be */
struct Model
{
	string one[3];
	vector<string> many[2];
	bool operator==(Model const& o) const {
		return std::equal(one, one + 3, o.one) && many[0] == o.many[0] && many[1] == o.many[1];
	}
	string text() const {
		string t;
		for (auto const& i: one) {
			t += i.empty() ? "" : ((t.empty() ? "" : "-") + i);
		}
		for (auto const& m: many) {
			for (auto const& i: m) {
				t += "-" + i;
			}
		}
		return t;
	}
	string description() const {
		string d;
		for (auto const& i: many[0]) {
			d += find(3, i)->second + " dialect of ";
		}
		d += find(0, one[0])->second;
		if (!one[1].empty()) {
			d += " written using the " + find(1, one[1])->second + " script";
		}
		if (!one[2].empty()) {
			d += " for " + find(2, one[2])->second;
		}
		for (auto const& i: many[1]) {
			d += ", " + find(4, i)->second;
		}
		return d;
	}
	vector<pair<int, string>> parts() const {
		vector<pair<int, string>> p;
		for (int i = 0; i < 3; ++i) {
			if (!one[i].empty()) {
				p.push_back({ i, one[i] });
			}
		}
		for (int m = 0; m < 2; ++m) {
			for (auto const& i: many[m]) {
				p.push_back({ 3 + m, i });
			}
		}
		return p;
	}
};

/** language [script] [region] variant* extlang*, without repeats */
static bool parse(vector<string> const& parts, Model& m)
{
	m = Model();
	int stage = 0;
	for (size_t i = 0; i < parts.size(); ++i) {
		if (i == 0) {
			if (!find(0, parts[0])) {
				return false;
			}
			m.one[0] = parts[0];
			stage = 1;
			continue;
		}
		int t = stage;
		while (t < 5 && !find(t, parts[i])) {
			++t;
		}
		if (t == 5) {
			return false;
		}
		if (t < 3) {
			m.one[t] = parts[i];
			stage = t + 1;
		} else {
			auto& v = m.many[t - 3];
			if (std::find(v.begin(), v.end(), parts[i]) != v.end()) {
				return false;
			}
			v.push_back(parts[i]);
			stage = t;
		}
	}
	return !parts.empty();
}

template <class T>
static string of(boost::optional<T> const& t)
{
	return t ? t->subtag() : "";
}

template <class T>
static vector<string> of(vector<T> const& t)
{
	vector<string> o;
	for (auto const& i: t) {
		o.push_back(i.subtag());
	}
	return o;
}

static Model of(LanguageTag const& t)
{
	Model m;
	m.one[0] = of(t.language());
	m.one[1] = of(t.script());
	m.one[2] = of(t.region());
	m.many[0] = of(t.variants());
	m.many[1] = of(t.extlangs());
	return m;
}

template <class F>
static bool refused(F f)
{
	try {
		f();
	} catch (dcp::LanguageTagError&) {
		return true;
	}
	return false;
}

/** Check everything that can be seen of t */
static void same(LanguageTag const& t, Model const& m, char const* how)
{
	MC_CHECK(of(t) == m, "%s: the parts are those of %s and not %s", how, of(t).text().c_str(), m.text().c_str());
	auto const subtags = t.subtags();
	auto const parts = m.parts();
	MC_CHECK(subtags.size() == parts.size(), "%s: there are %zu subtags instead of %zu", how, subtags.size(), parts.size());
	for (size_t i = 0; i < parts.size(); ++i) {
		auto data = find(parts[i].first, parts[i].second);
		MC_CHECK(
			subtags[i].first == types[parts[i].first] && data && subtags[i].second == LanguageTag::SubtagData(data->first, data->second),
			"%s: subtag %zu is %s, %s", how, i, subtags[i].second.subtag.c_str(), subtags[i].second.description.c_str()
			);
	}
	if (m.one[0].empty()) {
		MC_CHECK(refused([&]() { t.as_string(); }), "%s: a tag without a language was made into a string", how);
		MC_CHECK(refused([&]() { t.description(); }), "%s: a tag without a language was described", how);
		return;
	}
	MC_CHECK(t.as_string() == m.text(), "%s: the string is %s instead of %s", how, t.as_string().c_str(), m.text().c_str());
	MC_CHECK(t.description() == m.description(), "%s: the description is \"%s\" instead of \"%s\"", how, t.description().c_str(), m.description().c_str());
	std::stringstream s;
	s << t;
	MC_CHECK(s.str() == m.text(), "%s: %s was put in a stream", how, s.str().c_str());
}

static void text(vector<string> const& parts)
{
	string t;
	for (size_t i = 0; i < parts.size(); ++i) {
		t += (i ? "-" : "") + parts[i];
	}
	mc::transition();
	Model m;
	bool const ok = parse(parts, m);
	try {
		LanguageTag tag(t);
		MC_CHECK(ok, "%s was accepted as a language tag", t.c_str());
		same(tag, m, t.c_str());
		mc::state(t);
		mc::outcome(tag.description());
		static LanguageTag const other("ab-GB");
		MC_CHECK((tag == other) == (t == "ab-GB") && (tag != other) == (t != "ab-GB") && (tag < other) == (t < "ab-GB"), "%s does not compare with ab-GB as it should", t.c_str());
	} catch (dcp::LanguageTagError& e) {
		MC_CHECK(!ok, "%s was refused: %s", t.c_str(), e.what());
		mc::outcome("refused");
	}
}

struct Op
{
	string name;
	/** @return whether it should be accepted */
	std::function<bool (Model&)> model;
	std::function<void (LanguageTag&)> real;
};

static bool unique(vector<string> v)
{
	std::sort(v.begin(), v.end());
	return std::adjacent_find(v.begin(), v.end()) == v.end();
}

template <class T>
static vector<T> as(vector<string> const& v)
{
	vector<T> o;
	for (auto const& i: v) {
		o.push_back(T(i));
	}
	return o;
}

static vector<Op> operations()
{
	vector<Op> ops;
	for (string s: { "aa", "ab", "qqqx" }) {
		ops.push_back({ "language " + s, [s](Model& m) { return find(0, s) ? (m.one[0] = s, true) : false; }, [s](LanguageTag& t) { t.set_language(s); } });
	}
	for (string s: { "Adlm", "Afak" }) {
		ops.push_back({ "script " + s, [s](Model& m) { m.one[1] = s; return true; }, [s](LanguageTag& t) { t.set_script(s); } });
	}
	for (string s: { "AC", "GB" }) {
		ops.push_back({ "region " + s, [s](Model& m) { m.one[2] = s; return true; }, [s](LanguageTag& t) { t.set_region(s); } });
	}
	auto add = [](int n, string s) { return [n, s](Model& m) { m.many[n].push_back(s); if (unique(m.many[n])) { return true; } m.many[n].pop_back(); return false; }; };
	for (string s: { "1606nict", "1901" }) {
		ops.push_back({ "add variant " + s, add(0, s), [s](LanguageTag& t) { t.add_variant(s); } });
	}
	for (string s: { "aao", "abh" }) {
		ops.push_back({ "add extlang " + s, add(1, s), [s](LanguageTag& t) { t.add_extlang(s); } });
	}
	auto set = [](int n, vector<string> s) { return [n, s](Model& m) { return unique(s) ? (m.many[n] = s, true) : false; }; };
	for (auto v: vector<vector<string>>{ {}, { "1901", "1694acad", "1606nict" }, { "1901", "1694acad", "1901" }, { "1694acad", "1694acad" } }) {
		ops.push_back({ "set variants", set(0, v), [v](LanguageTag& t) { t.set_variants(as<LanguageTag::VariantSubtag>(v)); } });
	}
	for (auto v: vector<vector<string>>{ {}, { "abv", "aao" }, { "abv", "aao", "abv" } }) {
		ops.push_back({ "set extlangs", set(1, v), [v](LanguageTag& t) { t.set_extlangs(as<LanguageTag::ExtlangSubtag>(v)); } });
	}
	return ops;
}

/** Run the operations and check everything after the last */
static void history(vector<Op> const& ops, vector<int> const& v)
{
	LanguageTag t;
	Model m;
	bool accepted = true;
	bool expected = true;
	for (auto i: v) {
		expected = ops[i].model(m);
		accepted = !refused([&]() { ops[i].real(t); });
	}
	mc::transition();
	auto const last = v.empty() ? string("new") : ops[v.back()].name;
	MC_CHECK(accepted == expected, "%s was %s", last.c_str(), accepted ? "accepted" : "refused");
	same(t, m, last.c_str());
	if (mc::state(m.text() + (m.one[0].empty() ? "" : "!")) && !m.one[0].empty()) {
		LanguageTag const again(t.as_string());
		MC_CHECK(of(again) == m && again == t && !(again != t), "%s did not read back as it was written", t.as_string().c_str());
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	load();
	dcp::load_language_tag_lists("/repo/tags");

	int64_t unit = 0;
	for (int i = 0; i < 5; ++i) {
		auto const& list = lists[i];
		if (mc::mine(unit++) && mc::at("list", { i })) {
			auto const& all = LanguageTag::get_all(types[i]);
			MC_CHECK(all.size() == list.size(), "there are %zu subtags of type %s instead of %zu", all.size(), names[i], list.size());
			for (size_t j = 0; j < list.size(); ++j) {
				mc::transition();
				MC_CHECK(all[j] == LanguageTag::SubtagData(list[j].first, list[j].second) && !(all[j] != LanguageTag::SubtagData(list[j].first, list[j].second)),
					"%s %zu is %s, %s", names[i], j, all[j].subtag.c_str(), all[j].description.c_str());
			}
		}
		/* Every subtag, in any case, and near-misses */
		for (size_t j = 0; j < list.size(); j += (i == 0 && !mc::thorough()) ? 5 : 1) {
			if (!mc::mine(unit++)) {
				continue;
			}
			auto const s = list[j].first;
			vector<string> tries = { s, lower(s), upper(s) };
			if (i) {
				tries.insert(tries.end(), { s + "x", s.substr(1), s.substr(0, s.size() - 1), s + " ", "" });
			}
			for (size_t k = 0; k < tries.size(); ++k) {
				if (!mc::at("subtag", { i, int64_t(j), int64_t(k) })) {
					continue;
				}
				mc::transition();
				auto const& t = tries[k];
				auto const want = find(i, t);
				auto const data = LanguageTag::get_subtag_data(types[i], t);
				auto const description = LanguageTag::get_subtag_description(types[i], t);
				MC_CHECK(bool(data) == bool(want) && bool(description) == bool(want), "%s subtag \"%s\" was %s", names[i], t.c_str(), data ? "found" : "not found");
				MC_CHECK(!data || (*data == LanguageTag::SubtagData(want->first, want->second) && *description == want->second), "%s subtag %s is \"%s\"", names[i], t.c_str(), data->description.c_str());
			}
		}
	}
	if (mc::mine(unit++) && mc::at("dcnc")) {
		MC_CHECK(dcp::dcnc_tags() == lists[5], "the list of naming convention tags is not that in the file");
		for (size_t i = 0; i < lists[5].size(); ++i) {
			mc::transition();
			LanguageTag t(lists[5][i].first);
			MC_CHECK(t.as_string() == lists[5][i].first, "%s became %s", lists[5][i].first.c_str(), t.as_string().c_str());
		}
	}

	/* All texts */
	vector<string> const parts = { "aa", "ab", "AB", "Adlm", "aFAK", "GB", "ac", "419", "1606nict", "1901", "aao", "abh", "", "aa ", "zzzzz" };
	for (int n = 1; n <= (mc::thorough() ? 6 : 5); ++n) {
		mc::sequences(parts.size(), n, [&](vector<int> const& v) {
			/* Things which aren't a language are slow to refuse, and alike */
			if (!mc::mine(unit++) || (n > 2 && v[0] != (n < 5 ? v[0] % 2 : 0))) {
				return;
			}
			string key = "text";
			vector<string> p;
			for (auto i: v) {
				key += mc::format(":%d", i);
				p.push_back(parts[i]);
			}
			if (mc::at(key)) {
				text(p);
			}
		});
	}

	/* All histories */
	auto const ops = operations();
	for (int n = 0; n <= (mc::thorough() ? 5 : 4); ++n) {
		mc::sequences(ops.size(), n, [&](vector<int> const& v) {
			if (!mc::mine(unit++)) {
				return;
			}
			string key = "history";
			for (auto i: v) {
				key += mc::format(":%d", i);
			}
			if (mc::at(key)) {
				history(ops, v);
			}
		});
	}
	mc::finish();
}
