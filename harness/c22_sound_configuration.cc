/* C22: the configuration of the main sound, as text and as a mapping of channels */

#include "exceptions.h"
#include "main_sound_configuration.h"
#include <asdcp/AS_DCP.h>
#include "mc.h"

using std::string;
using std::vector;
using boost::optional;
using dcp::Channel;
using dcp::MainSoundConfiguration;
using dcp::MCASoundField;

static vector<MCASoundField> const fields = { MCASoundField::FIVE_POINT_ONE, MCASoundField::SEVEN_POINT_ONE, MCASoundField::OTHER };

/** Ids and what they mean */
static vector<std::pair<string, int>> const ids = {
	{ "l", 0 }, { "r", 1 }, { "c", 2 }, { "lfe", 3 }, { "ls", 4 }, { "lss", 4 }, { "lslss", 4 }, { "rs", 5 }, { "rss", 5 }, { "rsrss", 5 },
	{ "hi", 6 }, { "vin", 7 }, { "vi-n", 7 }, { "lc", 8 }, { "rc", 9 }, { "lrs", 10 }, { "lsr", 10 }, { "rrs", 11 }, { "rsr", 11 },
	{ "dbox", 12 }, { "dbox2", 12 }, { "mtn", 12 }, { "sync", 13 }, { "fsksync", 13 }, { "slvs", 14 }
};

static vector<int> const channels = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14 };

/** @return channel, -1 if none or -2 if not known */
static int meaning(string s)
{
	if (s == "-") {
		return -1;
	}
	for (auto& c: s) {
		c = tolower(c);
	}
	for (auto const& i: ids) {
		if (i.first == s) {
			return i.second;
		}
	}
	return -2;
}

struct Model
{
	string field;
	bool valid = true;
	vector<int> channels;
};

static int field_of(string const& s)
{
	return s == "51" ? 0 : (s == "71" ? 1 : 2);
}

static Model parse(string const& s)
{
	Model m;
	auto const slash = s.find('/');
	m.field = s.substr(0, slash);
	if (slash == string::npos) {
		return m;
	}
	string rest = s.substr(slash + 1);
	rest = rest.substr(0, rest.find('/'));
	string part;
	for (char c: rest + ",") {
		if (c == ',') {
			m.channels.push_back(meaning(part));
			m.valid = m.valid && m.channels.back() != -2;
			part = "";
		} else {
			part += c;
		}
	}
	if (m.channels.size() > 16) {
		m.valid = false;
	}
	return m;
}

template <class F>
static bool refused(F f)
{
	try {
		f();
	} catch (dcp::MainSoundConfigurationError&) {
		return true;
	}
	return false;
}

static void same(MainSoundConfiguration const& c, Model const& m)
{
	auto const text = c.as_string();
	MC_CHECK(c.valid() == m.valid, "\"%s\" is %s", text.c_str(), c.valid() ? "valid" : "not valid");
	if (!m.valid) {
		MC_CHECK(refused([&]() { c.field(); }) && refused([&]() { c.channels(); }) && refused([&]() { c.mapping(0); }), "something was got from the invalid \"%s\"", text.c_str());
		return;
	}
	MC_CHECK(c.field() == fields[field_of(m.field)], "\"%s\" has the wrong field", text.c_str());
	MC_CHECK(c.channels() == int(m.channels.size()), "\"%s\" has %d channels instead of %zu", text.c_str(), c.channels(), m.channels.size());
	for (size_t i = 0; i < m.channels.size(); ++i) {
		auto const x = c.mapping(i);
		MC_CHECK(bool(x) == (m.channels[i] >= 0) && (!x || int(*x) == m.channels[i]), "channel %zu of \"%s\" is %d instead of %d", i, text.c_str(), x ? int(*x) : -1, m.channels[i]);
	}
}

static void text(string const& s)
{
	mc::transition();
	MainSoundConfiguration const c(s);
	MC_CHECK(c.as_string() == s, "\"%s\" became \"%s\"", s.c_str(), c.as_string().c_str());
	same(c, parse(s));
	mc::outcome(mc::format("%d", c.valid()) + s);
}

static void history(int start, vector<int> const& v)
{
	vector<string> const texts = { "51/L,R,C,LFE,Ls,Rs,HI,VIN", "71/L,-,C,LFE,Lss,Rss,Lc,Rc,Lrs,Rrs", "ST/L,R", "51", "51/L,foo" };
	std::unique_ptr<MainSoundConfiguration> c;
	Model m;
	if (start < int(texts.size())) {
		c.reset(new MainSoundConfiguration(texts[start]));
		m = parse(texts[start]);
	} else {
		int const n = (start - texts.size()) % 3;
		int const f = (start - texts.size()) / 3;
		int const size[] = { 0, 2, 16 };
		c.reset(new MainSoundConfiguration(fields[f], size[n]));
		m.field = f ? "71" : "51";
		m.channels.resize(size[n], -1);
	}
	auto const original = c->as_string();
	for (auto i: v) {
		if (i < 4) {
			int const n[] = { 0, 1, 6, 16 };
			if (m.valid) {
				c->set_channels(n[i]);
				m.channels.resize(n[i], -1);
			}
		} else {
			int const at = (i - 4) / 6 ? 5 : 0;
			int const ch[] = { 0, 4, 8, 11, 13, 14 };
			bool const no = refused([&]() { if (!m.valid || at < int(m.channels.size())) { c->set_mapping(at, Channel(ch[(i - 4) % 6])); } });
			MC_CHECK(no == !m.valid, "a mapping was %s", no ? "refused" : "accepted");
			if (m.valid && at < int(m.channels.size())) {
				m.channels[at] = ch[(i - 4) % 6];
			}
		}
		mc::transition();
	}
	same(*c, m);
	auto const t = c->as_string();
	mc::state(t);
	if (m.valid) {
		same(MainSoundConfiguration(t), m);
	} else {
		MC_CHECK(t == original, "\"%s\" became \"%s\"", original.c_str(), t.c_str());
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;

	/* Each channel is written as an id that means it, and differently from the others */
	for (size_t f = 0; f < fields.size(); ++f) {
		if (mc::mine(unit++) && mc::at("channels", { int64_t(f) })) {
			std::set<string> seen, names, labels;
			auto const used = dcp::used_audio_channels();
			for (auto c: used) {
				mc::transition();
				auto const id = dcp::channel_to_mca_id(c, fields[f]);
				auto const back = dcp::mca_id_to_channel(id);
				MC_CHECK(back && *back == c && meaning(id) == int(c), "channel %d has id %s", int(c), id.c_str());
				MC_CHECK(seen.insert(id).second, "id %s is used twice", id.c_str());
				MC_CHECK(names.insert(dcp::channel_to_mca_name(c, fields[f])).second, "name %s is used twice", dcp::channel_to_mca_name(c, fields[f]).c_str());
				auto const label = dcp::channel_to_mca_universal_label(c, fields[f], &ASDCP::DefaultSMPTEDict());
				MC_CHECK(labels.insert(string(reinterpret_cast<char const*>(label.Value()), 16)).second, "the label of channel %s is used twice", id.c_str());
			}
			MC_CHECK(seen.size() == 13, "there are %zu used channels", seen.size());
		}
	}
	/* Every id in every mixture of case, and every single edit of it */
	for (size_t i = 0; i < ids.size(); ++i) {
		auto const& s = ids[i].first;
		for (int mask = 0; mask < (1 << s.size()); ++mask) {
			if (mc::mine(unit++) && mc::at("case", { int64_t(i), mask })) {
				mc::transition();
				auto t = s;
				for (size_t j = 0; j < t.size(); ++j) {
					t[j] = mask & (1 << j) ? toupper(t[j]) : t[j];
				}
				auto const c = dcp::mca_id_to_channel(t);
				MC_CHECK(c && int(*c) == ids[i].second, "%s was not understood", t.c_str());
				text("51/" + t);
			}
		}
		string const letters = "abcdefhilmnorstvxy-2 ";
		for (size_t p = 0; p <= s.size(); ++p) {
			for (size_t l = 0; l <= letters.size(); ++l) {
				if (!mc::mine(unit++) || !mc::at("edit", { int64_t(i), int64_t(p), int64_t(l) })) {
					continue;
				}
				for (int how = 0; how < 2; ++how) {
					auto t = s;
					if (p < s.size()) {
						t.erase(p, how);
					}
					if (l < letters.size()) {
						t.insert(p, 1, letters[l]);
					}
					if (t == "-") {
						continue;
					}
					mc::transition();
					auto const c = dcp::mca_id_to_channel(t);
					MC_CHECK((c ? int(*c) : -2) == meaning(t), "\"%s\" was understood as channel %d", t.c_str(), c ? int(*c) : -1);
				}
			}
		}
	}
	/* All texts */
	vector<string> const words = { "L", "R", "C", "LFE", "Ls", "rss", "HI", "VIN", "Lc", "Rc", "Lrs", "Rrs", "DBOX", "FSKSync", "SLVS", "-", "X", "" };
	vector<string> const starts = { "51/", "71/", "/", "ST/", "5/", "511/", "51", "71", "", "foo" };
	for (auto const& s: starts) {
		for (auto const& end: { "", "/", "/L", "/X" }) {
			auto const with = s.find('/') != string::npos;
			for (int n = with ? 1 : 0; n <= (with ? 3 : 0); ++n) {
				mc::sequences(words.size(), n, [&](vector<int> const& v) {
					if (!mc::mine(unit++) || (n == 3 && *end)) {
						return;
					}
					string t = s;
					for (int i = 0; i < n; ++i) {
						t += (i ? "," : "") + words[v[i]];
					}
					t += end;
					if (mc::at("text:" + t)) {
						text(t);
					}
				});
			}
		}
		for (int n = 1; n < 20; ++n) {
			for (auto const& w: { "L", "-", "X" }) {
				string t = s;
				for (int i = 0; i < n; ++i) {
					t += string(i ? "," : "") + (i == n - 1 ? w : (i % 3 ? "R" : "-"));
				}
				if (mc::mine(unit++) && s.find('/') != string::npos && mc::at("text:" + t)) {
					text(t);
				}
			}
		}
	}
	/* All histories */
	for (int start = 0; start < 11; ++start) {
		for (int n = 0; n <= (mc::thorough() ? 4 : 3); ++n) {
			mc::sequences(16, n, [&](vector<int> const& v) {
				if (!mc::mine(unit++)) {
					return;
				}
				string key = mc::format("history:%d", start);
				for (auto i: v) {
					key += mc::format(":%d", i);
				}
				if (mc::at(key)) {
					history(start, v);
				}
			});
		}
	}
	mc::finish();
}
