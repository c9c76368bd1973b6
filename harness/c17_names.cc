/* C17: the names of alignments and kinds of content */

#include "content_kind.h"
#include "exceptions.h"
#include "h_align.h"
#include "subtitle_standard.h"
#include "v_align.h"
#include "mc.h"
#include <set>

using std::string;
using std::vector;

/** @return canonical form of s if it is one of names in any case, otherwise empty */
static string find(string const& s, vector<string> const& names)
{
	for (auto const& n: names) {
		if (n.length() == s.length()) {
			bool same = true;
			for (size_t i = 0; i < n.length(); ++i) {
				same = same && (s[i] == n[i] || (n[i] >= 'a' && n[i] <= 'z' && s[i] == n[i] - 32));
			}
			if (same) {
				return n;
			}
		}
	}
	return "";
}

/** @return what s is read as, by way of its name; empty if it is refused */
static string read(int what, string const& s)
{
	mc::transition();
	try {
		switch (what) {
		case 0:
			return dcp::halign_to_string(dcp::string_to_halign(s));
		case 1:
			return dcp::valign_to_string(dcp::string_to_valign(s));
		default:
			return dcp::ContentKind::from_name(s).name();
		}
	} catch (dcp::BadContentKindError&) {
		return what == 2 ? "" : "?";
	} catch (dcp::ReadError&) {
		return what == 2 ? "?" : "";
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;
	vector<vector<string>> const names = {
		{ "left", "center", "right" },
		{ "top", "center", "bottom" },
		{
			"feature", "short", "trailer", "test", "transitional", "rating", "teaser", "policy", "psa", "advertisement", "clip", "promo",
			"stereocard", "episode", "highlights", "event"
		}
	};
	char const* kinds[] = { "horizontal alignment", "vertical alignment", "content kind" };
	auto check = [&](int what, string const& s) {
		auto const want = find(s, names[what]);
		auto const got = read(what, s);
		mc::trace();
		mc::state(s);
		mc::outcome(mc::format("%d", what) + got);
		MC_CHECK(got == want, "%s '%s' is read as '%s' rather than '%s'", kinds[what], s.c_str(), got.c_str(), want.c_str());
		if (mc::want_sample(want.empty() ? "refused" : "read")) {
			mc::sample(want.empty() ? "refused" : "read", s);
		}
	};
	for (int what = 0; what < 3; ++what) {
		for (size_t n = 0; n < names[what].size(); ++n) {
			auto const& name = names[what][n];
			/* every mixture of upper and lower case */
			for (int bits = 0; bits < (1 << name.length()); ++bits) {
				if (!mc::mine(unit++) || !mc::at("case", { what, int64_t(n), bits })) {
					continue;
				}
				auto s = name;
				for (size_t i = 0; i < s.length(); ++i) {
					if ((bits >> i) & 1) {
						s[i] -= 32;
					}
				}
				check(what, s);
			}
			/* every single edit */
			for (size_t p = 0; p <= name.length(); ++p) {
				if (!mc::mine(unit++)) {
					continue;
				}
				for (int c = 0; c < 256; ++c) {
					if (mc::at("insert", { what, int64_t(n), int64_t(p), c })) {
						check(what, name.substr(0, p) + char(c) + name.substr(p));
					}
					if (p < name.length() && mc::at("change", { what, int64_t(n), int64_t(p), c })) {
						check(what, name.substr(0, p) + char(c) + name.substr(p + 1));
					}
				}
				if (mc::at("truncate", { what, int64_t(n), int64_t(p) })) {
					check(what, name.substr(0, p));
				}
				if (p < name.length() && mc::at("delete", { what, int64_t(n), int64_t(p) })) {
					check(what, name.substr(0, p) + name.substr(p + 1));
				}
			}
			/* each is not another sort of name */
			for (int other = 0; other < 3; ++other) {
				if (mc::mine(unit++) && mc::at("other", { what, int64_t(n), other })) {
					check(other, name);
				}
			}
		}
		/* every short string of letters */
		for (int length = 0; length <= 3; ++length) {
			mc::sequences(26, length, [&](vector<int> const& v) {
				if (!mc::mine(unit++)) {
					return;
				}
				string s;
				for (auto i: v) {
					s += char('a' + i);
				}
				if (mc::at(mc::format("short:%d:", what) + s)) {
					check(what, s);
				}
			});
		}
	}

	if (mc::mine(unit++)) {
		if (mc::at("values")) {
			using namespace dcp;
			MC_CHECK(string_to_halign("left") == HAlign::LEFT && string_to_halign("center") == HAlign::CENTER && string_to_halign("right") == HAlign::RIGHT, "horizontal alignments are confused");
			MC_CHECK(string_to_valign("top") == VAlign::TOP && string_to_valign("center") == VAlign::CENTER && string_to_valign("bottom") == VAlign::BOTTOM, "vertical alignments are confused");
			MC_CHECK(!uses_baseline(SubtitleStandard::SMPTE_2007) && !uses_baseline(SubtitleStandard::SMPTE_2010), "2007 and 2010 do not use baselines");
			MC_CHECK(uses_baseline(SubtitleStandard::SMPTE_2014) && uses_baseline(SubtitleStandard::INTEROP), "2014 and Interop use baselines");
			MC_CHECK(uses_bounding_box(SubtitleStandard::SMPTE_2007) && uses_bounding_box(SubtitleStandard::SMPTE_2010), "2007 and 2010 use bounding boxes");
			MC_CHECK(!uses_bounding_box(SubtitleStandard::SMPTE_2014) && !uses_bounding_box(SubtitleStandard::INTEROP), "2014 and Interop do not use bounding boxes");
			mc::trace(4);
		}
		if (mc::at("kinds")) {
			using namespace dcp;
			string const a = "http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/content-kind";
			string const b = "http://www.smpte-ra.org/schemas/2067-3/2013#content-kind";
			struct { ContentKind kind; string name; string scope; } const kinds[] = {
				{ ContentKind::FEATURE, "feature", "" }, { ContentKind::SHORT, "short", "" }, { ContentKind::TRAILER, "trailer", "" }, { ContentKind::TEST, "test", "" },
				{ ContentKind::TRANSITIONAL, "transitional", "" }, { ContentKind::RATING, "rating", "" }, { ContentKind::TEASER, "teaser", "" },
				{ ContentKind::POLICY, "policy", "" }, { ContentKind::PUBLIC_SERVICE_ANNOUNCEMENT, "psa", "" }, { ContentKind::ADVERTISEMENT, "advertisement", "" },
				{ ContentKind::CLIP, "clip", a }, { ContentKind::PROMO, "promo", a }, { ContentKind::STEREOCARD, "stereocard", a },
				{ ContentKind::EPISODE, "episode", b }, { ContentKind::HIGHLIGHTS, "highlights", b }, { ContentKind::EVENT, "event", b }
			};
			auto const all = ContentKind::all();
			MC_CHECK(all.size() == 16, "there are %d kinds", int(all.size()));
			for (auto const& i: kinds) {
				mc::trace();
				mc::transition();
				MC_CHECK(i.kind.name() == i.name && i.kind.scope().get_value_or("") == i.scope && bool(i.kind.scope()) == !i.scope.empty(), "kind %s has name %s and scope '%s'", i.name.c_str(), i.kind.name().c_str(), i.kind.scope().get_value_or("").c_str());
				auto const found = ContentKind::from_name(i.name);
				MC_CHECK(found == i.kind && !(found != i.kind) && found.scope() == i.kind.scope(), "%s is not found by name", i.name.c_str());
				int n = 0;
				for (auto const& j: all) {
					n += j == i.kind;
				}
				MC_CHECK(n == 1, "%s is %d times in the list of all kinds", i.name.c_str(), n);
			}
			/* equality is of both name and scope */
			boost::optional<string> const scopes[] = { boost::none, string(""), string("x"), a };
			for (string x: { "feature", "clip", "Feature", "" }) {
				for (string y: { "feature", "clip", "Feature", "" }) {
					for (auto const& p: scopes) {
						for (auto const& q: scopes) {
							ContentKind const k(x, p), l(y, q);
							bool const same = x == y && bool(p) == bool(q) && (!p || *p == *q);
							mc::transition();
							MC_CHECK((k == l) == same && (k != l) == !same, "comparison of kinds '%s' and '%s' is wrong", x.c_str(), y.c_str());
						}
					}
				}
			}
		}
	}
	mc::finish();
}
