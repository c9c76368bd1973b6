/* C27: subtitles and captions come back from a file as they were.
 *
 * The reference is a list of pieces of text (or images) with all their properties.  Pieces with the same
 * position and times make up a line, and what is judged is what a line says, and how each part of it looks.
 */

#include "mc.h"
#include "assets.h"
#include "equality_options.h"
#include "exceptions.h"
#include "font_asset.h"
#include "load_font_node.h"
#include "xmlref.h"
#include <libxml++/libxml++.h>
#include <boost/integer/common_factor.hpp>

using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;

static string dir;
static string const ids[] = {
	"6a2d1c80-3f0b-4c8e-9a55-0d3bd1f7c101",
	"6a2d1c80-3f0b-4c8e-9a55-0d3bd1f7c102",
	"6a2d1c80-3f0b-4c8e-9a55-0d3bd1f7c103",
};

struct Z
{
	float position;
	int64_t duration;
};

struct Piece
{
	/* Where it goes */
	int tcr = 24;
	int64_t in = 24;
	int64_t out = 48;
	int64_t up = 0;
	int64_t down = 0;
	double h = 0;
	dcp::HAlign h_align = dcp::HAlign::CENTER;
	double v = 0;
	dcp::VAlign v_align = dcp::VAlign::TOP;
	double z = 0;
	vector<Z> vz;
	dcp::Direction direction = dcp::Direction::LTR;
	vector<dcp::Ruby> rubies;
	/* Its look */
	optional<string> font;
	bool italic = false;
	bool bold = false;
	bool underline = false;
	dcp::Colour colour = dcp::Colour(255, 255, 255);
	int size = 42;
	double aspect = 1;
	dcp::Effect effect = dcp::Effect::NONE;
	dcp::Colour effect_colour = dcp::Colour(0, 0, 0);
	double space = 0;
	string text = "a";
	/* or a picture */
	int image = -1;
};

/** A standard, and how things are written and read */
struct How
{
	dcp::SubtitleStandard standard;
	int tcr;
	bool interop() const { return standard == dcp::SubtitleStandard::INTEROP; }
};

static vector<How> const hows = {
	{ dcp::SubtitleStandard::INTEROP, 250 },
	{ dcp::SubtitleStandard::SMPTE_2007, 24 },
	{ dcp::SubtitleStandard::SMPTE_2010, 25 },
	{ dcp::SubtitleStandard::SMPTE_2014, 250 },
};

static dcp::Time time_of(int64_t units, int tcr)
{
	return dcp::Time(units / tcr / 3600, units / tcr / 60 % 60, units / tcr % 60, units % tcr, tcr);
}

static shared_ptr<dcp::Text> make(Piece const& p)
{
	vector<dcp::Text::VariableZPosition> vz;
	for (auto const& i: p.vz) {
		vz.push_back({ i.position, i.duration });
	}
	auto const in = time_of(p.in, p.tcr);
	auto const out = time_of(p.out, p.tcr);
	auto const up = time_of(p.up, p.tcr);
	auto const down = time_of(p.down, p.tcr);
	if (p.image >= 0) {
		return make_shared<dcp::TextImage>(assets::png(p.image), ids[p.image], in, out, p.h, p.h_align, p.v, p.v_align, p.z, vz, up, down);
	}
	return make_shared<dcp::TextString>(
		p.font, p.italic, p.bold, p.underline, p.colour, p.size, p.aspect, in, out, p.h, p.h_align, p.v, p.v_align, p.z, vz,
		p.direction, p.text, p.effect, p.effect_colour, up, down, p.space, p.rubies
		);
}

/* Text of a line (its place) and of the look of part of it */

static string fraction(int64_t n, int64_t d)
{
	auto const g = boost::integer::gcd(n, d);
	return g ? mc::format("%lld/%lld", (long long) (n / g), (long long) (d / g)) : "0";
}

static string describe(dcp::Time t)
{
	return fraction(((t.h * 60LL + t.m) * 60 + t.s) * t.tcr + t.e, t.tcr);
}

static string number(double v)
{
	auto const s = mc::format("%.4f", v);
	return s == "-0.0000" ? "0.0000" : s;
}

static string describe(dcp::Colour c)
{
	return mc::format("%d,%d,%d", c.r, c.g, c.b);
}

static string describe(vector<dcp::Ruby> const& rubies)
{
	string s;
	for (auto const& r: rubies) {
		s += " ruby " + r.base + "|" + r.annotation + "|" + number(r.size) + "|" + (r.position == dcp::RubyPosition::BEFORE ? "before" : "after") + "|" + number(r.offset) + "|" + number(r.spacing) + "|" + number(r.aspect_adjust);
	}
	return s;
}

struct Run
{
	string place;
	string look;
	double space = 0;
	string text;
	bool image = false;
};

static string place(string in, string out, string up, string down, double h, dcp::HAlign ha, double v, dcp::VAlign va, double z, string vz)
{
	return in + "-" + out + " fade " + up + " " + down + " h " + number(h) + (ha == dcp::HAlign::LEFT ? "left" : (ha == dcp::HAlign::RIGHT ? "right" : "centre"))
		+ " v " + number(v) + (va == dcp::VAlign::TOP ? "top" : (va == dcp::VAlign::BOTTOM ? "bottom" : "centre")) + " z " + number(z) + vz;
}

static string look(optional<string> font, bool i, bool b, bool u, dcp::Colour c, int size, double aspect, dcp::Effect e, dcp::Colour ec)
{
	return "font " + (font ? "'" + *font + "'" : string("none")) + (i ? " italic" : "") + (b ? " bold" : "") + (u ? " underlined" : "") + " colour " + describe(c)
		+ mc::format(" size %d aspect %.2f effect ", size, aspect) + (e == dcp::Effect::NONE ? "none" : (e == dcp::Effect::BORDER ? "border" : "shadow")) + " " + describe(ec);
}

/** @param interop true to leave out what Interop cannot say */
static Run run(Piece const& p, bool interop)
{
	string vz;
	for (auto const& i: p.vz) {
		vz += mc::format(" %.1fx%lld", i.position, (long long) i.duration);
	}
	Run r;
	r.place = place(fraction(p.in, p.tcr), fraction(p.out, p.tcr), fraction(p.up, p.tcr), fraction(p.down, p.tcr), p.h, p.h_align, p.v, p.v_align, interop ? 0 : p.z, vz);
	if (p.image >= 0) {
		r.image = true;
		auto const png = assets::png(p.image);
		r.text = ids[p.image] + " " + assets::digest(string(reinterpret_cast<char const*>(png.data()), png.size()));
		return r;
	}
	r.place += mc::format(" direction %d", interop ? 0 : int(p.direction)) + describe(p.rubies);
	r.look = look(p.font, p.italic, p.bold, p.underline, p.colour, p.size, p.aspect, p.effect, p.effect_colour);
	r.space = p.space;
	r.text = p.text;
	return r;
}

static Run run(dcp::Text const& t, bool interop)
{
	string vz;
	for (auto const& i: t.variable_z_positions()) {
		vz += mc::format(" %.1fx%lld", i.position, (long long) i.duration);
	}
	Run r;
	r.place = place(describe(t.in()), describe(t.out()), describe(t.fade_up_time()), describe(t.fade_down_time()), t.h_position(), t.h_align(), t.v_position(), t.v_align(), interop ? 0 : t.z_position(), vz);
	if (auto i = dynamic_cast<dcp::TextImage const*>(&t)) {
		r.image = true;
		auto const png = i->png_image();
		r.text = i->id() + " " + assets::digest(string(reinterpret_cast<char const*>(png.data()), png.size()));
		return r;
	}
	auto const& s = dynamic_cast<dcp::TextString const&>(t);
	r.place += mc::format(" direction %d", interop ? 0 : int(s.direction())) + describe(s.rubies());
	r.look = look(s.font(), s.italic(), s.bold(), s.underline(), s.colour(), s.size(), s.aspect_adjust(), s.effect(), s.effect_colour());
	r.space = s.space_before();
	r.text = s.text();
	return r;
}

/** What is shown: for each place, what is there */
static string shown(vector<Run> const& runs)
{
	std::map<string, vector<Run>> lines;
	for (auto const& r: runs) {
		if (r.text.empty() && !r.image) {
			continue;
		}
		auto& line = lines[r.place];
		if (!line.empty() && !r.image && !line.back().image && line.back().look == r.look && number(r.space) == "0.0000") {
			line.back().text += r.text;
		} else {
			line.push_back(r);
		}
	}
	string s;
	for (auto const& i: lines) {
		s += "[" + i.first + "]\n";
		for (auto const& j: i.second) {
			s += "  " + (j.image ? "image " + j.text : j.look + " space " + number(j.space) + " `" + j.text + "'") + "\n";
		}
	}
	return s;
}

static string shown(vector<Piece> const& pieces, bool interop)
{
	vector<Run> runs;
	for (auto const& p: pieces) {
		runs.push_back(run(p, interop));
	}
	return shown(runs);
}

static string shown(dcp::TextAsset const& asset, bool interop)
{
	vector<Run> runs;
	for (auto const& t: asset.texts()) {
		runs.push_back(run(*t, interop));
	}
	return shown(runs);
}

static shared_ptr<dcp::TextAsset> asset(How const& how)
{
	if (how.interop()) {
		auto a = make_shared<dcp::InteropTextAsset>();
		a->set_reel_number("1");
		a->set_language("English");
		a->set_movie_title("title");
		return a;
	}
	auto a = make_shared<dcp::SMPTETextAsset>(how.standard);
	a->set_time_code_rate(how.tcr);
	a->set_edit_rate(dcp::Fraction(25, 1));
	a->set_issue_date(dcp::LocalTime("2020-01-02T03:04:05+00:00"));
	a->set_content_title_text("title");
	return a;
}

static shared_ptr<dcp::TextAsset> read(How const& how, string const& file)
{
	if (how.interop()) {
		return make_shared<dcp::InteropTextAsset>(file);
	}
	return make_shared<dcp::SMPTETextAsset>(file);
}

/** The order of what is read: by time, and then down the screen */
static void check_order(dcp::TextAsset const& asset, string const& what)
{
	auto const texts = asset.texts();
	for (size_t i = 1; i < texts.size(); ++i) {
		auto const& a = *texts[i - 1];
		auto const& b = *texts[i];
		MC_CHECK(a.in() <= b.in(), "%s: a text which starts at %s is written after one which starts at %s", what.c_str(), describe(b.in()).c_str(), describe(a.in()).c_str());
		bool one = true;
		for (auto const& j: texts) {
			one = one && (j->in() != a.in() || j->v_align() == a.v_align());
		}
		if (one && a.in() == b.in()) {
			MC_CHECK(
				a.v_align() == dcp::VAlign::BOTTOM ? a.v_position() >= b.v_position() - 1e-5 : a.v_position() <= b.v_position() + 1e-5,
				"%s: a text at %f is written before one at %f", what.c_str(), a.v_position(), b.v_position()
				);
		}
	}
}

/** Write pieces, as XML and perhaps as an asset's file, and read them back */
static void round_trip(How const& how, vector<Piece> pieces, bool as_file)
{
	auto a = asset(how);
	bool images = false;
	for (auto& p: pieces) {
		p.tcr = how.tcr;
		a->add(make(p));
		images = images || p.image >= 0;
	}
	auto const want = shown(pieces, how.interop());
	MC_CHECK(shown(*a, how.interop()) == want, "texts which were added as\n%sare given as\n%s", want.c_str(), shown(*a, how.interop()).c_str());
	auto const file = dir + "/text";
	vector<bool> ways;
	if (!images || !how.interop()) {
		ways.push_back(false);
	}
	if (as_file) {
		ways.push_back(true);
	}
	for (bool whole: ways) {
		try {
			if (whole) {
				a->write(file);
			} else {
				for (auto const& p: pieces) {
					if (p.image >= 0) {
						assets::png(p.image).write(dir + "/" + ids[p.image] + ".png");
					}
				}
				assets::put(file, a->xml_as_string());
			}
			auto b = read(how, file);
			auto const got = shown(*b, how.interop());
			mc::transition(2);
			mc::trace();
			MC_CHECK(got == want, "texts\n%sare\n%safter writing and reading%s", want.c_str(), got.c_str(), whole ? " the asset" : "");
			check_order(*b, "texts\n" + want);
			MC_CHECK(b->subtitle_standard() == how.standard, "a different standard is read");
			if (!images && as_file) {
				assets::put(file, b->xml_as_string());
				MC_CHECK(shown(*read(how, file), how.interop()) == want, "texts\n%sare different after writing, reading, writing and reading", want.c_str());
			}
		} catch (std::exception& e) {
			mc::violation("texts\n" + want + "cannot be written and read: " + e.what());
		}
		for (auto const& p: pieces) {
			if (p.image >= 0) {
				unlink((dir + "/" + ids[p.image] + ".png").c_str());
			}
		}
		unlink(file.c_str());
	}
	mc::state(mc::format("%d", int(how.standard)) + want);
	mc::outcome(want);
	if (mc::want_sample("round trip")) {
		mc::sample("round trip", want);
	}
}

typedef std::function<void (Piece&, How const&)> Set;

/** Each property of a text and some values of it */
static vector<vector<Set>> values()
{
	vector<vector<Set>> v;
#define S(x) [](Piece& p, How const& h) { (void) p; (void) h; x; }
	v.push_back({ S(p.in = 0), S(p.in = 1), S(p.in = 59 * h.tcr + h.tcr - 1), S(p.in = 3600LL * h.tcr * 9 + 61 * h.tcr + 7; p.out = p.in + 5) });
	v.push_back({ S(p.out = p.in + 1), S(p.out = p.in + 60LL * 60 * h.tcr - 1), S(p.out = 3600LL * h.tcr * 23 + 3) });
	v.push_back({ S(p.up = 1), S(p.up = h.tcr), S(p.up = 8 * h.tcr), S(p.up = 2 * h.tcr - 1) });
	v.push_back({ S(p.down = 1), S(p.down = h.tcr), S(p.down = 8 * h.tcr), S(p.down = 2 * h.tcr - 1) });
	v.push_back({ S(p.h = 0.25), S(p.h = -0.125), S(p.h = 0.0333), S(p.h = 1) });
	v.push_back({ S(p.h_align = dcp::HAlign::LEFT), S(p.h_align = dcp::HAlign::RIGHT) });
	v.push_back({ S(p.v = 0.25), S(p.v = -0.125), S(p.v = 0.0333), S(p.v = 1) });
	v.push_back({ S(p.v_align = dcp::VAlign::CENTER), S(p.v_align = dcp::VAlign::BOTTOM) });
	v.push_back({ S(p.z = 0.25), S(p.z = -0.125) });
	v.push_back({ S(p.vz = (vector<Z>{ { 1, 1 } })), S(p.vz = (vector<Z>{ { -2.5, 4 }, { 0, 1 }, { 3.5, 20 } })) });
	v.push_back({ S(p.direction = dcp::Direction::RTL), S(p.direction = dcp::Direction::TTB), S(p.direction = dcp::Direction::BTT) });
	v.push_back({
		S(p.rubies = (vector<dcp::Ruby>{ dcp::Ruby("base", "an") })),
		S(p.rubies = (vector<dcp::Ruby>{ dcp::Ruby("a&b", "<c>"), dcp::Ruby("d", "e") }); p.rubies[0].size = 0.75; p.rubies[0].position = dcp::RubyPosition::AFTER; p.rubies[0].offset = 0.5; p.rubies[1].spacing = 0.25; p.rubies[1].aspect_adjust = 1.5)
	});
	v.push_back({ S(p.font = string("font")), S(p.font = string("other")), S(p.font = string("")), S(p.font = string("a & b")), S(p.font = string("<\"x'>")) });
	v.push_back({ S(p.italic = true) });
	v.push_back({ S(p.bold = true) });
	v.push_back({ S(p.underline = true) });
	v.push_back({ S(p.colour = dcp::Colour(1, 2, 3)), S(p.colour = dcp::Colour(0, 128, 254)), S(p.colour = dcp::Colour(0, 0, 0)) });
	v.push_back({ S(p.size = 1), S(p.size = 100), S(p.size = 43) });
	v.push_back({ S(p.aspect = 0.5), S(p.aspect = 1.1), S(p.aspect = 4), S(p.aspect = 0.25) });
	v.push_back({ S(p.effect = dcp::Effect::BORDER), S(p.effect = dcp::Effect::SHADOW) });
	v.push_back({ S(p.effect_colour = dcp::Colour(1, 2, 3)), S(p.effect_colour = dcp::Colour(255, 0, 16)) });
	v.push_back({ S(p.space = 0.5), S(p.space = -0.25), S(p.space = 1.5), S(p.space = 12) });
	v.push_back({ S(p.text = " "), S(p.text = " a  b "), S(p.text = "<&>\"']]>"), S(p.text = "\xe2\x99\xaa \xc3\xa9\xf0\x9f\x98\x80"), S(p.text = "a\nb\tc"), S(p.text = "\n") });
	v.push_back({ S(p.image = 0), S(p.image = 1) });
#undef S
	return v;
}

/** The place of the property which makes an image */
static size_t const IMAGE = 23;

/** Every value of every property of one text, and those of every two properties together */
static void singles(int64_t& unit)
{
	auto const v = values();
	for (size_t h = 0; h < hows.size(); ++h) {
		for (size_t i = 0; i < v.size(); ++i) {
			for (size_t j = i; j < v.size(); ++j) {
				if (!mc::mine(unit++)) {
					continue;
				}
				for (size_t a = 0; a < v[i].size(); ++a) {
					for (size_t b = 0; b < (i == j ? 1 : v[j].size()); ++b) {
						if (!mc::at("single", { int64_t(h), int64_t(i), int64_t(j), int64_t(a), int64_t(b) })) {
							continue;
						}
						Piece p;
						p.in = hows[h].tcr;
						p.out = 2 * hows[h].tcr;
						v[i][a](p, hows[h]);
						if (i != j) {
							v[j][b](p, hows[h]);
						}
						round_trip(hows[h], { p }, i == j || i == IMAGE || j == IMAGE);
					}
				}
			}
		}
	}
}

/** Two texts, the second of which differs from the first in up to two ways */
static void doubles(int64_t& unit)
{
	auto const v = values();
	for (int h: { 0, 1 }) {
		for (size_t i = 0; i < v.size(); ++i) {
			for (size_t j = i; j < v.size(); ++j) {
				if (!mc::mine(unit++)) {
					continue;
				}
				/* Pieces of one line must agree about rubies and Z positions over time */
				auto same_line = [h](size_t k) { return (k >= 9 && k != IMAGE && k != 10) || (hows[h].interop() && (k == 8 || k == 10)); };
				bool const line = same_line(i) && same_line(j);
				if (line && (i == 9 || i == 11 || j == 9 || j == 11)) {
					continue;
				}
				for (size_t a = 0; a < std::min(v[i].size(), size_t(2)); ++a) {
					for (size_t b = 0; b < (i == j ? 1 : std::min(v[j].size(), size_t(2))); ++b) {
						for (int order = 0; order < 2; ++order) {
							if (!mc::at("double", { h, int64_t(i), int64_t(j), int64_t(a), int64_t(b), order })) {
								continue;
							}
							Piece p, q;
							p.in = hows[h].tcr;
							p.out = 2 * hows[h].tcr;
							p.text = "first";
							q = p;
							q.text = "second";
							v[i][a](order ? q : p, hows[h]);
							if (i != j) {
								v[j][b](q, hows[h]);
							}
							round_trip(hows[h], { p, q }, i == IMAGE || j == IMAGE);
						}
					}
				}
			}
		}
	}
}

/** Sequences of texts with all combinations of some looks, each in the same line as the last, another line or another subtitle */
static void looks(int64_t& unit)
{
	typedef std::function<void (Piece&)> Look;
	vector<Look> const all = {
		[](Piece& p) { p.bold = true; },
		[](Piece& p) { p.colour = dcp::Colour(255, 0, 0); },
		[](Piece& p) { p.font = string("font"); },
		[](Piece& p) { p.italic = true; },
		[](Piece& p) { p.underline = true; },
		[](Piece& p) { p.size = 60; },
		[](Piece& p) { p.effect = dcp::Effect::BORDER; },
		[](Piece& p) { p.effect_colour = dcp::Colour(9, 9, 9); },
		[](Piece& p) { p.aspect = 2; },
		[](Piece& p) { p.space = 0.5; },
	};
	/* Numbers of texts and the looks which they may have */
	struct Family { int n; vector<int> looks; };
	vector<Family> families = {
		{ 2, { 0, 1, 2, 9 } },
		{ 2, { 3, 4, 5, 6 } },
		{ 2, { 7, 8, 0, 1 } },
		{ 3, { 0, 1, 2 } },
		{ 3, { 3, 9 } },
		{ 4, { 0 } },
		{ 4, { 9 } },
		{ 5, { 1 } },
	};
	if (mc::thorough()) {
		families.push_back({ 2, { 0, 1, 2, 3, 4, 9 } });
		families.push_back({ 4, { 0, 1 } });
		families.push_back({ 4, { 2, 9 } });
		families.push_back({ 3, { 0, 1, 5, 6 } });
	}
	for (int h: { 0, 1 }) {
		for (size_t f = 0; f < families.size(); ++f) {
			auto const& family = families[f];
			int const k = 1 << family.looks.size();
			mc::sequences(k, family.n, [&](vector<int> const& s) {
				if (!mc::mine(unit++)) {
					return;
				}
				mc::sequences(3, family.n - 1, [&](vector<int> const& join) {
					string key = mc::format("looks%d-%d", h, int(f));
					for (auto i: s) key += mc::format(".%d", i);
					for (auto i: join) key += mc::format("-%d", i);
					if (!mc::at(key)) {
						return;
					}
					vector<Piece> pieces;
					Piece where;
					where.v = 0.1;
					for (int i = 0; i < family.n; ++i) {
						if (i && join[i - 1] == 1) {
							where.v += 0.1;
						} else if (i && join[i - 1] == 2) {
							where.in += 100;
							where.out += 100;
						}
						auto p = where;
						p.text = string(1, 'a' + i);
						for (size_t j = 0; j < family.looks.size(); ++j) {
							if (s[i] & (1 << j)) {
								all[family.looks[j]](p);
							}
						}
						pieces.push_back(p);
					}
					round_trip(hows[h], pieces, false);
				});
			});
		}
	}
}

/** Sequences of texts and images at different times and places, in all orders */
static void orders(int64_t& unit)
{
	vector<Piece> pool;
	for (int t = 0; t < 2; ++t) {
		for (int v = 0; v < 2; ++v) {
			for (auto align: { dcp::VAlign::TOP, dcp::VAlign::BOTTOM }) {
				Piece p;
				p.in += t;
				p.v = 0.1 + 0.1 * v;
				p.v_align = align;
				pool.push_back(p);
			}
		}
	}
	auto p = pool[0];
	p.out += 10;
	pool.push_back(p);
	p = pool[0];
	p.image = 0;
	pool.push_back(p);
	p.image = 1;
	p.in += 1;
	pool.push_back(p);
	p.vz = { { 1, 1 }, { 2, 2 } };
	p.image = -1;
	p.h = 0.1;
	pool.push_back(p);
	p.vz = { { 1, 1 }, { 2, 3 } };
	p.h = 0.2;
	pool.push_back(p);
	for (int h: { 0, 1 }) {
		mc::sequences_to(pool.size(), mc::thorough() ? 4 : 3, [&](vector<int> const& s) {
			if (!mc::mine(unit++)) {
				return;
			}
			string key = mc::format("order%d", h);
			for (auto i: s) key += mc::format(".%d", i);
			if (!mc::at(key)) {
				return;
			}
			vector<Piece> pieces;
			bool images = false;
			for (size_t i = 0; i < s.size(); ++i) {
				pieces.push_back(pool[s[i]]);
				pieces.back().text = string(1, 'a' + i);
				images = images || pool[s[i]].image >= 0;
			}
			round_trip(hows[h], pieces, images);
		});
	}
}

/** All short texts, in everything which can hold them */
static void words(int64_t& unit)
{
	vector<string> const letters = { "a", " ", "&", "<", ">", "\"", "'", "\xc3\xa9", "\n", "\t", "]", ";" };
	mc::sequences_to(letters.size(), mc::thorough() ? 4 : 3, [&](vector<int> const& s) {
		if (!mc::mine(unit++)) {
			return;
		}
		string word;
		string key = "words";
		bool lines = false;
		for (auto i: s) {
			word += letters[i];
			key += mc::format(".%d", i);
			lines = lines || letters[i] == "\n" || letters[i] == "\t";
		}
		for (int h: { 0, 1 }) {
			if (!mc::at(key + mc::format("-%d", h))) {
				continue;
			}
			Piece p;
			p.text = word;
			/* White space in an attribute is not kept by XML, and neither is that of a title which is only space */
			bool const plain = !lines && word.find(' ') == string::npos && !word.empty();
			if (!lines) {
				p.font = word;
			}
			round_trip(hows[h], { p }, false);
			if (!plain) {
				continue;
			}
			auto a = asset(hows[h]);
			a->add_font(word, assets::png(1));
			if (auto i = std::dynamic_pointer_cast<dcp::InteropTextAsset>(a)) {
				i->set_movie_title(word);
				i->set_language(word + "l");
				i->set_reel_number(word + "r");
			} else {
				std::dynamic_pointer_cast<dcp::SMPTETextAsset>(a)->set_content_title_text(word);
			}
			try {
				auto const file = dir + "/words";
				assets::put(file, a->xml_as_string());
				auto b = read(hows[h], file);
				auto const nodes = b->load_font_nodes();
				MC_CHECK(nodes.size() == 1 && nodes[0]->id == word, "a font with the ID %s is read as %s", word.c_str(), nodes.empty() ? "nothing" : nodes[0]->id.c_str());
				if (auto i = std::dynamic_pointer_cast<dcp::InteropTextAsset>(b)) {
					MC_CHECK(i->movie_title() == word && i->language() == word + "l" && i->reel_number() == word + "r", "title %s is read as %s %s %s", word.c_str(), i->movie_title().c_str(), i->language().c_str(), i->reel_number().c_str());
				} else {
					MC_CHECK(std::dynamic_pointer_cast<dcp::SMPTETextAsset>(b)->content_title_text() == word, "title %s is not read", word.c_str());
				}
			} catch (std::exception& e) {
				mc::violation("an asset whose title and font are called " + word + " cannot be read: " + e.what());
			}
		}
	});
}

/* Reading what others may write */

struct Layout
{
	char const* name[2];	///< name of the attribute for SMPTE and Interop
	char const* value[2];
	std::function<void (Piece&, int)> set;
};

static vector<Layout> const layouts = {
	{ { "Weight", "Weight" }, { "normal", "bold" }, [](Piece& p, int v) { p.bold = v; } },
	{ { "Italic", "Italic" }, { "no", "yes" }, [](Piece& p, int v) { p.italic = v; } },
	{ { "Underline", "Underlined" }, { "no", "yes" }, [](Piece& p, int v) { p.underline = v; } },
	{ { "Color", "Color" }, { "FF010203", "FF0A0B0C" }, [](Piece& p, int v) { p.colour = v ? dcp::Colour(10, 11, 12) : dcp::Colour(1, 2, 3); } },
	{ { "Size", "Size" }, { "30", "50" }, [](Piece& p, int v) { p.size = v ? 50 : 30; } },
	{ { "AspectAdjust", "AspectAdjust" }, { "0.5", " 2.0 " }, [](Piece& p, int v) { p.aspect = v ? 2 : 0.5; } },
	{ { "Effect", "Effect" }, { "none", "shadow" }, [](Piece& p, int v) { p.effect = v ? dcp::Effect::SHADOW : dcp::Effect::NONE; } },
	{ { "EffectColor", "EffectColor" }, { "FF010203", "FF0A0B0C" }, [](Piece& p, int v) { p.effect_colour = v ? dcp::Colour(10, 11, 12) : dcp::Colour(1, 2, 3); } },
	{ { "ID", "Id" }, { "one", "two" }, [](Piece& p, int v) { p.font = v ? string("two") : string("one"); } },
};

static string header(How const& how)
{
	if (how.interop()) {
		return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<DCSubtitle Version=\"1.0\"><SubtitleID>" + ids[2] + "</SubtitleID><MovieTitle>t</MovieTitle><ReelNumber>1</ReelNumber><Language>English</Language>";
	}
	return mc::format(
		"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<dcst:SubtitleReel xmlns:dcst=\"http://www.smpte-ra.org/schemas/428-7/2014/DCST\"><dcst:Id>urn:uuid:%s</dcst:Id><dcst:ContentTitleText>t</dcst:ContentTitleText>"
		"<dcst:IssueDate>2020-01-02T03:04:05+00:00</dcst:IssueDate><dcst:EditRate>25 1</dcst:EditRate><dcst:TimeCodeRate>%d</dcst:TimeCodeRate>", ids[2].c_str(), how.tcr
		);
}

/** @return a document; body is written with no prefixes */
static string document(How const& how, string body)
{
	if (how.interop()) {
		return header(how) + body + "</DCSubtitle>";
	}
	string prefixed;
	body = "<SubtitleList>" + body + "</SubtitleList>";
	for (size_t i = 0; i < body.size(); ++i) {
		prefixed += body[i];
		if (body[i] == '<') {
			if (body[i + 1] == '/') {
				prefixed += body[++i];
			}
			if (body[i + 1] != '!') {
				prefixed += "dcst:";
			}
		}
	}
	return header(how) + prefixed + "</dcst:SubtitleReel>";
}

static void check_read(How const& how, string const& body, vector<Piece> pieces)
{
	for (auto& p: pieces) {
		p.tcr = how.tcr;
	}
	auto const want = shown(pieces, how.interop());
	auto const file = dir + "/read";
	assets::put(file, document(how, body));
	try {
		auto a = read(how, file);
		auto const got = shown(*a, how.interop());
		mc::transition();
		mc::trace();
		MC_CHECK(got == want, "%s is read as\n%srather than\n%s", document(how, body).c_str(), got.c_str(), want.c_str());
		mc::outcome(want);
		if (mc::want_sample("read")) {
			mc::sample("read", body + "\n" + want);
		}
	} catch (std::exception& e) {
		mc::violation(document(how, body) + " cannot be read: " + e.what());
	}
}

static string time_text(How const& how, int64_t units)
{
	return mc::format(how.tcr == 250 ? "%02d:%02d:%02d:%03d" : "%02d:%02d:%02d:%02d", int(units / how.tcr / 3600), int(units / how.tcr / 60 % 60), int(units / how.tcr % 60), int(units % how.tcr));
}

/** Font elements inside each other, each with or without two attributes: those inside are used before those outside */
static void nesting(int64_t& unit)
{
	for (int h: { 0, 1 }) {
		auto const& how = hows[h];
		for (size_t i = 0; i < layouts.size(); ++i) {
			for (size_t j = i + 1; j < layouts.size(); ++j) {
				if (!mc::mine(unit++)) {
					continue;
				}
				/* For each attribute: absent, first or second value on the element outside the subtitle, that outside the text and that inside the text */
				for (int n = 0; n < 729; ++n) {
					if (!mc::at("nesting", { h, int64_t(i), int64_t(j), n })) {
						continue;
					}
					string attributes[3];
					Piece p;
					p.in = how.tcr;
					p.out = 2 * how.tcr;
					p.v = 0.1;
					auto q = p;
					q.text = "b";
					int m = n;
					for (int level = 0; level < 3; ++level) {
						for (auto k: { i, j }) {
							int const what = m % 3;
							m /= 3;
							if (what) {
								attributes[level] += mc::format(" %s=\"%s\"", layouts[k].name[how.interop()], layouts[k].value[what - 1]);
								layouts[k].set(p, what - 1);
								if (level < 2) {
									/* The second text is not in the inner element */
									layouts[k].set(q, what - 1);
								}
							}
						}
					}
					string const align = how.interop() ? "VAlign=\"top\" VPosition=\"10\"" : "Valign=\"top\" Vposition=\"10\"";
					check_read(
						how,
						"<Font" + attributes[0] + ">\n  <Subtitle SpotNumber=\"1\" TimeIn=\"" + time_text(how, p.in) + "\" TimeOut=\"" + time_text(how, p.out) + "\" FadeUpTime=\"0\" FadeDownTime=\"0\">\n <Font" + attributes[1] + ">\n"
						+ "<Text " + align + "><Font" + attributes[2] + ">a</Font>b</Text>\n</Font></Subtitle></Font>", { p, q }
						);
				}
			}
		}
	}
}

/** Attributes which may be left out, have other spellings, or limits */
static void spellings(int64_t& unit)
{
	for (int h: { 0, 1, 3 }) {
		auto const& how = hows[h];
		Piece base;
		base.in = how.tcr;
		base.out = 2 * how.tcr;
		auto subtitle = [&](string attributes, string content) {
			return "<Subtitle TimeIn=\"" + time_text(how, how.tcr) + "\" TimeOut=\"" + time_text(how, 2 * how.tcr) + "\"" + attributes + ">" + content + "</Subtitle>";
		};
		string const none = " FadeUpTime=\"0\" FadeDownTime=\"0\"";
		auto one = [&](char const* family, int n, string body, vector<Piece> pieces) {
			if (mc::mine(unit++) && mc::at(family, { h, n })) {
				check_read(how, body, pieces);
			}
		};

		/* Fades: none, a number, a time, and more than the greatest.  Absent is 20/250 of a second */
		int n = 0;
		for (auto up: { -1, 0, 1, 7 * how.tcr + 1, 8 * how.tcr, 8 * how.tcr + 1, 60 * how.tcr }) {
			for (auto down: { -1, 0, 2, 8 * how.tcr, 9 * how.tcr }) {
				for (int form = 0; form < 4; ++form) {
					auto p = base;
					p.v_align = dcp::VAlign::CENTER;
					string a;
					auto add = [&](string name, int v, bool text, int64_t& to) {
						if (v < 0) {
							return;
						}
						a += " " + name + "=\"" + (text ? time_text(how, v) : mc::format("%d", v)) + "\"";
						to = std::min(v, 8 * how.tcr);
					};
					add("FadeUpTime", up, form & 1, p.up);
					add("FadeDownTime", down, form & 2, p.down);
					/* The default can only be said exactly where the time code rate is 250 */
					if ((up < 0 || down < 0) && how.tcr != 250) {
						continue;
					}
					if (up < 0) p.up = 20;
					if (down < 0) p.down = 20;
					one("fades", n++, subtitle(a, "<Text>a</Text>"), { p });
				}
			}
		}

		/* Positions and alignments, in both spellings, and none */
		n = 0;
		for (auto position: { "Hposition", "HPosition", "Vposition", "VPosition" }) {
			for (auto value: { "0", "10", " 10 ", "-12.5", "1e1", "100.0" }) {
				for (auto align: { "", "Halign", "HAlign", "Valign", "VAlign" }) {
					for (int v = 0; v < 3; ++v) {
						string const a = align;
						if (a.empty() && v) {
							continue;
						}
						auto p = base;
						p.v_align = dcp::VAlign::CENTER;
						(position[0] == 'H' ? p.h : p.v) = atof(value) / 100;
						if (!a.empty() && a[0] == 'H') {
							p.h_align = v == 0 ? dcp::HAlign::LEFT : (v == 1 ? dcp::HAlign::CENTER : dcp::HAlign::RIGHT);
						} else if (!a.empty()) {
							p.v_align = v == 0 ? dcp::VAlign::TOP : (v == 1 ? dcp::VAlign::CENTER : dcp::VAlign::BOTTOM);
						}
						char const* const names[2][3] = { { "left", "center", "right" }, { "top", "center", "bottom" } };
						one("positions", n++, subtitle(none, mc::format("<Text %s=\"%s\"%s>a</Text>", position, value, a.empty() ? "" : mc::format(" %s=\"%s\"", align, names[a[0] == 'V'][v]).c_str())), { p });
					}
				}
			}
		}

		/* What is in a text */
		n = 0;
		auto p = base;
		p.v_align = dcp::VAlign::CENTER;
		auto a = p;
		auto b = p;
		a.text = "a";
		b.text = "b";
		auto spaced = [&](double s) { auto c = b; c.space = s; return c; };
		string const em = how.interop() ? "em" : "";
		one("content", n++, subtitle(none, "<Text>a<Space Size=\"0.25" + em + "\"/>b</Text>"), { a, spaced(0.25) });
		one("content", n++, subtitle(none, "<Text>a<Space/>b</Text>"), { a, spaced(0.5) });
		one("content", n++, subtitle(none, "<Text>a<Space/><Space Size=\"1" + em + "\"/>b</Text>"), { a, spaced(1.5) });
		one("content", n++, subtitle(none, "<Text><Space/>b</Text>"), { spaced(0.5) });
		one("content", n++, subtitle(none, "<Text>a<Space/></Text><Text>b</Text>"), { a, b });
		one("content", n++, subtitle(none, "<Text>a<!-- comment -->b</Text>"), { a, b });
		one("content", n++, subtitle(none, "<Text><![CDATA[a]]></Text>"), { a });
		one("content", n++, subtitle(none, "\n<Text>a</Text>\nstray\n"), { a });
		one("content", n++, subtitle(none, "<Text/><Text></Text>"), { });
		one("content", n++, subtitle(none, "<Text>&amp;&lt;&#233;</Text>"), { [&]() { auto c = a; c.text = "&<\xc3\xa9"; return c; }() });
		one("content", n++, subtitle(none, "<Font Italic=\"yes\"><Text>a</Text></Font><Text>b</Text>"), { [&]() { auto c = a; c.italic = true; return c; }(), b });
		one("content", n++, subtitle(none, "<Text>a</Text>") + subtitle(none, "<Text>b</Text>"), { a, b });
		one("content", n++, "<Font Italic=\"1\">" + subtitle(none, "<Text>a</Text>") + "</Font>" + subtitle(none, "<Text>b</Text>"), { [&]() { auto c = a; c.italic = true; return c; }(), b });

		auto ruby = a;
		ruby.rubies = { dcp::Ruby("base", "over") };
		one("content", n++, subtitle(none, "<Text><Ruby><Rb>ba<!-- x -->se</Rb><Rt>over</Rt></Ruby>a</Text>"), { ruby });
		one("content", n++, subtitle(none, "<Text>a<Ruby><!-- y --><Rt Position=\"before\">over</Rt><Rb>base</Rb></Ruby></Text>"), { ruby });

		/* Z positions over time */
		auto z = [&](vector<Z> v) { auto c = a; c.vz = v; return c; };
		one("z", n++, subtitle(none, "<LoadVariableZ ID=\"x\">1 2:3 -4.5:2</LoadVariableZ><LoadVariableZ ID=\"y\">\n 9\t8 \n</LoadVariableZ><Text VariableZ=\"x\">a</Text>"), { z({ { 1, 1 }, { 2, 3 }, { -4.5, 2 } }) });
		one("z", n++, subtitle(none, "<LoadVariableZ ID=\"x\">1 2:3</LoadVariableZ><LoadVariableZ ID=\"y\">\n 9\t8 \n</LoadVariableZ><Text VariableZ=\"y\">a</Text>"), { z({ { 9, 1 }, { 8, 1 } }) });
		one("z", n++, subtitle(none, "<LoadVariableZ ID=\"x\">1 2:3</LoadVariableZ><Text VariableZ=\"z\">a</Text>"), { a });
		one("z", n++, subtitle(none, "<LoadVariableZ ID=\"x\">1 2:3</LoadVariableZ><Text>a</Text>"), { a });
	}
}

/* Keys, fonts and images */

static void encryption(int64_t& unit)
{
	dcp::Key const right("4c6b3e00112233445566778899aabbcc");
	dcp::Key const wrong("4c6b3e00112233445566778899aabbcd");
	for (size_t h = 1; h < hows.size(); ++h) {
		/* Which texts: string, image 0, image 1, image 0 at another time */
		for (int texts = 0; texts < 16; ++texts) {
			for (int fonts = 0; fonts < 3; ++fonts) {
				for (int key = 0; key < 2; ++key) {
					if (!mc::mine(unit++) || !mc::at("encryption", { int64_t(h), texts, fonts, key })) {
						continue;
					}
					auto a = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(asset(hows[h]));
					a->set_language(dcp::LanguageTag("de-DE"));
					a->set_reel_number(3);
					a->set_start_time(dcp::Time(1, 2, 3, 4, hows[h].tcr));
					vector<Piece> pieces;
					for (int i = 0; i < 4; ++i) {
						if (texts & (1 << i)) {
							Piece p;
							p.tcr = hows[h].tcr;
							p.in = p.tcr * (i + 1);
							p.out = p.in + 3 * i + 1;
							p.v = 0.1;
							p.image = i == 0 ? -1 : (i == 2 ? 1 : 0);
							pieces.push_back(p);
							a->add(make(p));
						}
					}
					std::map<string, string> want_fonts;
					for (int i = 0; i < fonts; ++i) {
						auto const data = assets::png(200 + i);
						a->add_font(mc::format("font%d", i), data);
						a->ensure_font(mc::format("font%d", i), assets::png(300));
						want_fonts[mc::format("font%d", i)] = string(reinterpret_cast<char const*>(data.data()), data.size());
					}
					auto got_fonts = [](dcp::TextAsset const& t) {
						std::map<string, string> f;
						for (auto const& i: t.font_data()) {
							f[i.first] = string(reinterpret_cast<char const*>(i.second.data()), i.second.size());
						}
						return f;
					};
					if (key) {
						a->set_key(right);
					}
					auto const file = dir + "/enc.mxf";
					auto const want = shown(pieces, false);
					try {
						a->write(file);
						auto check = [&](dcp::SMPTETextAsset const& b, char const* how) {
							MC_CHECK(shown(b, false) == want, "texts\n%sare\n%sin an asset which is read %s", want.c_str(), shown(b, false).c_str(), how);
							MC_CHECK(got_fonts(b) == want_fonts, "fonts of an asset are not as they were when it is read %s", how);
							MC_CHECK(b.load_font_nodes().size() == want_fonts.size(), "%d fonts are to be loaded from an asset which is read %s, not %d", int(b.load_font_nodes().size()), how, int(want_fonts.size()));
							MC_CHECK(b.id() == a->id() && b.xml_id() == a->xml_id() && b.resource_id() == a->xml_id(), "IDs are different in an asset which is read %s", how);
							MC_CHECK(
								b.language() == string("de-DE") && b.reel_number() == 3 && b.start_time() == dcp::Time(1, 2, 3, 4, hows[h].tcr) && b.content_title_text() == "title" && b.edit_rate() == dcp::Fraction(25, 1)
								&& b.time_code_rate() == hows[h].tcr && b.issue_date() == dcp::LocalTime("2020-01-02T03:04:05+00:00") && b.subtitle_standard() == hows[h].standard, "details are different in an asset which is read %s", how
								);
							MC_CHECK(b.intrinsic_duration() == a->intrinsic_duration(), "the length of an asset is %d rather than %d when it is read %s", int(b.intrinsic_duration()), int(a->intrinsic_duration()), how);
							MC_CHECK(b.raw_xml() && b.raw_xml() == a->raw_xml(), "the XML of an asset is different when it is read %s", how);
						};
						dcp::SMPTETextAsset b(file);
						MC_CHECK(dcp::SMPTETextAsset::valid_mxf(file), "an asset's file is not said to be a valid MXF");
						MC_CHECK(bool(b.encrypted()) == bool(key), "an asset %s to be encrypted", key ? "is not said" : "is said");
						if (key) {
							MC_CHECK(b.texts().empty() && !b.raw_xml(), "there are texts in an encrypted asset without its key");
							MC_CHECK(b.key_id() == a->key_id(), "the key ID of an encrypted asset is not kept");
							auto const bytes = assets::slurp(file);
							MC_CHECK(bytes.find("<Subtitle") == string::npos && bytes.find("Font ") == string::npos, "an encrypted asset has its XML in clear");
							b.set_key(right);
							check(b, "with its key");
							bool refused = false;
							try {
								dcp::SMPTETextAsset c(file);
								c.set_key(wrong);
							} catch (std::exception&) {
								refused = true;
							}
							MC_CHECK(refused, "an encrypted asset is read with the wrong key");
						} else {
							check(b, "");
						}
						mc::trace();
						mc::transition(3);
					} catch (std::exception& e) {
						mc::violation("texts\n" + want + "cannot be written and read" + (key ? " with a key: " : ": ") + e.what());
					}
					unlink(file.c_str());
				}
			}
		}
	}
}

/** Fonts of Interop assets, which are in files of their own */
static void interop_fonts(int64_t& unit)
{
	mc::sequences_to(3, 3, [&](vector<int> const& s) {
		string key = "fonts";
		for (auto i: s) key += mc::format(".%d", i);
		/* Which of the fonts can be found when it is read */
		for (int found = 0; found < (1 << s.size()); ++found) {
			if (!mc::mine(unit++) || !mc::at(key + mc::format("-%d", found))) {
				continue;
			}
			dcp::InteropTextAsset a;
			a.set_reel_number("1");
			a.set_language("English");
			a.set_movie_title("title");
			vector<string> names;
			for (size_t i = 0; i < s.size(); ++i) {
				auto const name = mc::format("font%d", s[i]);
				a.ensure_font(name, assets::png(10 + i));
				if (std::find(names.begin(), names.end(), name) == names.end()) {
					names.push_back(name);
				}
			}
			auto const sub = dir + "/fonts";
			boost::filesystem::remove_all(sub);
			boost::filesystem::create_directory(sub);
			a.write(sub + "/text.xml");
			auto const written = a.font_assets();
			auto const filenames = a.font_filenames();
			MC_CHECK(written.size() == names.size() && filenames.size() == names.size(), "%d of %d fonts are written", int(written.size()), int(names.size()));
			auto data = [](dcp::ArrayData d) { return string(reinterpret_cast<char const*>(d.data()), d.size()); };
			vector<shared_ptr<dcp::Asset>> given;
			vector<string> missing;
			for (size_t i = 0; i < names.size(); ++i) {
				auto const path = filenames.at(names[i]);
				MC_CHECK(assets::slurp(path) == data(a.font_data()[names[i]]), "the file of a font does not have its data");
				MC_CHECK(written[i]->file() == path, "font assets are not those of the files");
				if (found & (1 << i)) {
					given.push_back(written[i]);
				} else {
					missing.push_back(names[i]);
				}
			}
			dcp::InteropTextAsset b(sub + "/text.xml");
			MC_CHECK(b.unresolved_fonts() == names, "some fonts are known before they have been looked for");
			b.resolve_fonts(given);
			MC_CHECK(b.unresolved_fonts() == missing, "%d fonts are missing, not %d", int(b.unresolved_fonts().size()), int(missing.size()));
			b.resolve_fonts(given);
			auto const got = b.font_data();
			MC_CHECK(got.size() == given.size(), "%d fonts are found, not %d", int(got.size()), int(given.size()));
			for (auto const& i: got) {
				MC_CHECK(data(i.second) == data(a.font_data()[i.first]), "a font has different data after being written and read");
			}
			auto const again = b.font_assets();
			MC_CHECK(again.size() == given.size(), "%d font assets of %d come back", int(again.size()), int(given.size()));
			for (size_t i = 0; i < again.size(); ++i) {
				MC_CHECK(again[i]->id() == given[i]->id() && again[i]->file() == given[i]->file(), "font assets are different after being written and read");
			}
			mc::trace();
			mc::transition(4);
			boost::filesystem::remove_all(sub);
		}
	});

	/* Empty IDs */
	mc::sequences_to(4, 3, [&](vector<int> const& s) {
		string const names[] = { "", "font", "font0", "a" };
		string key = "empty";
		for (auto i: s) key += mc::format(".%d", i);
		if (!mc::mine(unit++) || !mc::at(key)) {
			return;
		}
		for (int h: { 0, 1 }) {
			auto a = asset(hows[h]);
			bool have = false;
			for (auto i: s) {
				a->ensure_font(names[i], assets::png(i));
				have = have || names[i].empty();
			}
			vector<optional<string>> used;
			for (int i = 0; i < 5; ++i) {
				Piece p;
				p.tcr = hows[h].tcr;
				if (i < 4) {
					p.font = names[i];
				}
				used.push_back(p.font);
				a->add(make(p));
			}
			a->fix_empty_font_ids();
			string replacement;
			vector<string> after;
			for (auto const& i: a->load_font_nodes()) {
				after.push_back(i->id);
			}
			size_t n = 0;
			std::set<string> seen;
			for (auto i: s) {
				if (!seen.insert(names[i]).second) {
					continue;
				}
				MC_CHECK(n < after.size() && !after[n].empty(), "the ID of a font is empty after being mended");
				if (names[i].empty()) {
					replacement = after[n];
				} else {
					MC_CHECK(after[n] == names[i], "the ID %s of a font was changed to %s", names[i].c_str(), after[n].c_str());
				}
				++n;
			}
			MC_CHECK(std::set<string>(after.begin(), after.end()).size() == after.size(), "a font was given the ID %s of another", replacement.c_str());
			for (size_t i = 0; i < used.size(); ++i) {
				auto const font = std::dynamic_pointer_cast<const dcp::TextString>(a->texts()[i])->font();
				auto const want = (have && used[i] && used[i]->empty()) ? optional<string>(replacement) : used[i];
				MC_CHECK(font == want, "a text with font %s has %s after empty IDs are mended", used[i].get_value_or("none").c_str(), font.get_value_or("none").c_str());
			}
			mc::trace();
			mc::transition();
		}
	});
}

/** Which texts there are between two times */
static void during(int64_t& unit)
{
	for (int n = 0; n < 5; ++n) {
		if (!mc::mine(unit++)) {
			continue;
		}
		/* All lists of n of the intervals from 0 to 4 */
		vector<std::pair<int, int>> intervals;
		for (int i = 0; i < 4; ++i) {
			for (int j = i + 1; j < 5; ++j) {
				intervals.push_back({ i, j });
			}
		}
		mc::sequences(intervals.size(), std::min(n, 2), [&](vector<int> const& s) {
			if (n > 2 && n - 3 != s[0] % 2) {
				return;
			}
			string key = mc::format("during%d", n);
			for (auto i: s) key += mc::format(".%d", i);
			if (!mc::at(key)) {
				return;
			}
			auto a = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(asset(hows[1]));
			vector<std::pair<int, int>> in;
			for (int i = 0; i < n; ++i) {
				in.push_back(intervals[(s[i % s.size()] + i / s.size() * 3) % intervals.size()]);
				Piece p;
				p.in = in.back().first;
				p.out = in.back().second;
				a->add(make(p));
			}
			int last = 0;
			for (auto const& i: in) {
				last = std::max(last, i.second);
			}
			/* The edit rate is 25 and the times are in 24ths of a second */
			MC_CHECK(a->latest_text_out() == time_of(last, 24), "the last text goes at %s, not %d/24", describe(a->latest_text_out()).c_str(), last);
			MC_CHECK(a->intrinsic_duration() == (last * 25 + 23) / 24, "texts which go on until %d/24 have a length of %d/25", last, int(a->intrinsic_duration()));
			for (int from = 0; from < 6; ++from) {
				for (int to = from; to < 6; ++to) {
					for (int starting = 0; starting < 2; ++starting) {
						vector<size_t> want;
						for (size_t i = 0; i < in.size(); ++i) {
							if (starting ? (from <= in[i].first && in[i].first < to) : (in[i].second >= from && in[i].first <= to)) {
								want.push_back(i);
							}
						}
						auto const all = a->texts();
						vector<size_t> got;
						for (auto const& t: a->texts_during(time_of(from, 24), time_of(to, 24), starting)) {
							got.push_back(std::find(all.begin(), all.end(), t) - all.begin());
						}
						mc::transition();
						MC_CHECK(got == want, "%d texts are given between %d and %d%s, not %d", int(got.size()), from, to, starting ? " (starting)" : "", int(want.size()));
					}
				}
			}
			mc::trace();
		});
	}
}

/** Assets are equal exactly when all that they say is, whichever is asked */
static void equality(int64_t& unit)
{
	auto const v = values();
	auto note = [](dcp::NoteType, string) {};
	dcp::EqualityOptions const options;
	auto both = [&](shared_ptr<dcp::TextAsset> a, shared_ptr<dcp::TextAsset> b, bool same, string what) {
		mc::transition(2);
		mc::trace();
		MC_CHECK(a->equals(b, options, note) == same && b->equals(a, options, note) == same, "assets %s are said to be %s (%d, %d)", what.c_str(), same ? "different" : "the same", a->equals(b, options, note), b->equals(a, options, note));
	};
	for (int h: { 0, 1 }) {
		auto const& how = hows[h];
		auto with = [&](vector<Piece> pieces) {
			auto a = asset(how);
			for (auto& p: pieces) {
				p.tcr = how.tcr;
				a->add(make(p));
			}
			return a;
		};
		Piece base;
		base.h = 0.5;
		base.v = 0.5;
		base.tcr = how.tcr;
		for (size_t i = 0; i < v.size(); ++i) {
			for (size_t a = 0; a < v[i].size(); ++a) {
				/* The change is to the first or second of two texts */
				for (int which = 0; which < 2; ++which) {
					if (!mc::mine(unit++) || !mc::at("equal", { h, int64_t(i), int64_t(a), which })) {
						continue;
					}
					auto changed = base;
					v[i][a](changed, how);
					vector<Piece> pieces = { base, base };
					pieces[which] = changed;
					both(with(pieces), with(pieces), true, "which are the same");
					both(with(pieces), with({ base, base }), false, mc::format("of which a text differs in its property %d", int(i)));
					/* Operators */
					if (i != IMAGE) {
						auto const x = std::dynamic_pointer_cast<dcp::TextString>(make(base));
						auto const y = std::dynamic_pointer_cast<dcp::TextString>(make(changed));
						auto const z = std::dynamic_pointer_cast<dcp::TextString>(make(changed));
						MC_CHECK(*y == *z && !(*y != *z), "texts which are the same are different");
						MC_CHECK(!(*x == *y) && *x != *y && *y != *x && !(*y == *x), "texts which differ in property %d are equal", int(i));
					}
					if (i < 10 || i == IMAGE) {
						auto p = base;
						p.image = 2;
						auto q = changed;
						q.image = i == IMAGE ? int(a) : 2;
						auto const x = std::dynamic_pointer_cast<dcp::TextImage>(make(p));
						auto const y = std::dynamic_pointer_cast<dcp::TextImage>(make(q));
						auto const z = std::dynamic_pointer_cast<dcp::TextImage>(make(q));
						both(with({ p }), with({ q }), false, mc::format("of which an image differs in its property %d", int(i)));
						MC_CHECK(*y == *z && !(*y != *z), "images which are the same are different");
						MC_CHECK(!(*x == *y) && *x != *y && *y != *x && !(*y == *x), "images which differ in property %d are equal", int(i));
					}
				}
			}
		}
		if (mc::mine(unit++) && mc::at("equal-lists", { h })) {
			for (int a = 0; a < 4; ++a) {
				for (int b = 0; b < 4; ++b) {
					both(with(vector<Piece>(a, base)), with(vector<Piece>(b, base)), a == b, mc::format("of %d and %d texts", a, b));
					/* Fonts */
					auto x = with({ base });
					auto y = with({ base });
					for (int i = 0; i < a; ++i) x->add_font(mc::format("f%d", i), assets::png(i));
					for (int i = 0; i < b; ++i) y->add_font(mc::format("f%d", i), assets::png(i));
					both(x, y, a == b, mc::format("with %d and %d fonts", a, b));
				}
			}
			auto x = with({ base });
			auto y = with({ base });
			x->add_font("a", assets::png(1));
			y->add_font("b", assets::png(1));
			both(x, y, false, "with fonts of different names");
			x = asset(how);
			y = asset(hows[h ? 0 : 1]);
			both(x, y, false, "of different standards");
		}
	}
	if (mc::mine(unit++) && mc::at("equal-details", { 0 })) {
		typedef std::function<void (dcp::SMPTETextAsset&)> Change;
		vector<Change> const changes = {
			[](dcp::SMPTETextAsset& a) { a.set_content_title_text("other"); },
			[](dcp::SMPTETextAsset& a) { a.set_language(dcp::LanguageTag("fr-FR")); },
			[](dcp::SMPTETextAsset& a) { a.set_issue_date(dcp::LocalTime("2020-01-02T03:04:06+00:00")); },
			[](dcp::SMPTETextAsset& a) { a.set_reel_number(2); },
			[](dcp::SMPTETextAsset& a) { a.set_edit_rate(dcp::Fraction(30, 1)); },
			[](dcp::SMPTETextAsset& a) { a.set_time_code_rate(30); },
			[](dcp::SMPTETextAsset& a) { a.set_start_time(dcp::Time(0, 0, 1, 0, 24)); },
		};
		for (size_t i = 0; i < changes.size(); ++i) {
			auto x = asset(hows[1]);
			auto y = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(asset(hows[1]));
			both(x, y, true, "which are the same");
			changes[i](*y);
			both(x, y, false, mc::format("which differ in detail %d", int(i)));
			if (i == 2) {
				auto o = options;
				o.issue_dates_can_differ = true;
				MC_CHECK(x->equals(y, o, note) && y->equals(x, o, note), "assets with different issue dates are different when those may differ");
			}
		}
		auto x = make_shared<dcp::InteropTextAsset>();
		auto y = make_shared<dcp::InteropTextAsset>();
		y->set_movie_title("other");
		both(x, y, false, "with different titles");
		/* Positions which may differ by a little */
		for (int d = 0; d < 5; ++d) {
			Piece p;
			p.v = 0.5;
			auto q = p;
			q.v += 0.25 * d / 4;
			auto a = asset(hows[1]);
			auto b = asset(hows[1]);
			a->add(make(p));
			b->add(make(q));
			auto o = options;
			o.max_text_vertical_position_error = 0.125;
			MC_CHECK(a->equals(b, o, note) == (d <= 2) && b->equals(a, o, note) == (d <= 2), "texts at 0.5 and %f are said to be %s with an error of 0.125 allowed", q.v, d <= 2 ? "different" : "the same");
		}
	}
	for (int size = 1; size < 100; size += 7) {
		for (int height: { 858, 1080, 2160 }) {
			if (!mc::mine(unit++) || !mc::at("pixels", { size, height })) {
				continue;
			}
			Piece p;
			p.size = size;
			auto const got = std::dynamic_pointer_cast<dcp::TextString>(make(p))->size_in_pixels(height);
			MC_CHECK(fabs(got - double(size) * height / 792) < 1e-3, "a font of %d points has %f pixels on a screen of %d", size, got, height);
			mc::trace();
		}
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	dcp::init();
	dir = mc::scratch();
	int64_t unit = 0;
	auto t0 = time(nullptr);
#define T(x) x(unit); if (getenv("T")) fprintf(stderr, "%s %ld\n", #x, long(time(nullptr) - t0));
	T(singles)
	T(doubles)
	T(looks)
	T(orders)
	T(words)
	T(nesting)
	T(spellings)
	T(encryption)
	T(interop_fonts)
	T(during)
	T(equality)
	mc::finish();
}
