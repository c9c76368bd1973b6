/* C28: sound comes back from an asset as it was written.
 *
 * The reference is the list of 24-bit samples that each channel should have.
 */

#include "mc.h"
#include "assets.h"
#include "equality_options.h"
#include "exceptions.h"
#include "sound_asset_reader.h"
#include <asdcp/AS_DCP.h>
#include <asdcp/Metadata.h>
#include <cmath>
#include <limits>

using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;

static string dir;
static string const id = "71e5f90a-2b3c-4d5e-8f60-7182939fa4b5";
static int const FULL = 1 << 23;

typedef vector<vector<int32_t>> Samples;
typedef dcp::SoundAsset::AtmosSync Sync;
typedef dcp::SoundAsset::MCASubDescriptors MCA;

static dcp::NoteHandler const note = [](dcp::NoteType, string) {};

/** Sample to use at a given place; no two near each other are the same */
static int32_t pattern(int channel, int64_t sample)
{
	return int32_t((sample * 7919 + channel * 104729 + 12345) * 40503 % (FULL - 1)) * ((sample + channel) % 2 ? 1 : -1);
}

static float as_float(int32_t s)
{
	return float(s) / FULL;
}

/** An asset with a known ID */
class Identified : public dcp::SoundAsset
{
public:
	Identified(dcp::Fraction rate, int sampling, int channels, dcp::LanguageTag language, dcp::Standard standard)
		: dcp::SoundAsset(rate, sampling, channels, language, standard)
	{
		_id = ::id;
	}
};

static shared_ptr<dcp::SoundAsset> make(int rate, int sampling = 48000, int channels = 2, dcp::Standard standard = dcp::Standard::SMPTE)
{
	return make_shared<Identified>(dcp::Fraction(rate, 1), sampling, channels, dcp::LanguageTag("fr-CA"), standard);
}

struct Block
{
	int length;
	int channels;
	bool integer;
};

/** Write blocks of the pattern; @return what the channels should hold */
static Samples write(shared_ptr<dcp::SoundAssetWriter> writer, int channels, vector<Block> const& blocks)
{
	Samples expected(channels);
	int64_t position = 0;
	for (auto const& b: blocks) {
		vector<vector<float>> floats(b.channels);
		vector<vector<int32_t>> integers(b.channels);
		for (int c = 0; c < channels; ++c) {
			for (int i = 0; i < b.length; ++i) {
				auto const s = pattern(c, position + i);
				expected[c].push_back(c < b.channels ? s : 0);
				if (c < b.channels) {
					floats[c].push_back(as_float(s));
					integers[c].push_back(s);
				}
			}
		}
		/* It must not change what it is given, or look outside it */
		if (b.integer) {
			vector<int32_t const*> p;
			for (auto const& i: integers) {
				p.push_back(i.data());
			}
			writer->write(p.data(), b.channels, b.length);
		} else {
			vector<float const*> p;
			for (auto const& i: floats) {
				p.push_back(i.data());
			}
			writer->write(p.data(), b.channels, b.length);
		}
		position += b.length;
		mc::transition();
	}
	return expected;
}

static void pad(Samples& s, int frame)
{
	for (auto& c: s) {
		while (c.size() % frame) {
			c.push_back(0);
		}
	}
}

static Samples read(shared_ptr<dcp::SoundAsset> asset, int frame, string const& what)
{
	Samples got(asset->channels());
	auto reader = asset->start_read();
	for (int i = 0; i < asset->intrinsic_duration(); ++i) {
		auto f = reader->get_frame(i);
		MC_CHECK(f->channels() == asset->channels() && f->samples() == frame, "%s: frame %d has %d channels of %d samples and not %d of %d", what.c_str(), i, f->channels(), f->samples(), asset->channels(), frame);
		for (int c = 0; c < f->channels(); ++c) {
			for (int s = 0; s < f->samples(); ++s) {
				got[c].push_back(f->get(c, s));
			}
		}
	}
	bool refused = false;
	try {
		reader->get_frame(asset->intrinsic_duration());
	} catch (dcp::ReadError&) {
		refused = true;
	}
	MC_CHECK(refused, "%s: there is a frame after the last", what.c_str());
	return got;
}

static void same(Samples const& got, Samples const& expected, string const& what, int except = -1, int tolerance = 0)
{
	MC_CHECK(got.size() == expected.size(), "%s: %d channels came back and not %d", what.c_str(), int(got.size()), int(expected.size()));
	for (size_t c = 0; c < expected.size() && c < got.size(); ++c) {
		if (int(c) == except) {
			continue;
		}
		MC_CHECK(got[c].size() == expected[c].size(), "%s: channel %d came back with %d samples and not %d", what.c_str(), int(c), int(got[c].size()), int(expected[c].size()));
		for (size_t i = 0; i < expected[c].size() && i < got[c].size(); ++i) {
			if (abs(got[c][i] - expected[c][i]) > tolerance) {
				mc::violation(mc::format("%s: sample %d of channel %d came back as %d and not %d", what.c_str(), int(i), int(c), got[c][i], expected[c][i]));
				return;
			}
		}
	}
}

static vector<vector<int32_t>> once(vector<vector<int32_t>> const& in)
{
	auto asset = make(24, 48000, in.size());
	auto writer = asset->start_write(dir + "/a.mxf", {}, Sync::DISABLED, MCA::ENABLED);
	vector<int32_t const*> p;
	for (auto const& i: in) {
		p.push_back(i.data());
	}
	writer->write(p.data(), in.size(), in[0].size());
	writer->finalize();
	return read(make_shared<dcp::SoundAsset>(dir + "/a.mxf"), 2000, "values");
}

/** Every value is written as the nearest that there is */
static void values(int64_t& unit)
{
	/* Whole numbers: all of those near powers of two, and near the ends */
	if (mc::mine(unit++) && mc::at("integers")) {
		vector<int32_t> in;
		for (int b = 0; b < 31; ++b) {
			for (int d = -3; d <= 3; ++d) {
				for (int sign: { -1, 1 }) {
					in.push_back(sign * int64_t(((1LL << b) + d)));
				}
			}
		}
		in.push_back(std::numeric_limits<int32_t>::max());
		in.push_back(std::numeric_limits<int32_t>::min());
		Samples expected(1);
		for (auto i: in) {
			expected[0].push_back(std::max(-FULL, std::min(FULL - 1, i)));
		}
		pad(expected, 2000);
		same(once({ in }), expected, "whole numbers");
		mc::state("integers");
		mc::trace();
	}
	for (int part = 0; part < 8; ++part) {
		if (!mc::mine(unit++) || !mc::at("all", { part })) {
			continue;
		}
		/* All of those of which 8 bits are not fixed, and the others are all 0s or all 1s or alternate */
		vector<int32_t> in;
		int const shift = (part & 1) * 8 + (part & 2) * 4;
		for (int32_t i = 0; i < 65536; ++i) {
			uint32_t const rest = part >= 4 ? 0xa5a5a5 : 0;
			auto const v = (rest & ~(0xffffU << shift)) | (uint32_t(i) << shift);
			in.push_back(int32_t(v << 8) >> 8);
		}
		Samples expected({ in });
		pad(expected, 2000);
		same(once({ in }), expected, "whole numbers");
		mc::trace();
		mc::state(mc::format("all %d", part));
	}
	if (mc::mine(unit++) && mc::at("floats")) {
		vector<float> in;
		auto const inf = std::numeric_limits<float>::infinity();
		for (int b = -30; b <= 4; ++b) {
			for (int m = 16; m < 32; ++m) {
				auto const v = std::ldexp(m / 16.0f, b);
				for (auto x: { v, std::nextafter(v, 0.0f), std::nextafter(v, inf) }) {
					in.push_back(x);
					in.push_back(-x);
				}
			}
		}
		for (int i = -40; i <= 40; ++i) {
			in.push_back(i / 8.0f / FULL);
			in.push_back(1 - i / 2.0f / FULL);
			in.push_back(-1 + i / 2.0f / FULL);
		}
		for (auto x: { 0.0f, -0.0f, inf, -inf, std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(), std::numeric_limits<float>::denorm_min() }) {
			in.push_back(x);
		}
		auto asset = make(24, 48000, 1);
		auto writer = asset->start_write(dir + "/a.mxf", {}, Sync::DISABLED, MCA::ENABLED);
		float const* p[] = { in.data() };
		writer->write(p, 1, in.size());
		writer->finalize();
		auto const got = read(make_shared<dcp::SoundAsset>(dir + "/a.mxf"), 2000, "floats");
		for (size_t i = 0; i < in.size(); ++i) {
			auto const wanted = std::max(-double(FULL), std::min(FULL - 1.0, double(in[i]) * FULL));
			MC_CHECK(fabs(got[0].at(i) - wanted) <= 1, "%.12g came back as %d", in[i], got[0][i]);
		}
		mc::state("floats");
		mc::trace();
	}
}

/** However the sound is divided into blocks the result is the same */
static void blocks(int64_t& unit)
{
	int const frame = 400;
	vector<int> const cuts = { 1, frame - 1, frame, frame + 1, 2 * frame - 1, 2 * frame, 2 * frame + 1 };
	vector<int> const totals = { 1, 2, frame - 1, frame, frame + 1, 2 * frame - 1, 2 * frame, 2 * frame + 1, 3 * frame };
	for (size_t t = 0; t < totals.size(); ++t) {
		for (int set = 0; set < (1 << cuts.size()); ++set) {
			vector<int> lengths;
			int last = 0;
			bool possible = true;
			for (size_t c = 0; c < cuts.size(); ++c) {
				if (set & (1 << c)) {
					if (cuts[c] >= totals[t]) {
						possible = false;
					} else {
						lengths.push_back(cuts[c] - last);
						last = cuts[c];
					}
				}
			}
			if (!possible) {
				continue;
			}
			lengths.push_back(totals[t] - last);
			for (int how = 0; how < 6; ++how) {
				if (!mc::mine(unit++) || !mc::at("blocks", { int(t), set, how })) {
					continue;
				}
				int const channels = 3;
				vector<Block> b;
				for (size_t i = 0; i < lengths.size(); ++i) {
					/* Kinds of sample, and numbers of channels, which are the same in all blocks or change */
					b.push_back({ lengths[i], how < 3 ? channels : (how < 5 ? how - 3 : int(i + set) % (channels + 1)), how == 1 || (how >= 2 && i % 2 == 0) });
				}
				auto asset = make(120, 48000, channels);
				auto writer = asset->start_write(dir + "/b.mxf", {}, Sync::DISABLED, MCA::ENABLED);
				auto expected = write(writer, channels, b);
				MC_CHECK(writer->finalize(), "an asset with sound in it is said not to have been started");
				pad(expected, frame);
				auto const what = mc::format("%d samples in %d blocks", totals[t], int(b.size()));
				auto const frames = int64_t(expected[0].size()) / frame;
				MC_CHECK(asset->intrinsic_duration() == frames, "%s: %d frames were written and not %d", what.c_str(), int(asset->intrinsic_duration()), int(frames));
				auto again = make_shared<dcp::SoundAsset>(dir + "/b.mxf");
				MC_CHECK(again->intrinsic_duration() == frames, "%s: there are %d frames and not %d", what.c_str(), int(again->intrinsic_duration()), int(frames));
				same(read(again, frame, what), expected, what);
				mc::state(mc::format("blocks %d %d %d", int(t), int(b.size()), how));
				mc::outcome(what);
				mc::trace();
			}
		}
	}
	if (mc::mine(unit++) && mc::at("nothing")) {
		auto asset = make(24);
		{
			auto writer = asset->start_write(dir + "/none.mxf", {}, Sync::DISABLED, MCA::ENABLED);
			MC_CHECK(!writer->finalize(), "an asset with nothing in it is said to have been started");
		}
		MC_CHECK(!boost::filesystem::exists(dir + "/none.mxf"), "a file is made when there is nothing to go in it");
		mc::trace();
	}
	for (int bad = 0; bad < 4; ++bad) {
		if (!mc::mine(unit++) || !mc::at("refused", { bad })) {
			continue;
		}
		/* Things which cannot be done are refused and do not affect what has been written */
		auto asset = make(120);
		auto writer = asset->start_write(dir + "/r.mxf", {}, Sync::DISABLED, MCA::ENABLED);
		auto expected = write(writer, 2, { { 500, 2, false } });
		if (bad == 3) {
			writer->finalize();
		}
		bool refused = false;
		vector<float> data(100, 0.5);
		float const* p[] = { data.data(), data.data(), data.data() };
		try {
			switch (bad) {
			case 0: writer->write(p, 3, 100); break;
			case 1: writer->write(p, 2, 0); break;
			case 2: writer->write(p, 2, -1); break;
			case 3: writer->write(p, 2, 100); break;
			}
		} catch (std::exception&) {
			refused = true;
		}
		MC_CHECK(refused || bad == 1 || bad == 2, "a write is accepted of %s", bad == 0 ? "more channels than there are" : "sound after the end");
		if (bad != 3) {
			writer->finalize();
		}
		pad(expected, 400);
		same(read(make_shared<dcp::SoundAsset>(dir + "/r.mxf"), 400, "refused"), expected, "after a write which was refused");
		mc::trace();
	}
}

static vector<vector<dcp::Channel>> const extras = {
	{},
	{ dcp::Channel::HI },
	{ dcp::Channel::VI, dcp::Channel::HI },
	{ dcp::Channel::BSL, dcp::Channel::BSR },
	{ dcp::Channel::BSR, dcp::Channel::HI, dcp::Channel::HI },
	{ dcp::Channel::BSL },
};

/** What the file says about the sound, for each shape of asset */
static void shapes(int64_t& unit)
{
	struct Rate { int rate; int sampling; };
	vector<Rate> rates;
	for (int r: { 24, 25, 30, 48, 50, 60, 96, 100, 120 }) {
		rates.push_back({ r, 48000 });
		rates.push_back({ r, 96000 });
	}
	vector<optional<string>> const languages = { string("fr-CA"), string("en"), boost::none };
	for (size_t r = 0; r < rates.size(); ++r) {
		for (int channels = 1; channels <= 16; ++channels) {
			for (int smpte = 0; smpte < 2; ++smpte) {
				for (size_t e = 0; e < extras.size(); ++e) {
					for (int mca = 0; mca < 2; ++mca) {
						/* The rates and the descriptors have nothing to do with each other */
						if ((r > 1 && e > 0) || !mc::mine(unit++) || !mc::at("shapes", { int(r), channels, smpte, int(e), mca })) {
							continue;
						}
						int const frame = rates[r].sampling / rates[r].rate;
						auto const standard = smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
						auto asset = make(rates[r].rate, rates[r].sampling, channels, standard);
						auto const& language = languages[(channels + e) % languages.size()];
						if (language) {
							asset = make_shared<dcp::SoundAsset>(dcp::Fraction(rates[r].rate, 1), rates[r].sampling, channels, dcp::LanguageTag(*language), standard);
						}
						auto const id = asset->id();
						auto writer = asset->start_write(dir + "/s.mxf", extras[e], Sync::DISABLED, mca ? MCA::ENABLED : MCA::DISABLED);
						auto expected = write(writer, channels, { { frame + 1, channels, false } });
						writer->finalize();
						pad(expected, frame);
						auto const what = mc::format("%d channels at %d with %d frames per second", channels, rates[r].sampling, rates[r].rate);
						std::set<int> labelled;
						for (int i = 0; i < 6; ++i) {
							labelled.insert(i);
						}
						for (auto c: extras[e]) {
							labelled.insert(int(c));
						}
						while (!labelled.empty() && *labelled.rbegin() >= channels) {
							labelled.erase(*labelled.rbegin());
						}
						bool const labels = smpte && mca;
						auto again = make_shared<dcp::SoundAsset>(dir + "/s.mxf");
						MC_CHECK(again->id() == id, "%s: the ID is %s and not %s", what.c_str(), again->id().c_str(), id.c_str());
						MC_CHECK(again->channels() == channels, "%s: %d channels came back", what.c_str(), again->channels());
						MC_CHECK(again->sampling_rate() == rates[r].sampling, "%s: sampling rate %d came back", what.c_str(), again->sampling_rate());
						MC_CHECK(again->edit_rate() == dcp::Fraction(rates[r].rate, 1), "%s: edit rate %d/%d came back", what.c_str(), again->edit_rate().numerator, again->edit_rate().denominator);
						MC_CHECK(again->standard() == standard, "%s: the standard came back as the other", what.c_str());
						MC_CHECK(again->bit_depth() == 24, "%s: not 24 bits", what.c_str());
						MC_CHECK(!again->encrypted(), "%s: is said to be encrypted", what.c_str());
						MC_CHECK(again->can_be_read(), "%s: it is said that it cannot be read", what.c_str());
						MC_CHECK(dcp::SoundAsset::valid_mxf(dir + "/s.mxf"), "%s: not said to be valid", what.c_str());
						MC_CHECK(again->active_channels() == (labels ? int(labelled.size()) : channels), "%s: said to have %d active", what.c_str(), again->active_channels());
						if (labels) {
							auto const l = language.get_value_or("fr-CA");
							MC_CHECK(again->language() && *again->language() == l, "%s: language %s came back as %s", what.c_str(), l.c_str(), again->language().get_value_or("nothing").c_str());
						}
						MC_CHECK(again->intrinsic_duration() == 2 && asset->intrinsic_duration() == 2, "%s: %d frames", what.c_str(), int(again->intrinsic_duration()));
						same(read(again, frame, what), expected, what);

						/* The descriptors */
						Kumu::FileReaderFactory factory;
						ASDCP::PCM::MXFReader mxf(factory);
						MC_CHECK(!ASDCP_FAILURE(mxf.OpenRead((dir + "/s.mxf").c_str())), "%s: cannot open", what.c_str());
						ASDCP::PCM::AudioDescriptor desc;
						mxf.FillAudioDescriptor(desc);
						MC_CHECK(int(desc.BlockAlign) == channels * 3 && int(desc.AvgBps) == channels * 3 * rates[r].sampling, "%s: wrong sizes in the descriptor", what.c_str());
						MC_CHECK(desc.ChannelFormat == (smpte ? ASDCP::PCM::CF_CFG_4 : ASDCP::PCM::CF_NONE), "%s: wrong channel format", what.c_str());
						auto const& dict = ASDCP::DefaultSMPTEDict();
						std::list<ASDCP::MXF::InterchangeObject*> found;
						mxf.OP1aHeader().GetMDObjectsByType(dict.ul(ASDCP::MDD_SoundfieldGroupLabelSubDescriptor), found);
						MC_CHECK(found.size() == (labels ? 1 : 0), "%s: %d sound fields described", what.c_str(), int(found.size()));
						if (found.size() != 1) {
							continue;
						}
						auto field = dynamic_cast<ASDCP::MXF::SoundfieldGroupLabelSubDescriptor*>(found.front());
						bool const seven = e >= 3;
						char buffer[256];
						MC_CHECK(string(field->MCATagSymbol.EncodeString(buffer, sizeof(buffer))) == (seven ? "sg71" : "sg51"), "%s: sound field %s", what.c_str(), buffer);
						std::set<int> got;
						std::set<string> links;
						found.clear();
						mxf.OP1aHeader().GetMDObjectsByType(dict.ul(ASDCP::MDD_AudioChannelLabelSubDescriptor), found);
						for (auto i: found) {
							auto c = dynamic_cast<ASDCP::MXF::AudioChannelLabelSubDescriptor*>(i);
							int const number = c->MCAChannelID.get();
							MC_CHECK(got.insert(number - 1).second, "%s: channel %d is described twice", what.c_str(), number);
							auto const f = seven ? dcp::MCASoundField::SEVEN_POINT_ONE : dcp::MCASoundField::FIVE_POINT_ONE;
							MC_CHECK(string(c->MCATagSymbol.EncodeString(buffer, sizeof(buffer))) == "ch" + dcp::channel_to_mca_id(dcp::Channel(number - 1), f), "%s: channel %d is described as %s", what.c_str(), number, buffer);
							MC_CHECK(string(c->MCATagName.get().EncodeString(buffer, sizeof(buffer))) == dcp::channel_to_mca_name(dcp::Channel(number - 1), f), "%s: channel %d is described as %s", what.c_str(), number, buffer);
							MC_CHECK(c->SoundfieldGroupLinkID.get() == field->MCALinkID, "%s: channel %d is not in the sound field", what.c_str(), number);
							MC_CHECK(links.insert(c->MCALinkID.EncodeHex(buffer, sizeof(buffer))).second, "%s: channel %d has an ID which is used twice", what.c_str(), number);
						}
						MC_CHECK(got == labelled, "%s: %d channels are described and not %d", what.c_str(), int(got.size()), int(labelled.size()));
						mc::state(mc::format("shapes %d %d %d %d %d", int(r), channels, smpte, int(e), mca));
						mc::trace();
					}
				}
			}
		}
	}
}

/** The sync signal for Atmos */
static void sync(int64_t& unit)
{
	vector<int> const rates = { 24, 25, 30, 48, 50, 60, 96, 100, 120 };
	vector<int> const unsupported = { 15, 40, 75, 240 };
	uint8_t uuid[16];
	unsigned int got_bytes;
	Kumu::hex2bin(id.c_str(), uuid, 16, &got_bytes);
	for (size_t r = 0; r < rates.size(); ++r) {
		for (int channels: { 14, 15, 16 }) {
			for (int data = 0; data < 3; ++data) {
				for (int block = 0; block < 5; ++block) {
					if (!mc::mine(unit++) || !mc::at("sync", { int(r), channels, data, block })) {
						continue;
					}
					int const frame = 48000 / rates[r];
					int const frames = 6;
					auto asset = make(rates[r], 48000, channels);
					auto writer = asset->start_write(dir + "/y.mxf", {}, Sync::ENABLED, MCA::ENABLED);
					int const given = data == 0 ? channels : (data == 1 ? 6 : 13);
					vector<Block> b;
					int const total = frame * frames - (block == 4 ? 3 : 0);
					int const length = vector<int>{ total, frame, 1000, frame / 2 + 1, 777 }[block];
					for (int done = 0; done < total; done += length) {
						b.push_back({ std::min(length, total - done), given, block % 2 == 0 });
					}
					auto expected = write(writer, channels, b);
					writer->finalize();
					pad(expected, frame);
					auto const what = mc::format("sync at %d frames per second", rates[r]);
					auto const samples = read(make_shared<dcp::SoundAsset>(dir + "/y.mxf"), frame, what);
					same(samples, expected, what, 13);
					auto const& signal = samples[13];
					/* Four samples to a bit; the sign changes from each to the next, and also in the middle of a 1 */
					string bits;
					int last = 0;
					for (int i = 0; i + 4 <= total; i += 4) {
						for (int j = 0; j < 4; ++j) {
							MC_CHECK(signal[i + j] != 0 && (signal[i + j] > 0) == (signal[i + (j & 2)] > 0), "%s: samples %d-%d are not a bit", what.c_str(), i, i + 3);
						}
						if (i) {
							MC_CHECK((last > 0) != (signal[i] > 0), "%s: no change at the start of the bit at sample %d", what.c_str(), i);
						}
						bits += (signal[i] > 0) != (signal[i + 2] > 0) ? '1' : '0';
						last = signal[i + 3];
					}
					for (size_t i = total; i < signal.size(); ++i) {
						MC_CHECK(signal[i] == 0, "%s: there is something after the end of the sound", what.c_str());
					}
					int const per_frame = rates[r] <= 30 ? 4 : (rates[r] <= 60 ? 2 : 1);
					int const packet = frame / 4 / per_frame;
					auto field = [&bits](int start, int length) {
						uint32_t v = 0;
						for (int i = 0; i < length; ++i) {
							v = v << 1 | (bits.at(start + i) == '1');
						}
						return v;
					};
					for (int p = 0; (p + 1) * packet <= int(bits.length()); ++p) {
						int const s = p * packet;
						auto const where = mc::format("%s: packet %d", what.c_str(), p);
						MC_CHECK(field(s, 16) == 0x4d56, "%s: starts with %x", where.c_str(), field(s, 16));
						MC_CHECK(field(s + 16, 4) == r, "%s: rate %d", where.c_str(), field(s + 16, 4));
						MC_CHECK(field(s + 20, 2) == 0, "%s: reserved bits are %d", where.c_str(), field(s + 20, 2));
						int const quarter = field(s + 22, 2);
						MC_CHECK(quarter == p % 4, "%s: says that it has quarter %d of the ID", where.c_str(), quarter);
						for (int i = 0; i < 4; ++i) {
							MC_CHECK(field(s + 24 + i * 8, 8) == uuid[quarter * 4 + i], "%s: says that byte %d of the ID is %02x and not %02x", where.c_str(), quarter * 4 + i, field(s + 24 + i * 8, 8), uuid[quarter * 4 + i]);
						}
						MC_CHECK(int(field(s + 56, 24)) == p / per_frame, "%s: in frame %d says that it is in %d", where.c_str(), p / per_frame, field(s + 56, 24));
						uint16_t crc = 0;
						for (int i = 16; i < 80; ++i) {
							bool const top = crc & 0x8000;
							crc = crc << 1;
							if (top != (bits[s + i] == '1')) {
								crc ^= 0x1021;
							}
						}
						MC_CHECK(field(s + 80, 16) == crc, "%s: check %04x and not %04x", where.c_str(), field(s + 80, 16), crc);
						for (int i = 96; i < packet; ++i) {
							MC_CHECK(bits[s + i] == '0', "%s: padding is not 0", where.c_str());
						}
						mc::state(where);
					}
					mc::trace();
				}
			}
		}
	}
	/* Where it can't be carried that must be said */
	for (int bad = 0; bad < 3 + int(unsupported.size()); ++bad) {
		if (!mc::mine(unit++) || !mc::at("unsupported", { bad })) {
			continue;
		}
		bool refused = false;
		try {
			auto asset = bad == 0 ? make(24, 48000, 13) : (bad == 1 ? make(24, 96000, 14) : (bad == 2 ? make(24, 48000, 14, dcp::Standard::INTEROP) : make(unsupported[bad - 3], 48000, 14)));
			auto writer = asset->start_write(dir + "/u.mxf", {}, Sync::ENABLED, MCA::ENABLED);
			write(writer, asset->channels(), { { asset->sampling_rate() / asset->edit_rate().numerator, asset->channels(), false } });
			writer->finalize();
		} catch (std::exception&) {
			refused = true;
		}
		MC_CHECK(refused, "a sync signal is said to have been written where it cannot be (%d)", bad);
		mc::trace();
	}
}

static void encryption(int64_t& unit)
{
	for (int smpte = 0; smpte < 2; ++smpte) {
		for (int channels: { 1, 2, 6, 14 }) {
			for (int sync = 0; sync < 2; ++sync) {
				for (int frames = 1; frames <= 3; ++frames) {
					if ((sync && (channels < 14 || !smpte)) || !mc::mine(unit++) || !mc::at("encryption", { smpte, channels, sync, frames })) {
						continue;
					}
					auto const key = dcp::Key("4dd5b6a4d7f8e0c1aa0b1c2d3e4f5061");
					auto const other = dcp::Key("4dd5b6a4d7f8e0c1aa0b1c2d3e4f5060");
					auto asset = make(120, 48000, channels, smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP);
					asset->set_key(key);
					auto const key_id = asset->key_id();
					auto writer = asset->start_write(dir + "/e.mxf", {}, sync ? Sync::ENABLED : Sync::DISABLED, MCA::ENABLED);
					auto expected = write(writer, channels, { { 400 * frames - 5, channels, false } });
					writer->finalize();
					pad(expected, 400);
					auto const file = assets::slurp(dir + "/e.mxf");
					for (int c = 0; c < channels; ++c) {
						string clear;
						for (int i = 0; i < 3; ++i) {
							for (int d = 0; d < channels; ++d) {
								auto const s = pattern(d, 10 + i);
								clear += string({ char(s & 0xff), char(s >> 8 & 0xff), char(s >> 16 & 0xff) });
							}
						}
						MC_CHECK(sync || file.find(clear) == string::npos, "sound can be seen in an encrypted file");
					}
					auto again = make_shared<dcp::SoundAsset>(dir + "/e.mxf");
					MC_CHECK(again->encrypted() && again->key_id() == key_id, "an encrypted asset has lost its key ID");
					MC_CHECK(!again->can_be_read(), "an encrypted asset with no key is said to be readable");
					again->set_key(key);
					MC_CHECK(again->key_id() == key_id, "giving a key changed its ID");
					MC_CHECK(again->can_be_read(), "an encrypted asset with its key is said not to be readable");
					same(read(again, 400, "encrypted"), expected, "encrypted", sync ? 13 : -1);
					auto wrong = make_shared<dcp::SoundAsset>(dir + "/e.mxf");
					wrong->set_key(other);
					MC_CHECK(!wrong->can_be_read(), "an encrypted asset with the wrong key is said to be readable");
					for (int check = 0; check < 2; ++check) {
						for (int i = 0; i < frames; ++i) {
							bool refused = false;
							try {
								auto reader = wrong->start_read();
								reader->set_check_hmac(check);
								reader->get_frame(i);
							} catch (dcp::ReadError&) {
								refused = true;
							}
							MC_CHECK(refused, "frame %d can be read with the wrong key", i);
						}
					}
					mc::state(mc::format("encryption %d %d %d %d", smpte, channels, sync, frames));
					mc::trace();
				}
			}
		}
	}
}

/** Write a file without the library */
static void foreign(string const& file, int bits, int channels, vector<string> const& frames, int rate = 24, int sampling = 48000, bool locked = false)
{
	ASDCP::PCM::MXFWriter writer;
	ASDCP::WriterInfo info;
	info.LabelSetType = ASDCP::LS_MXF_SMPTE;
	ASDCP::PCM::AudioDescriptor desc;
	desc.EditRate = ASDCP::Rational(rate, 1);
	desc.AudioSamplingRate = ASDCP::Rational(sampling, 1);
	desc.Locked = locked;
	desc.ChannelCount = channels;
	desc.QuantizationBits = bits;
	desc.BlockAlign = channels * bits / 8;
	desc.AvgBps = sampling * desc.BlockAlign;
	desc.LinkedTrackID = 0;
	desc.ContainerDuration = 0;
	desc.ChannelFormat = ASDCP::PCM::CF_NONE;
	if (ASDCP_FAILURE(writer.OpenWrite(file.c_str(), info, desc))) {
		exit(77);
	}
	for (auto const& f: frames) {
		ASDCP::PCM::FrameBuffer buffer;
		buffer.Capacity(f.size());
		memcpy(buffer.Data(), f.data(), f.size());
		buffer.Size(f.size());
		writer.WriteFrame(buffer);
	}
	writer.Finalize();
}

/** Files made by others, of 16 or 24 bits, with every value of 16 of the bits */
static void others(int64_t& unit)
{
	for (int bits: { 16, 24 }) {
		for (int channels: { 1, 2, 3 }) {
			for (int low = 0; low < (bits == 24 ? 4 : 1); ++low) {
				if (!mc::mine(unit++) || !mc::at("others", { bits, channels, low })) {
					continue;
				}
				vector<string> frames;
				Samples expected(channels);
				int n = 0;
				for (int f = 0; n < 65536; ++f) {
					string data;
					for (int i = 0; i < 2000; ++i) {
						for (int c = 0; c < channels; ++c) {
							auto const v = int16_t(n++);
							if (bits == 24) {
								data += char(vector<int>{ 0, 1, 0x80, 0xff }[low]);
								expected[c].push_back(v * 256 + vector<int>{ 0, 1, 0x80, 0xff }[low]);
							} else {
								expected[c].push_back(v);
							}
							data += char(v & 0xff);
							data += char((v >> 8) & 0xff);
						}
					}
					frames.push_back(data);
				}
				foreign(dir + "/o.mxf", bits, channels, frames);
				auto asset = make_shared<dcp::SoundAsset>(dir + "/o.mxf");
				MC_CHECK(asset->bit_depth() == bits, "%d bits came back as %d", bits, asset->bit_depth());
				MC_CHECK(asset->intrinsic_duration() == int(frames.size()), "wrong length");
				same(read(asset, 2000, mc::format("%d bits", bits)), expected, mc::format("%d bits", bits));
				mc::state(mc::format("others %d %d %d", bits, channels, low));
				mc::trace();
			}
		}
	}
}

static string bytes(int32_t s)
{
	return { char(s & 0xff), char(s >> 8 & 0xff), char(s >> 16 & 0xff) };
}

/** Comparison of assets */
static void equality(int64_t& unit)
{
	int const frame = 400;
	auto compare = [](string const& a, string const& b, int error, bool expected, string const& what) {
		auto x = make_shared<dcp::SoundAsset>(a);
		auto y = make_shared<dcp::SoundAsset>(b);
		dcp::EqualityOptions options;
		options.max_audio_sample_error = error;
		MC_CHECK(x->equals(y, options, note) == expected, "%s are said to be %s", what.c_str(), expected ? "different" : "the same");
		MC_CHECK(y->equals(x, options, note) == expected, "%s are said to be %s the other way round", what.c_str(), expected ? "different" : "the same");
		options.sound_assets_can_differ = true;
		MC_CHECK(x->equals(y, options, note), "%s are said to be different when they may be", what.c_str());
	};
	auto make_frames = [frame](int channels, int frames, int where, int channel, int sample, int32_t change) {
		vector<string> out;
		for (int f = 0; f < frames; ++f) {
			string data;
			for (int s = 0; s < frame; ++s) {
				for (int c = 0; c < channels; ++c) {
					/* Leave room for the changes, except where one is from one end to the other */
					auto v = pattern(c, f * frame + s) / 2;
					if (f == where && c == channel && s == sample) {
						v = abs(change) > 1000 ? (change > 0 ? FULL - 1 : -FULL) : v + change;
					} else if (f == where && c == channel && s == sample + 1) {
						v = 0;
					}
					data += bytes(v);
				}
			}
			out.push_back(data);
		}
		return out;
	};
	for (int channels: { 1, 2, 3 }) {
		for (int frames = 1; frames <= 3; ++frames) {
			for (int f = 0; f < frames; ++f) {
				for (int c = 0; c < channels; ++c) {
					for (int s: { 0, 1, 200, 399 }) {
						if (!mc::mine(unit++) || !mc::at("samples", { channels, frames, f, c, s })) {
							continue;
						}
						foreign(dir + "/x.mxf", 24, channels, make_frames(channels, frames, f, c, s, 0), 120);
						for (int change: { 1, -1, 2, -2, 255, -256, 100000, -100000 }) {
							foreign(dir + "/y.mxf", 24, channels, make_frames(channels, frames, f, c, s, change), 120);
							for (int error: { 0, 1, 2, 255, 256, 65535 }) {
								compare(dir + "/x.mxf", dir + "/y.mxf", error, abs(change) <= error, mc::format("files with a difference of %d at sample %d of channel %d in frame %d, with %d allowed,", change, s, c, f, error));
								mc::transition();
							}
						}
						compare(dir + "/x.mxf", dir + "/x.mxf", 0, true, "files which are the same");
						mc::state(mc::format("equality %d %d %d %d %d", channels, frames, f, c, s));
						mc::trace();
					}
				}
			}
		}
	}
	struct Shape { int bits; int channels; int frames; int rate; int sampling; bool locked; };
	vector<Shape> const shapes = {
		{ 24, 2, 2, 24, 48000, false }, { 24, 2, 3, 24, 48000, false }, { 24, 2, 1, 24, 48000, false }, { 24, 3, 2, 24, 48000, false }, { 24, 2, 2, 25, 48000, false },
		{ 24, 2, 2, 24, 96000, false }, { 24, 2, 2, 24, 48000, true }, { 16, 3, 2, 24, 48000, false }, { 16, 2, 2, 24, 48000, false }, { 24, 2, 2, 48, 96000, false },
	};
	for (size_t a = 0; a < shapes.size(); ++a) {
		for (size_t b = 0; b < shapes.size(); ++b) {
			if (!mc::mine(unit++) || !mc::at("kinds", { int(a), int(b) })) {
				continue;
			}
			for (int i = 0; i < 2; ++i) {
				auto const& s = shapes[i ? b : a];
				foreign(dir + (i ? "/y.mxf" : "/x.mxf"), s.bits, s.channels, vector<string>(s.frames, string(s.sampling / s.rate * s.channels * s.bits / 8, '\0')), s.rate, s.sampling, s.locked);
			}
			compare(dir + "/x.mxf", dir + "/y.mxf", 10, a == b, mc::format("files of kinds %d and %d", int(a), int(b)));
			mc::trace();
		}
	}
	/* Sound is the same whether or not it is encrypted, and is not the same as something else */
	if (mc::mine(unit++) && mc::at("different")) {
		auto const key = dcp::Key("4dd5b6a4d7f8e0c1aa0b1c2d3e4f5061");
		auto plain = assets::sound(dir + "/x.mxf", dcp::Standard::SMPTE, 2, 2, 0.5);
		auto locked = assets::sound(dir + "/y.mxf", dcp::Standard::SMPTE, 2, 2, 0.5, key);
		auto louder = assets::sound(dir + "/z.mxf", dcp::Standard::SMPTE, 2, 2, 0.6, key);
		auto picture = assets::mono(dir + "/p.mxf", dcp::Standard::SMPTE);
		auto atmos = assets::atmos(dir + "/t.mxf");
		dcp::EqualityOptions options;
		MC_CHECK(plain->equals(locked, options, note) && locked->equals(plain, options, note), "encryption makes sound different");
		MC_CHECK(!plain->equals(louder, options, note) && !louder->equals(plain, options, note), "different sound is not seen when it is encrypted");
		for (auto other: vector<shared_ptr<dcp::Asset>>{ picture, atmos }) {
			bool same = false;
			try {
				same = plain->equals(other, options, note);
			} catch (dcp::ReadError&) {

			} catch (dcp::FileError&) {

			}
			MC_CHECK(!same, "sound is said to be the same as something else");
		}
		mc::trace();
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	dcp::init();
	dir = mc::scratch();
	int64_t unit = 0;
	values(unit);
	blocks(unit);
	shapes(unit);
	sync(unit);
	encryption(unit);
	others(unit);
	equality(unit);
	mc::finish();
}
