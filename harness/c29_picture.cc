/* C29: frames come back from picture and Atmos assets as they were written, and a file which was being written when
 * the process ended can be carried on with.
 */

#include "mc.h"
#include "assets.h"
#include "equality_options.h"
#include "exceptions.h"
#include "faults.h"
#include "atmos_asset_reader.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_frame.h"
#include "mono_mpeg2_picture_asset.h"
#include "mono_mpeg2_picture_asset_reader.h"
#include "mono_mpeg2_picture_frame.h"
#include "mpeg2_picture_asset_writer.h"
#include "sound_asset_reader.h"
#include "stereo_j2k_picture_asset_reader.h"
#include "stereo_j2k_picture_frame.h"
#include <openssl/md5.h>
#include <cmath>

using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;

static string dir;
static string const id = "93ad1d34-6d5e-4f1c-9a3c-0b1c2d3e4f55";
static dcp::Key const key("4dd5b6a4d7f8e0c1aa0b1c2d3e4f5061");
static dcp::Key const wrong_key("4dd5b6a4d7f8e0c1aa0b1c2d3e4f5161");
static dcp::NoteHandler const note = [](dcp::NoteType, string) {};

static dcp::Size const size(48, 32);

/** @return a codestream; no two have the same length or content */
static string frame(int n)
{
	static std::map<int, string> made;
	if (!made.count(n)) {
		auto const d = assets::j2k(size, 1000 + n * 100);
		/* Nothing looks after the end of a codestream */
		made[n] = string(reinterpret_cast<char const*>(d.data()), d.size()) + string(n * 3, char(n));
	}
	return made[n];
}

static string mpeg2(int n)
{
	/* A sequence header of 720x576 at 25, then something */
	return string("\x00\x00\x01\xb3\x2d\x02\x40\x33\x00\x00\x00\x00", 12) + string(20 + n * 5, char(n + 1));
}

static uint8_t const* data(string const& s)
{
	return reinterpret_cast<uint8_t const*>(s.data());
}

static string join(vector<int> const& v)
{
	string s;
	for (auto i: v) {
		s += mc::format("%s%d", s.empty() ? "" : ":", i);
	}
	return s;
}

/** An asset with a known ID */
template <class T>
class Identified : public T
{
public:
	template <class... A>
	Identified(A... a)
		: T(a...)
	{
		this->_id = ::id;
	}
};

enum Kind { MONO, STEREO, MPEG2, ATMOS, SOUND, KINDS };
static char const* const names[] = { "mono", "stereo", "MPEG2", "Atmos", "sound" };

/** Something which can write and read any kind */
struct Any
{
	Kind kind;
	dcp::Standard standard;
	shared_ptr<dcp::MonoJ2KPictureAsset> mono;
	shared_ptr<dcp::StereoJ2KPictureAsset> stereo;
	shared_ptr<dcp::MonoMPEG2PictureAsset> video;
	shared_ptr<dcp::AtmosAsset> atmos;
	shared_ptr<dcp::SoundAsset> sound;

	Any(Kind kind_, dcp::Standard standard_, dcp::Fraction rate = dcp::Fraction(24, 1))
		: kind(kind_)
		, standard(standard_)
	{
		switch (kind) {
		case MONO: mono = make_shared<Identified<dcp::MonoJ2KPictureAsset>>(rate, standard); break;
		case STEREO: stereo = make_shared<Identified<dcp::StereoJ2KPictureAsset>>(rate, standard); break;
		case MPEG2: video = make_shared<Identified<dcp::MonoMPEG2PictureAsset>>(rate); break;
		case ATMOS: atmos = make_shared<Identified<dcp::AtmosAsset>>(rate, 3, 10, 118, 2); break;
		default: sound = make_shared<Identified<dcp::SoundAsset>>(rate, 48000, 2, dcp::LanguageTag("de"), standard); break;
		}
	}

	Any(Kind kind_, string const& file)
		: kind(kind_)
		, standard(dcp::Standard::SMPTE)
	{
		switch (kind) {
		case MONO: mono = make_shared<dcp::MonoJ2KPictureAsset>(file); break;
		case STEREO: stereo = make_shared<dcp::StereoJ2KPictureAsset>(file); break;
		case MPEG2: video = make_shared<dcp::MonoMPEG2PictureAsset>(file); break;
		case ATMOS: atmos = make_shared<dcp::AtmosAsset>(file); break;
		default: sound = make_shared<dcp::SoundAsset>(file); break;
		}
	}

	shared_ptr<dcp::Asset> asset() const
	{
		switch (kind) {
		case MONO: return mono;
		case STEREO: return stereo;
		case MPEG2: return video;
		case ATMOS: return atmos;
		default: return sound;
		}
	}

	dcp::MXF* mxf() const
	{
		return dynamic_cast<dcp::MXF*>(asset().get());
	}

	int64_t duration() const
	{
		switch (kind) {
		case MONO: return mono->intrinsic_duration();
		case STEREO: return stereo->intrinsic_duration();
		case MPEG2: return video->intrinsic_duration();
		case ATMOS: return atmos->intrinsic_duration();
		default: return sound->intrinsic_duration();
		}
	}

	string contents(int n) const
	{
		switch (kind) {
		case MONO: case STEREO: return frame(n);
		case MPEG2: return mpeg2(n);
		case ATMOS: return string(1 + n * 7, char(n));
		default: return string(2000 * 2 * 3, char(n + 1));
		}
	}

	/** Write all frames; for stereo there are two to each frame, left first */
	void write(string const& file, vector<int> const& frames)
	{
		vector<dcp::FrameInfo> infos;
		auto info = [&infos](dcp::FrameInfo i) { infos.push_back(i); mc::transition(); };
		bool finished = false;
		switch (kind) {
		case MONO:
		case STEREO: {
			auto w = mono ? mono->start_write(file, dcp::Behaviour::MAKE_NEW) : stereo->start_write(file, dcp::Behaviour::MAKE_NEW);
			for (auto i: frames) {
				info(w->write(data(contents(i)), contents(i).size()));
			}
			finished = w->finalize();
			break;
		}
		case MPEG2: {
			auto w = video->start_write(file, dcp::Behaviour::MAKE_NEW);
			for (auto i: frames) {
				info(w->write(data(contents(i)), contents(i).size()));
			}
			finished = w->finalize();
			break;
		}
		case ATMOS: {
			auto w = atmos->start_write(file);
			for (auto i: frames) {
				w->write(data(contents(i)), contents(i).size());
				mc::transition();
			}
			finished = w->finalize();
			break;
		}
		default: {
			auto w = sound->start_write(file, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
			for (auto i: frames) {
				auto const v = (i + 1) * 0x10101;
				vector<int32_t> const s(2000, v);
				int32_t const* p[] = { s.data(), s.data() };
				w->write(p, 2, 2000);
				mc::transition();
			}
			finished = w->finalize();
			break;
		}
		}
		MC_CHECK(finished == !frames.empty(), "finishing a %s asset of %d frames says that it %s", names[kind], int(frames.size()), finished ? "was started" : "was not");
		check(file, infos);
	}

	/** What is said about each frame is true of the file */
	static void check(string const& file, vector<dcp::FrameInfo> const& infos)
	{
		auto const all = assets::slurp(file);
		for (size_t i = 0; i < infos.size(); ++i) {
			if (i) {
				MC_CHECK(infos[i].offset == infos[i - 1].offset + infos[i - 1].size, "frame %d is said to start %ld bytes after the one before, which has %ld", int(i), long(infos[i].offset - infos[i - 1].offset), long(infos[i - 1].size));
			}
			if (infos[i].offset + infos[i].size > all.size()) {
				mc::violation(mc::format("frame %d is said to be outside the file", int(i)));
				continue;
			}
			unsigned char digest[16];
			auto const part = all.substr(infos[i].offset, infos[i].size);
			unsigned int n;
			EVP_Digest(part.data(), part.size(), digest, &n, EVP_md5(), nullptr);
			string hex;
			for (auto c: digest) {
				hex += mc::format("%02x", c);
			}
			MC_CHECK(hex == infos[i].hash, "frame %d is said to have digest %s and not %s", int(i), infos[i].hash.c_str(), hex.c_str());
		}
	}

	vector<string> read(bool hmac = true) const
	{
		vector<string> out;
		auto add = [&out](uint8_t const* d, int s) { out.push_back(string(reinterpret_cast<char const*>(d), s)); };
		auto const n = duration();
		switch (kind) {
		case MONO: { auto r = mono->start_read(); r->set_check_hmac(hmac); for (int i = 0; i < n; ++i) { auto f = r->get_frame(i); add(f->data(), f->size()); } break; }
		case STEREO: { auto r = stereo->start_read(); r->set_check_hmac(hmac); for (int i = 0; i < n; ++i) { auto f = r->get_frame(i); add(f->left()->data(), f->left()->size()); add(f->right()->data(), f->right()->size()); } break; }
		case MPEG2: { auto r = video->start_read(); r->set_check_hmac(hmac); for (int i = 0; i < n; ++i) { auto f = r->get_frame(i); add(f->data(), f->size()); } break; }
		case ATMOS: { auto r = atmos->start_read(); r->set_check_hmac(hmac); for (int i = 0; i < n; ++i) { auto f = r->get_frame(i); add(f->data(), f->size()); } break; }
		default: { auto r = sound->start_read(); r->set_check_hmac(hmac); for (int i = 0; i < n; ++i) { auto f = r->get_frame(i); add(f->data(), f->size()); } break; }
		}
		return out;
	}

	/** @return true if there is such a frame; in any order, and from the end back */
	bool has(int n) const
	{
		try {
			switch (kind) {
			case MONO: mono->start_read()->get_frame(n); break;
			case STEREO: stereo->start_read()->get_frame(n); break;
			case MPEG2: video->start_read()->get_frame(n); break;
			case ATMOS: atmos->start_read()->get_frame(n); break;
			default: sound->start_read()->get_frame(n); break;
			}
		} catch (dcp::ReadError&) {
			return false;
		}
		return true;
	}
};

static void compare(Any const& a, vector<int> const& frames, string const& what)
{
	auto const got = a.read();
	MC_CHECK(got.size() == frames.size(), "%s: %d frames came back and not %d", what.c_str(), int(got.size()), int(frames.size()));
	for (size_t i = 0; i < got.size() && i < frames.size(); ++i) {
		MC_CHECK(got[i] == a.contents(frames[i]), "%s: frame %d came back different", what.c_str(), int(i));
	}
	MC_CHECK(a.duration() == int64_t(a.kind == STEREO ? frames.size() / 2 : frames.size()), "%s: is %d frames long", what.c_str(), int(a.duration()));
	MC_CHECK(!a.has(a.duration()), "%s: has a frame after the last", what.c_str());
}

/** All sequences of frames, in all kinds of asset */
static void sequences(int64_t& unit)
{
	for (int k = 0; k < KINDS; ++k) {
		for (int smpte = 0; smpte < 2; ++smpte) {
			if ((k == MPEG2 && smpte) || (k == ATMOS && !smpte)) {
				continue;
			}
			for (int encrypted = 0; encrypted < 2; ++encrypted) {
				mc::sequences_to(3, k == STEREO ? 4 : 3, [&](vector<int> const& frames) {
					if (frames.empty() || (k == STEREO && frames.size() % 2) || !mc::mine(unit++)) {
						return;
					}
					vector<int> key_{ k, smpte, encrypted };
					key_.insert(key_.end(), frames.begin(), frames.end());
					if (!mc::at("sequences:" + join(key_))) {
						return;
					}
					auto const standard = smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
					auto const file = dir + "/s.mxf";
					auto const what = mc::format("%s%s asset of %d frames", encrypted ? "encrypted " : "", names[k], int(frames.size()));
					Any a(Kind(k), standard);
					dcp::MXFMetadata metadata;
					metadata.company_name = "company";
					metadata.product_name = "product";
					metadata.product_version = "version";
					a.mxf()->set_metadata(metadata);
					if (encrypted) {
						a.mxf()->set_key(key);
					}
					auto const key_id = a.mxf()->key_id();
					a.write(file, frames);
					MC_CHECK(a.asset()->file() && *a.asset()->file() == file, "%s: does not know its file", what.c_str());
					compare(a, frames, what);
					Any b(Kind(k), file);
					MC_CHECK(b.asset()->id() == id, "%s: ID %s", what.c_str(), b.asset()->id().c_str());
					MC_CHECK(b.mxf()->standard() == standard, "%s: the other standard", what.c_str());
					MC_CHECK(b.mxf()->metadata().company_name == "company" && b.mxf()->metadata().product_name == "product" && b.mxf()->metadata().product_version == "version", "%s: its metadata came back different", what.c_str());
					MC_CHECK(b.mxf()->encrypted() == bool(encrypted) && b.mxf()->key_id() == key_id, "%s: its key ID came back different", what.c_str());
					if (encrypted) {
						/* No key */
						MC_CHECK(!b.mxf()->can_be_read(), "%s: is said to be readable without a key", what.c_str());
						auto const all = assets::slurp(file);
						for (auto f: frames) {
							auto const c = a.contents(f);
							MC_CHECK(c.size() < 8 || all.find(c) == string::npos, "%s: contents can be seen", what.c_str());
						}
						/* The wrong one */
						for (int hmac = 0; hmac < 2; ++hmac) {
							Any c(Kind(k), file);
							c.mxf()->set_key(wrong_key);
							bool refused = false;
							try {
								c.read(hmac);
							} catch (dcp::ReadError&) {
								refused = true;
							}
							MC_CHECK(refused, "%s: can be read with the wrong key", what.c_str());
							MC_CHECK(!c.mxf()->can_be_read(), "%s: is said to be readable with the wrong key", what.c_str());
						}
						b.mxf()->set_key(key);
						MC_CHECK(b.mxf()->key_id() == key_id, "%s: giving the key changed its ID", what.c_str());
					}
					compare(b, frames, what);
					/* There is no decoder for MPEG2 here */
					MC_CHECK(k == MPEG2 || b.mxf()->can_be_read(), "%s: is said not to be readable", what.c_str());
					for (int i = b.duration() - 1; i >= 0; --i) {
						MC_CHECK(b.has(i), "%s: frame %d cannot be read", what.c_str(), i);
					}
					mc::state(what + mc::format("%d", smpte));
					mc::outcome(what);
					mc::trace();
				});
			}
		}
	}
	/* What is said about them */
	for (int k: { MONO, STEREO, MPEG2, ATMOS }) {
		for (int rate: { 24, 25, 30, 48, 60 }) {
			for (int large = 0; large < 2; ++large) {
				if (!mc::mine(unit++) || !mc::at("facts", { k, rate, large })) {
					continue;
				}
				Any a(Kind(k), k == MPEG2 ? dcp::Standard::INTEROP : dcp::Standard::SMPTE, dcp::Fraction(rate, 1));
				dcp::Size expected = size;
				if (large && (k == MONO || k == STEREO)) {
					expected = dcp::Size(96, 40);
					auto const d = assets::j2k(expected, 50);
					auto w = a.mono ? a.mono->start_write(dir + "/f.mxf", dcp::Behaviour::MAKE_NEW) : a.stereo->start_write(dir + "/f.mxf", dcp::Behaviour::MAKE_NEW);
					w->write(d);
					w->write(d);
					w->finalize();
				} else {
					a.write(dir + "/f.mxf", { 0, 1 });
				}
				Any b(Kind(k), dir + "/f.mxf");
				for (auto const& i: { a, b }) {
					if (k == ATMOS) {
						auto x = i.atmos;
						MC_CHECK(x->edit_rate() == dcp::Fraction(rate, 1) && x->first_frame() == 3 && x->max_channel_count() == 10 && x->max_object_count() == 118 && x->atmos_version() == 2 && x->atmos_id() == a.atmos->atmos_id(), "the description of an Atmos asset came back different");
						continue;
					}
					shared_ptr<dcp::PictureAsset> x = k == MONO ? shared_ptr<dcp::PictureAsset>(i.mono) : (k == STEREO ? shared_ptr<dcp::PictureAsset>(i.stereo) : shared_ptr<dcp::PictureAsset>(i.video));
					MC_CHECK(x->edit_rate() == dcp::Fraction(rate, 1), "%s: edit rate %d/%d and not %d", names[k], x->edit_rate().numerator, x->edit_rate().denominator, rate);
					if (k == MPEG2) {
						MC_CHECK(x->size() == dcp::Size(720, 576) && x->screen_aspect_ratio() == dcp::Fraction(16, 9), "MPEG2: wrong size");
					} else {
						MC_CHECK(x->frame_rate() == dcp::Fraction(k == STEREO ? rate * 2 : rate, 1), "%s: frame rate %d/%d", names[k], x->frame_rate().numerator, x->frame_rate().denominator);
						MC_CHECK(x->size() == expected, "%s: size %dx%d", names[k], x->size().width, x->size().height);
						MC_CHECK(x->screen_aspect_ratio() == dcp::Fraction(expected.width, expected.height), "%s: aspect ratio %d/%d", names[k], x->screen_aspect_ratio().numerator, x->screen_aspect_ratio().denominator);
					}
				}
				mc::trace();
			}
		}
	}
	/* Things which should be refused */
	for (int bad = 0; bad < 8; ++bad) {
		if (!mc::mine(unit++) || !mc::at("refused", { bad })) {
			continue;
		}
		bool refused = false;
		char const* what = "";
		boost::filesystem::remove(dir + "/r.mxf");
		try {
			Any m(MONO, dcp::Standard::SMPTE);
			Any s(STEREO, dcp::Standard::SMPTE);
			Any v(MPEG2, dcp::Standard::INTEROP);
			Any t(ATMOS, dcp::Standard::SMPTE);
			string const rubbish(200, 'x');
			dcp::J2KFrameInfo const info(16384, 100, "");
			switch (bad) {
			case 0: what = "something which is not a codestream"; m.mono->start_write(dir + "/r.mxf", dcp::Behaviour::MAKE_NEW)->write(data(rubbish), rubbish.size()); break;
			case 1: what = "half of a stereo frame"; s.write(dir + "/r.mxf", { 0, 1, 2 }); break;
			case 2: what = "something which is not a codestream"; s.stereo->start_write(dir + "/r.mxf", dcp::Behaviour::MAKE_NEW)->write(data(rubbish), rubbish.size()); break;
			case 3: what = "something which is not MPEG2"; v.video->start_write(dir + "/r.mxf", dcp::Behaviour::MAKE_NEW)->write(data(rubbish), rubbish.size()); break;
			case 4: what = "a frame in a directory which is not there"; m.write(dir + "/nowhere/r.mxf", { 0 }); break;
			case 5: what = "a frame in a directory which is not there"; t.write(dir + "/nowhere/r.mxf", { 0 }); break;
			case 6: what = "the place of a frame before there have been any"; m.mono->start_write(dir + "/r.mxf", dcp::Behaviour::OVERWRITE_EXISTING)->fake_write(info); break;
			case 7: {
				what = "a frame after the last";
				auto w = m.mono->start_write(dir + "/r.mxf", dcp::Behaviour::MAKE_NEW);
				w->write(data(frame(0)), frame(0).size());
				w->finalize();
				w->write(data(frame(0)), frame(0).size());
				break;
			}
			}
		} catch (std::exception&) {
			refused = true;
		}
		MC_CHECK(refused, "%s is accepted", what);
		mc::trace();
	}
	/* Kinds of file are not confused */
	for (int a = 0; a < KINDS; ++a) {
		for (int b = 0; b < KINDS; ++b) {
			if (a == b || !mc::mine(unit++) || !mc::at("confused", { a, b })) {
				continue;
			}
			Any x(Kind(a), a == MPEG2 ? dcp::Standard::INTEROP : dcp::Standard::SMPTE);
			x.write(dir + "/c.mxf", { 0, 1 });
			bool refused = false;
			try {
				Any y(Kind(b), dir + "/c.mxf");
			} catch (dcp::FileError&) {
				refused = true;
			} catch (dcp::ReadError&) {
				refused = true;
			}
			MC_CHECK(refused, "a file of %s can be opened as %s", names[a], names[b]);
			mc::trace();
		}
	}
}

/** Changes to an encrypted file are noticed */
static void tampering(int64_t& unit)
{
	for (int k = 0; k < KINDS; ++k) {
		for (int part = 0; part < 4; ++part) {
			if (!mc::mine(unit++) || !mc::at("tampering", { k, part })) {
				continue;
			}
			Any a(Kind(k), k == MPEG2 ? dcp::Standard::INTEROP : dcp::Standard::SMPTE);
			a.mxf()->set_key(key);
			a.write(dir + "/t.mxf", { 1, 2 });
			auto const all = assets::slurp(dir + "/t.mxf");
			/* The first frame */
			size_t const start = all.find("FRAM") + 12;
			size_t const end = all.find("FRAM", start);
			auto const step = std::max(size_t(1), (end - start) / 200);
			for (size_t i = start + part; i < end; i += step * 4) {
				auto changed = all;
				changed[i] ^= 1 << (i % 8);
				assets::put(dir + "/u.mxf", changed);
				Any b(Kind(k), dir + "/u.mxf");
				b.mxf()->set_key(key);
				bool refused = false;
				try {
					b.read();
				} catch (dcp::ReadError&) {
					refused = true;
				}
				MC_CHECK(refused, "an encrypted %s asset with byte %d of a frame changed can be read", names[k], int(i - start));
				mc::transition();
			}
			mc::state(mc::format("tampering %d", k));
			mc::trace();
		}
	}
}

/** Write a file, taking some frames from what is there already.  @return 0 if that worked */
static int carry_on(Kind k, string const& file, vector<int> const& frames, vector<dcp::J2KFrameInfo> const& infos, int there, bool encrypted, vector<dcp::J2KFrameInfo>* out = nullptr)
{
	try {
		Any a(k, dcp::Standard::SMPTE);
		if (encrypted) {
			a.mxf()->set_key(key);
		}
		auto w = a.mono ? a.mono->start_write(file, dcp::Behaviour::OVERWRITE_EXISTING) : a.stereo->start_write(file, dcp::Behaviour::OVERWRITE_EXISTING);
		vector<dcp::J2KFrameInfo> made;
		for (size_t i = 0; i < frames.size(); ++i) {
			if (i > 0 && int(i) < there) {
				w->fake_write(infos[i]);
				made.push_back(infos[i]);
			} else {
				auto const c = a.contents(frames[i]);
				made.push_back(w->write(data(c), c.size()));
			}
		}
		if (!w->finalize() || a.duration() != int(k == STEREO ? frames.size() / 2 : frames.size())) {
			return 2;
		}
		if (out) {
			*out = made;
		}
	} catch (std::exception&) {
		return 1;
	}
	return 0;
}

/** A process ends at each point of writing a file, and another carries on from frames which it knows to be there */
static void resume(int64_t& unit)
{
	int const most = 4;
	for (int k: { MONO, STEREO }) {
		for (int encrypted = 0; encrypted < 2; ++encrypted) {
			for (int n = (k == STEREO ? 2 : 1); n <= most; n += (k == STEREO ? 2 : 1)) {
				if (!mc::mine(unit++) || !mc::at("resume", { k, encrypted, n })) {
					continue;
				}
				vector<int> frames;
				for (int i = 0; i < n; ++i) {
					frames.push_back((i * 2 + 1) % 5);
				}
				auto const sub = dir + "/resume";
				boost::filesystem::remove_all(sub);
				boost::filesystem::create_directory(sub);
				auto const real = boost::filesystem::canonical(sub).string();
				auto const file = real + "/r.mxf";
				/* What it should be */
				vector<dcp::J2KFrameInfo> infos;
				MC_CHECK(carry_on(Kind(k), file, frames, {}, 0, encrypted, &infos) == 0, "writing over a file which is not there does not work");
				auto const whole = assets::slurp(file);
				auto check = [&](string const& what, vector<dcp::J2KFrameInfo> const& now) {
					if (!encrypted) {
						MC_CHECK(assets::slurp(file) == whole, "%s: the file is different from one written in one go", what.c_str());
					}
					Any b(Kind(k), file);
					if (encrypted) {
						b.mxf()->set_key(key);
					}
					compare(b, frames, what);
					Any::check(file, { now.begin(), now.end() });
				};
				/* A change of mind at each point */
				boost::filesystem::remove(file);
				auto const trial = faults::run(real, [&] { return carry_on(Kind(k), file, frames, {}, 0, encrypted); }, {});
				for (int call = 0; call < int(trial.calls.size()); ++call) {
					vector<faults::Fault> faults = { { call, faults::Kind::KILL, 0 }, { call, faults::Kind::KILL_AFTER, 0 } };
					if (trial.calls[call].writes() && trial.calls[call].length > 1) {
						for (uint64_t length: { uint64_t(1), trial.calls[call].length / 2, trial.calls[call].length - 1 }) {
							faults.push_back({ call, faults::Kind::SHORT_KILL, int64_t(length) });
						}
					}
					for (auto const& fault: faults) {
						boost::filesystem::remove(file);
						/* The details of each frame have to have been kept; with encryption they are those of this attempt */
						auto const notes = real + "/../resume-notes";
						boost::filesystem::remove(notes);
						auto const r = faults::run(real, [&] {
							Any a(Kind(k), dcp::Standard::SMPTE);
							if (encrypted) {
								a.mxf()->set_key(key);
							}
							auto w = a.mono ? a.mono->start_write(file, dcp::Behaviour::MAKE_NEW) : a.stereo->start_write(file, dcp::Behaviour::MAKE_NEW);
							int const fd = open(notes.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
							for (auto i: frames) {
								auto const c = a.contents(i);
								auto const info = w->write(data(c), c.size());
								auto const line = mc::format("%ld %ld %s\n", long(info.offset), long(info.size), info.hash.c_str());
								if (::write(fd, line.c_str(), line.length()) < 0) {
									return 3;
								}
							}
							w->finalize();
							return 0;
						}, { fault });
						MC_CHECK(r.killed, "a process could not be stopped where it was before");
						vector<dcp::J2KFrameInfo> kept;
						std::ifstream in(notes);
						long offset, length;
						string hash;
						while (in >> offset >> length >> hash) {
							kept.push_back({ uint64_t(offset), uint64_t(length), hash });
						}
						auto const left = boost::filesystem::exists(file) ? assets::slurp(file) : string();
						/* The first frame is always written again */
						for (int there = 1; there <= std::max(1, int(kept.size())); ++there) {
							if (boost::filesystem::exists(file)) {
								assets::put(file, left);
							}
							auto const what = mc::format("%s asset carried on with %d frames of %d after %s", names[k], there, n, faults::describe({ fault }, r).c_str());
							vector<dcp::J2KFrameInfo> now;
							auto const code = carry_on(Kind(k), file, frames, kept, there, encrypted, &now);
							MC_CHECK(code == 0, "%s: %s", what.c_str(), code == 1 ? "it failed" : "it is not said to have worked");
							if (code == 0) {
								check(what, now);
							}
							mc::state(mc::format("%d %d %d %d %d %d", k, encrypted, n, call, int(fault.kind), there));
							mc::transition();
						}
					}
				}
				mc::trace();
			}
		}
	}
	/* Being stopped more than once: all the lists of how far each attempt gets */
	for (int k: { MONO, STEREO }) {
		mc::sequences_to(4, 3, [&](vector<int> const& stops) {
			if (!mc::mine(unit++)) {
				return;
			}
			vector<int> key_{ k };
			key_.insert(key_.end(), stops.begin(), stops.end());
			if (!mc::at("stops:" + join(key_))) {
				return;
			}
			vector<int> const frames = { 1, 3, 0, 2 };
			auto const file = dir + "/m.mxf";
			boost::filesystem::remove(file);
			carry_on(Kind(k), file, frames, {}, 0, false);
			auto const whole = assets::slurp(file);
			boost::filesystem::remove(file);
			vector<dcp::J2KFrameInfo> infos;
			size_t reached = 0;
			for (auto stop: stops) {
				auto const copy = dir + "/n.mxf";
				string left;
				{
					Any a(Kind(k), dcp::Standard::SMPTE);
					auto w = a.mono ? a.mono->start_write(file, dcp::Behaviour::OVERWRITE_EXISTING) : a.stereo->start_write(file, dcp::Behaviour::OVERWRITE_EXISTING);
					for (int i = 0; i < stop; ++i) {
						if (i > 0 && i < int(reached)) {
							w->fake_write(infos[i]);
						} else {
							auto const c = a.contents(frames[i]);
							auto const info = w->write(data(c), c.size());
							if (i >= int(infos.size())) {
								infos.push_back(info);
							}
						}
					}
					left = boost::filesystem::exists(file) ? assets::slurp(file) : "";
				}
				/* As it was before the writer was closed down tidily */
				if (!left.empty()) {
					assets::put(file, left);
				}
				reached = std::max(reached, size_t(stop));
			}
			MC_CHECK(carry_on(Kind(k), file, frames, infos, reached, false) == 0, "an asset cannot be carried on with after %d stops", int(stops.size()));
			MC_CHECK(assets::slurp(file) == whole, "an asset stopped %d times is different from one written in one go", int(stops.size()));
			mc::state(mc::format("stops %d %d %d", k, int(stops.size()), int(reached)));
			mc::trace();
		});
	}
	/* Making a new file takes nothing from an old one */
	for (int k = 0; k < KINDS; ++k) {
		for (int before = 0; before < 4; ++before) {
			if (!mc::mine(unit++) || !mc::at("new", { k, before })) {
				continue;
			}
			auto const standard = k == MPEG2 ? dcp::Standard::INTEROP : dcp::Standard::SMPTE;
			vector<int> const frames = { 1, 2 };
			auto const file = dir + "/w.mxf";
			boost::filesystem::remove(file);
			{
				Any a(Kind(k), standard);
				a.write(file, frames);
			}
			auto const expected = assets::slurp(file);
			switch (before) {
			case 0: { Any a(Kind(k), standard); a.write(file, { 3, 3, 3, 3, 3, 3 }); break; }
			case 1: assets::put(file, string(200000, 'x')); break;
			case 2: assets::put(file, expected.substr(0, expected.size() / 2)); break;
			case 3: assets::put(file, ""); break;
			}
			Any a(Kind(k), standard);
			a.write(file, frames);
			auto const got = assets::slurp(file);
			/* Atmos and sound have random IDs in them */
			MC_CHECK(got == expected || ((k == ATMOS || k == SOUND) && got.size() == expected.size()), "a new %s file is affected by one which was there before", names[k]);
			compare(Any(Kind(k), file), frames, "new");
			mc::trace();
		}
	}
}

/** @return a codestream of an image with given samples in the first few places, which nothing is lost from */
static string image(vector<int> const& values, dcp::Size s = size)
{
	auto i = make_shared<dcp::OpenJPEGImage>(s);
	for (int c = 0; c < 3; ++c) {
		for (int p = 0; p < s.width * s.height; ++p) {
			i->data(c)[p] = values[(p * 3 + c) % values.size()];
		}
	}
	auto const d = dcp::compress_j2k(i, 100000000, 24, false, false);
	return string(reinterpret_cast<char const*>(d.data()), d.size());
}

/** Comparison of pictures */
static void equality(int64_t& unit)
{
	auto write = [](Kind k, string const& file, vector<string> const& frames, optional<dcp::Key> key = boost::none, int rate = 24) {
		Any a(k, dcp::Standard::SMPTE, dcp::Fraction(rate, 1));
		if (key) {
			a.mxf()->set_key(*key);
		}
		auto w = a.mono ? a.mono->start_write(file, dcp::Behaviour::MAKE_NEW) : a.stereo->start_write(file, dcp::Behaviour::MAKE_NEW);
		for (auto const& f: frames) {
			w->write(data(f), f.size());
		}
		w->finalize();
		return a.asset();
	};
	vector<string> const images = {
		image({ 2000 }), image({ 2004 }), image({ 2000, 2000, 2000, 2040 }), image({ 1000, 3000 }), image({ 2000, 2001 }), image({ 2000, 2000, 2000, 2003 }), image({ 2000 }, dcp::Size(32, 48)), image({ 2010, 1990 })
	};
	/* Reference: what is in them */
	auto statistics = [](string const& a, string const& b, double& mean, double& deviation) {
		auto x = dcp::decompress_j2k(data(a), a.size(), 0);
		auto y = dcp::decompress_j2k(data(b), b.size(), 0);
		if (!(x->size() == y->size())) {
			return false;
		}
		vector<double> d;
		for (int c = 0; c < 3; ++c) {
			for (int i = 0; i < x->size().width * x->size().height; ++i) {
				d.push_back(abs(x->data(c)[i] - y->data(c)[i]));
			}
		}
		double total = 0;
		for (auto i: d) {
			total += i;
		}
		mean = total / d.size();
		total = 0;
		for (auto i: d) {
			total += (i - mean) * (i - mean);
		}
		deviation = sqrt(total / d.size());
		return true;
	};
	for (int k: { MONO, STEREO }) {
		for (size_t a = 0; a < images.size(); ++a) {
			for (size_t b = 0; b < images.size(); ++b) {
				/* A frame, or one eye of it, which is different */
				for (int where = 0; where < 4; ++where) {
					if (!mc::mine(unit++) || !mc::at("frames", { k, int(a), int(b), where })) {
						continue;
					}
					bool const odd = a == 6 || b == 6;
					if (odd && (a != b) && where) {
						/* Assets have frames of one size */
						continue;
					}
					vector<string> x(odd ? 2 : 4, images[odd && a != b ? 6 : a]);
					auto y = x;
					if (odd && a != b) {
						x.assign(2, images[a]);
						y.assign(2, images[b]);
					} else {
						y[where % y.size()] = images[b];
					}
					double mean = 0;
					double deviation = 0;
					bool const comparable = statistics(images[a], images[b], mean, deviation);
					{
						int const keys = (a + b + where) % 4;
						auto p = write(Kind(k), dir + "/x.mxf", x, keys & 1 ? optional<dcp::Key>(key) : boost::none);
						auto q = write(Kind(k), dir + "/y.mxf", y, keys & 2 ? optional<dcp::Key>(wrong_key) : boost::none);
						/* Limits around those which make the difference */
						for (auto m: { 0.0, mean * 0.999, mean * 1.001 + 1e-9, mean + 1000 }) {
							for (auto d: { 0.0, deviation * 0.999, deviation * 1.001 + 1e-9, deviation + 1000 }) {
								bool const expected = a == b || (comparable && mean <= m && deviation <= d);
								for (int going = 0; going < 2; ++going) {
									dcp::EqualityOptions options;
									options.max_mean_pixel_error = m;
									options.max_std_dev_pixel_error = d;
									options.keep_going = going;
									MC_CHECK((going ? q->equals(p, options, note) : p->equals(q, options, note)) == expected,
										 "%s assets whose frames differ by %f with deviation %f are said to be %s with %f and %f allowed", names[k], mean, deviation, expected ? "different" : "the same", m, d);
									mc::transition();
								}
							}
						}
					}
					mc::state(mc::format("equality %d %d %d %d", k, int(a), int(b), where));
					mc::trace();
				}
			}
		}
		/* Lengths and rates */
		for (int a = 1; a <= 3; ++a) {
			for (int b = 1; b <= 3; ++b) {
				for (int rates = 0; rates < 2; ++rates) {
					for (int going = 0; going < 2; ++going) {
						if (!mc::mine(unit++) || !mc::at("lengths", { k, a, b, rates, going })) {
							continue;
						}
						auto p = write(Kind(k), dir + "/x.mxf", vector<string>(a * 2, images[0]));
						auto q = write(Kind(k), dir + "/y.mxf", vector<string>(b * 2, images[0]), boost::none, rates ? 25 : 24);
						dcp::EqualityOptions options;
						options.keep_going = going;
						bool const expected = a == b && !rates;
						MC_CHECK(p->equals(q, options, note) == expected, "%s assets of %d and %d frames%s are said to be %s", names[k], a, b, rates ? " at different rates" : "", expected ? "different" : "the same");
						mc::trace();
					}
				}
			}
		}
	}
	/* Kinds */
	for (int a = 0; a < KINDS; ++a) {
		for (int b = 0; b < KINDS; ++b) {
			if (!mc::mine(unit++) || !mc::at("kinds", { a, b })) {
				continue;
			}
			Any p(Kind(a), a == MPEG2 ? dcp::Standard::INTEROP : dcp::Standard::SMPTE);
			Any q(Kind(b), b == MPEG2 ? dcp::Standard::INTEROP : dcp::Standard::SMPTE);
			p.write(dir + "/x.mxf", { 0, 1 });
			q.write(dir + "/y.mxf", { 0, 1 });
			/* Those which are compared by hash alone must have one, as they do when read from a DCP */
			p.asset()->hash();
			q.asset()->hash();
			dcp::EqualityOptions options;
			auto const got = p.asset()->equals(q.asset(), options, note);
			/* Atmos has an ID in it and is compared as a whole */
			MC_CHECK(got == (a == b && a != ATMOS), "%s and %s are said to be %s", names[a], names[b], got ? "the same" : "different");
			mc::trace();
		}
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	dcp::init();
	dir = mc::scratch();
	int64_t unit = 0;
	auto t0 = time(nullptr);
#define T(x) x(unit); if (getenv("T")) fprintf(stderr, "%s %ld\n", #x, long(time(nullptr) - t0));
	T(sequences)
	T(tampering)
	T(resume)
	T(equality)
	mc::finish();
}
