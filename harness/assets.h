/* Small assets for the checks of whole DCPs */

#ifndef ASSETS_H
#define ASSETS_H

#include "array_data.h"
#include "atmos_asset.h"
#include "atmos_asset_writer.h"
#include "cpl.h"
#include "dcp.h"
#include "file.h"
#include "interop_text_asset.h"
#include "j2k_transcode.h"
#include "mono_j2k_picture_asset.h"
#include "openjpeg_image.h"
#include "j2k_picture_asset_writer.h"
#include "reel.h"
#include "reel_atmos_asset.h"
#include "reel_interop_text_asset.h"
#include "reel_markers_asset.h"
#include "reel_mono_picture_asset.h"
#include "reel_smpte_text_asset.h"
#include "reel_sound_asset.h"
#include "reel_stereo_picture_asset.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "sound_asset_writer.h"
#include "stereo_j2k_picture_asset.h"
#include "text_image.h"
#include "text_string.h"
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <fstream>
#include <map>
#include <sstream>

namespace assets {

/** @return a codestream with samples all of the given value */
inline dcp::ArrayData j2k(dcp::Size size, int value)
{
	static std::map<std::vector<int>, dcp::ArrayData> made;
	auto const key = std::vector<int>{ size.width, size.height, value };
	if (!made.count(key)) {
		auto image = std::make_shared<dcp::OpenJPEGImage>(size);
		for (int c = 0; c < 3; ++c) {
			for (int i = 0; i < size.width * size.height; ++i) {
				image->data(c)[i] = value;
			}
		}
		made[key] = dcp::compress_j2k(image, 100000000, 24, false, size.width > 2048);
	}
	return made[key];
}

inline std::shared_ptr<dcp::MonoJ2KPictureAsset> mono(boost::filesystem::path file, dcp::Standard standard, int frames = 2, dcp::Size size = dcp::Size(64, 32), int value = 0, boost::optional<dcp::Key> key = boost::none)
{
	auto asset = std::make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(24, 1), standard);
	if (key) {
		asset->set_key(*key);
	}
	auto writer = asset->start_write(file, dcp::Behaviour::MAKE_NEW);
	auto const data = j2k(size, value);
	for (int i = 0; i < frames; ++i) {
		writer->write(data.data(), data.size());
	}
	writer->finalize();
	return asset;
}

inline std::shared_ptr<dcp::SoundAsset> sound(boost::filesystem::path file, dcp::Standard standard, int frames = 2, int channels = 6, float value = 0, boost::optional<dcp::Key> key = boost::none)
{
	auto asset = std::make_shared<dcp::SoundAsset>(dcp::Fraction(24, 1), 48000, channels, dcp::LanguageTag("en-US"), standard);
	if (key) {
		asset->set_key(*key);
	}
	auto writer = asset->start_write(file, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
	std::vector<float> samples(2000, value);
	std::vector<float*> data(channels, samples.data());
	for (int i = 0; i < frames; ++i) {
		writer->write(data.data(), channels, 2000);
	}
	writer->finalize();
	return asset;
}

inline std::shared_ptr<dcp::AtmosAsset> atmos(boost::filesystem::path file, int frames = 2, uint8_t value = 1, boost::optional<dcp::Key> key = boost::none)
{
	auto asset = std::make_shared<dcp::AtmosAsset>(dcp::Fraction(24, 1), 0, 10, 118, 1);
	if (key) {
		asset->set_key(*key);
	}
	auto writer = asset->start_write(file);
	std::vector<uint8_t> const data(64, value);
	for (int i = 0; i < frames; ++i) {
		writer->write(data.data(), data.size());
	}
	writer->finalize();
	return asset;
}

inline std::shared_ptr<dcp::TextString> text(std::string s, dcp::Time in, dcp::Time out, float v_position = 0.8, boost::optional<std::string> font = boost::none)
{
	return std::make_shared<dcp::TextString>(
		font, false, false, false, dcp::Colour(255, 255, 255), 42, 1, in, out, 0, dcp::HAlign::CENTER, v_position, dcp::VAlign::TOP, 0,
		std::vector<dcp::Text::VariableZPosition>(), dcp::Direction::LTR, s, dcp::Effect::NONE, dcp::Colour(0, 0, 0), dcp::Time(), dcp::Time(), 0, std::vector<dcp::Ruby>()
		);
}

/** Something which can be put in place of a PNG where nothing looks at it */
inline dcp::ArrayData png(int n)
{
	dcp::ArrayData data(100 + n);
	for (int i = 0; i < data.size(); ++i) {
		data.data()[i] = i * 7 + n;
	}
	return data;
}

inline std::shared_ptr<dcp::TextImage> image(dcp::ArrayData png, dcp::Time in, dcp::Time out)
{
	return std::make_shared<dcp::TextImage>(png, in, out, 0, dcp::HAlign::CENTER, 0.8, dcp::VAlign::TOP, 0, std::vector<dcp::Text::VariableZPosition>(), dcp::Time(), dcp::Time());
}

inline std::shared_ptr<dcp::SMPTETextAsset> smpte_text(boost::filesystem::path file, int64_t duration = 48, boost::optional<dcp::Key> key = boost::none, std::string words = "Hello")
{
	auto asset = std::make_shared<dcp::SMPTETextAsset>();
	asset->set_language(dcp::LanguageTag("en-GB"));
	asset->set_content_title_text("title");
	asset->set_start_time(dcp::Time());
	asset->set_edit_rate(dcp::Fraction(24, 1));
	asset->set_time_code_rate(24);
	asset->set_intrinsic_duration(duration);
	asset->add_font("font", png(50));
	asset->add(text(words, dcp::Time(0, 0, 0, 0, 24), dcp::Time(0, 0, 1, 0, 24), 0.8, std::string("font")));
	if (key) {
		asset->set_key(*key);
	}
	asset->write(file);
	return asset;
}

inline std::string slurp(boost::filesystem::path p)
{
	std::ifstream f(p.string(), std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

inline void put(boost::filesystem::path p, std::string const& text)
{
	std::ofstream f(p.string(), std::ios::binary);
	f << text;
}

/** @return base64 of the SHA-1 of some data */
inline std::string digest(std::string const& data)
{
	unsigned char sha[SHA_DIGEST_LENGTH];
	SHA1(reinterpret_cast<unsigned char const*>(data.data()), data.size(), sha);
	unsigned char out[64];
	EVP_EncodeBlock(out, sha, SHA_DIGEST_LENGTH);
	return reinterpret_cast<char*>(out);
}

}

#endif
