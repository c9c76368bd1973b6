/* A stand-in for asdcplib; see asdcp/KM_types.h.
 *
 * A file is a header of 16384 bytes, then the frames, then an index and description of what is in the file, which is found from
 * an offset in the header.  That offset is only filled in when the file is finalised.
 */

#include "asdcp/AS_DCP.h"
#include <errno.h>
#include <fcntl.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <openssl/md5.h>
#include <sys/stat.h>
#include <unistd.h>
#include <mutex>

using std::map;
using std::string;
using std::vector;

namespace Kumu {

const Result_t RESULT_FALSE(1, "Successful but not true");
const Result_t RESULT_OK(0, "Success");
const Result_t RESULT_FAIL(-1, "An undefined error was detected");
const Result_t RESULT_PTR(-2, "An unexpected NULL pointer was given");
const Result_t RESULT_NULL_STR(-3, "An unexpected empty string was given");
const Result_t RESULT_ALLOC(-4, "Error allocating memory");
const Result_t RESULT_PARAM(-5, "Invalid parameter");
const Result_t RESULT_SMALLBUF(-8, "The given buffer is too small");
const Result_t RESULT_INIT(-9, "The object is not yet initialized");
const Result_t RESULT_NOT_FOUND(-10, "The requested file does not exist on the system");
const Result_t RESULT_STATE(-13, "Object state error");
const Result_t RESULT_FILEOPEN(-15, "File open failure");
const Result_t RESULT_BADSEEK(-16, "An invalid file location was requested");
const Result_t RESULT_READFAIL(-17, "File read error");
const Result_t RESULT_WRITEFAIL(-18, "File write error");
const Result_t RESULT_ENDOFFILE(-19, "Attempt to read past end of file");

static Result_t with_errno(Result_t const& r)
{
	return Result_t(r.Value(), r.Label(), errno);
}

bool dcpomatic_test = false;

static std::mutex rng_mutex;
static uint64_t rng_counter = 1;

void ResetTestRNG()
{
	std::lock_guard<std::mutex> lm(rng_mutex);
	rng_counter = 1;
}

byte_t const* FortunaRNG::FillRandom(byte_t* buf, ui32_t len)
{
	std::lock_guard<std::mutex> lm(rng_mutex);
	for (ui32_t i = 0; i < len; i += SHA_DIGEST_LENGTH) {
		byte_t digest[SHA_DIGEST_LENGTH];
		SHA1(reinterpret_cast<byte_t const*>(&rng_counter), sizeof(rng_counter), digest);
		++rng_counter;
		memcpy(buf + i, digest, std::min<ui32_t>(SHA_DIGEST_LENGTH, len - i));
	}
	return buf;
}

void FortunaRNG::Reset()
{
	ResetTestRNG();
}

ILogSink& DefaultLogSink()
{
	static ILogSink sink;
	return sink;
}

static int hex_value(char c)
{
	if (c >= '0' && c <= '9') {
		return c - '0';
	} else if (c >= 'a' && c <= 'f') {
		return c - 'a' + 10;
	} else if (c >= 'A' && c <= 'F') {
		return c - 'A' + 10;
	}
	return -1;
}

i32_t hex2bin(char const* str, byte_t* buf, ui32_t buf_len, ui32_t* char_count)
{
	*char_count = 0;
	ui32_t nibbles = 0;
	for (; *str; ++str) {
		int const v = hex_value(*str);
		if (v < 0) {
			continue;
		}
		if (nibbles / 2 >= buf_len) {
			return -1;
		}
		if (nibbles % 2) {
			buf[nibbles / 2] |= v;
		} else {
			buf[nibbles / 2] = v << 4;
		}
		++nibbles;
	}
	*char_count = (nibbles + 1) / 2;
	return 0;
}

char const* bin2hex(byte_t const* bin_buf, ui32_t bin_len, char* str_buf, ui32_t str_len)
{
	if (!bin_buf || !str_buf || (bin_len * 2 + 1) > str_len) {
		return nullptr;
	}
	for (ui32_t i = 0; i < bin_len; ++i) {
		snprintf(str_buf + i * 2, 3, "%02x", bin_buf[i]);
	}
	return str_buf;
}

char const* bin2UUIDhex(byte_t const* bin_buf, ui32_t bin_len, char* str_buf, ui32_t str_len)
{
	if (!bin_buf || !str_buf || bin_len != UUID_Length || str_len < 37) {
		return nullptr;
	}
	char* p = str_buf;
	for (ui32_t i = 0; i < bin_len; ++i) {
		if (i == 4 || i == 6 || i == 8 || i == 10) {
			*p++ = '-';
		}
		snprintf(p, 3, "%02x", bin_buf[i]);
		p += 2;
	}
	return str_buf;
}

static char const base64_chars[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

char const* base64encode(byte_t const* buf, ui32_t buf_len, char* strbuf, ui32_t strbuf_len)
{
	if (((buf_len + 2) / 3) * 4 + 1 > strbuf_len) {
		return nullptr;
	}
	char* p = strbuf;
	for (ui32_t i = 0; i < buf_len; i += 3) {
		ui32_t v = buf[i] << 16;
		if (i + 1 < buf_len) {
			v |= buf[i + 1] << 8;
		}
		if (i + 2 < buf_len) {
			v |= buf[i + 2];
		}
		*p++ = base64_chars[v >> 18];
		*p++ = base64_chars[(v >> 12) & 63];
		*p++ = i + 1 < buf_len ? base64_chars[(v >> 6) & 63] : '=';
		*p++ = i + 2 < buf_len ? base64_chars[v & 63] : '=';
	}
	*p = 0;
	return strbuf;
}

bool UUID::DecodeHex(char const* s)
{
	ui32_t n = 0;
	return hex2bin(s, _value, UUID_Length, &n) == 0 && n == UUID_Length;
}

char const* UUID::EncodeHex(char* buf, ui32_t len) const
{
	return bin2UUIDhex(_value, UUID_Length, buf, len);
}

void GenRandomUUID(byte_t* buf)
{
	FortunaRNG rng;
	rng.FillRandom(buf, UUID_Length);
	buf[6] = (buf[6] & 0x0f) | 0x40;
	buf[8] = (buf[8] & 0x3f) | 0x80;
}

void GenRandomValue(UUID& id)
{
	byte_t b[UUID_Length];
	GenRandomUUID(b);
	id.Set(b);
}

FileReader::~FileReader()
{
	Close();
}

Result_t FileReader::OpenRead(string const& filename) const
{
	Close();
	_fd = open(filename.c_str(), O_RDONLY | O_CLOEXEC);
	return _fd >= 0 ? RESULT_OK : with_errno(RESULT_FILEOPEN);
}

Result_t FileReader::Close() const
{
	if (_fd < 0) {
		return RESULT_FILEOPEN;
	}
	close(_fd);
	_fd = -1;
	return RESULT_OK;
}

fsize_t FileReader::Size() const
{
	struct stat s;
	return fstat(_fd, &s) == 0 ? s.st_size : 0;
}

Result_t FileReader::Seek(fpos_t position) const
{
	return lseek(_fd, position, SEEK_SET) >= 0 ? RESULT_OK : RESULT_BADSEEK;
}

Result_t FileReader::Read(byte_t* buf, ui32_t len, ui32_t* read_count) const
{
	ui32_t dummy;
	if (!read_count) {
		read_count = &dummy;
	}
	*read_count = 0;
	if (_fd < 0) {
		return RESULT_FILEOPEN;
	}
	auto const r = ::read(_fd, buf, len);
	if (r < 0) {
		return with_errno(RESULT_READFAIL);
	}
	*read_count = r;
	return r == 0 ? RESULT_ENDOFFILE : RESULT_OK;
}

}

namespace ASDCP {

using Kumu::with_errno;

const Result_t RESULT_FORMAT(-101, "The file format is not proper OP-Atom/AS-DCP");
const Result_t RESULT_RAW_ESS(-102, "Unknown raw essence file type");
const Result_t RESULT_RAW_FORMAT(-103, "Raw essence format invalid");
const Result_t RESULT_RANGE(-104, "Frame number out of range");
const Result_t RESULT_CRYPT_CTX(-105, "AESEncContext required when writing to encrypted file");
const Result_t RESULT_LARGE_PTO(-106, "Plaintext offset exceeds frame buffer size");
const Result_t RESULT_CAPEXTMEM(-107, "Cannot resize externally allocated memory");
const Result_t RESULT_CHECKFAIL(-108, "The check value did not decrypt correctly");
const Result_t RESULT_HMACFAIL(-109, "HMAC authentication failure");
const Result_t RESULT_HMAC_CTX(-110, "HMAC context required");
const Result_t RESULT_CRYPT_INIT(-111, "Error initializing block cipher context");
const Result_t RESULT_EMPTY_FB(-112, "Empty frame buffer");
const Result_t RESULT_SFORMAT(-118, "The file format is JPEG2000 stereoscopic");

char const* UL::EncodeString(char* buf, ui32_t len) const
{
	auto v = _value;
	snprintf(
		buf, len, "%02x%02x%02x%02x.%02x%02x%02x%02x.%02x%02x%02x%02x.%02x%02x%02x%02x",
		v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]
		);
	return buf;
}

byte_t const* Dictionary::ul(MDD_t type) const
{
	static byte_t table[MDD_Max][SMPTE_UL_LENGTH];
	static std::once_flag once;
	std::call_once(once, []() {
		byte_t const base[SMPTE_UL_LENGTH] = { 0x06, 0x0e, 0x2b, 0x34, 0x04, 0x01, 0x01, 0x0d, 0x03, 0x02, 0x01, 0x00, 0x00, 0x00, 0x00, 0x00 };
		for (int i = 0; i < MDD_Max; ++i) {
			memcpy(table[i], base, SMPTE_UL_LENGTH);
		}
		for (int i = 0; i < MDD_DCAudioSoundfield_51; ++i) {
			table[i][4] = 0x02;
			table[i][5] = 0x53;
			table[i][11] = i + 1;
		}
		struct { MDD_t type; byte_t a; byte_t b; } const known[] = {
			{ MDD_DCAudioChannelCfg_4_WTF, 0x03, 0x01 },
			{ MDD_DCAudioChannel_L, 0x01, 0x01 },
			{ MDD_DCAudioChannel_R, 0x01, 0x02 },
			{ MDD_DCAudioChannel_C, 0x01, 0x03 },
			{ MDD_DCAudioChannel_LFE, 0x01, 0x04 },
			{ MDD_DCAudioChannel_Ls, 0x01, 0x05 },
			{ MDD_DCAudioChannel_Rs, 0x01, 0x06 },
			{ MDD_DCAudioChannel_Lss, 0x01, 0x07 },
			{ MDD_DCAudioChannel_Rss, 0x01, 0x08 },
			{ MDD_DCAudioChannel_Lrs, 0x01, 0x09 },
			{ MDD_DCAudioChannel_Rrs, 0x01, 0x0a },
			{ MDD_DCAudioChannel_HI, 0x01, 0x0e },
			{ MDD_DCAudioChannel_VIN, 0x01, 0x0f },
			{ MDD_DCAudioSoundfield_51, 0x02, 0x01 },
			{ MDD_DCAudioSoundfield_71, 0x02, 0x02 },
			{ MDD_DBOXMotionCodePrimaryStream, 0x05, 0x01 },
		};
		for (auto const& i: known) {
			table[i.type][10] = i.a;
			table[i.type][11] = i.b;
		}
	});
	return table[type];
}

Dictionary const& DefaultSMPTEDict()
{
	static Dictionary d;
	return d;
}

Dictionary const& DefaultInteropDict()
{
	return DefaultSMPTEDict();
}

Dictionary const& DefaultCompositeDict()
{
	return DefaultSMPTEDict();
}

static string bytes(void const* data, size_t size)
{
	return string(static_cast<char const*>(data), size);
}

static string number(int64_t n)
{
	return std::to_string(n);
}

static string get(map<string, string> const& v, string const& name)
{
	auto i = v.find(name);
	return i == v.end() ? string() : i->second;
}

static int64_t get_number(map<string, string> const& v, string const& name)
{
	return strtoll(get(v, name).c_str(), nullptr, 10);
}

static void get_bytes(map<string, string> const& v, string const& name, byte_t* out, size_t size)
{
	auto s = get(v, name);
	s.resize(size);
	memcpy(out, s.data(), size);
}

static void put(map<string, string>& v, string const& name, Rational const& r)
{
	v[name + "N"] = number(r.Numerator);
	v[name + "D"] = number(r.Denominator);
}

static Rational get_rational(map<string, string> const& v, string const& name)
{
	return Rational(get_number(v, name + "N"), get_number(v, name + "D"));
}

namespace MXF {

char const* UTF16String::EncodeString(char* buf, ui32_t len) const
{
	snprintf(buf, len, "%s", c_str());
	return buf;
}

void InterchangeObject::get(map<string, string>& v) const
{
	v["type"] = number(type);
	v["InstanceUID"] = bytes(InstanceUID.Value(), 16);
}

static Kumu::UUID get_uuid(map<string, string> const& v, string const& name)
{
	byte_t b[16];
	get_bytes(v, name, b, 16);
	return Kumu::UUID(b);
}

void InterchangeObject::set(map<string, string> const& v)
{
	InstanceUID = get_uuid(v, "InstanceUID");
}

void MCALabelSubDescriptor::get(map<string, string>& v) const
{
	InterchangeObject::get(v);
	v["MCALabelDictionaryID"] = bytes(MCALabelDictionaryID.Value(), 16);
	v["MCALinkID"] = bytes(MCALinkID.Value(), 16);
	v["MCATagSymbol"] = MCATagSymbol;
	if (!MCATagName.empty()) {
		v["MCATagName"] = MCATagName.get();
	}
	if (!MCAChannelID.empty()) {
		v["MCAChannelID"] = number(MCAChannelID.get());
	}
	if (!RFC5646SpokenLanguage.empty()) {
		v["RFC5646SpokenLanguage"] = RFC5646SpokenLanguage.get();
	}
}

void MCALabelSubDescriptor::set(map<string, string> const& v)
{
	InterchangeObject::set(v);
	MCALabelDictionaryID = UL(reinterpret_cast<byte_t const*>(ASDCP::get(v, "MCALabelDictionaryID").data()));
	MCALinkID = get_uuid(v, "MCALinkID");
	MCATagSymbol = ASDCP::get(v, "MCATagSymbol");
	if (v.count("MCATagName")) {
		MCATagName = ASDCP::get(v, "MCATagName");
	}
	if (v.count("MCAChannelID")) {
		MCAChannelID = get_number(v, "MCAChannelID");
	}
	if (v.count("RFC5646SpokenLanguage")) {
		RFC5646SpokenLanguage = ASDCP::get(v, "RFC5646SpokenLanguage");
	}
}

void AudioChannelLabelSubDescriptor::get(map<string, string>& v) const
{
	MCALabelSubDescriptor::get(v);
	if (!SoundfieldGroupLinkID.empty()) {
		v["SoundfieldGroupLinkID"] = bytes(SoundfieldGroupLinkID.get().Value(), 16);
	}
}

void AudioChannelLabelSubDescriptor::set(map<string, string> const& v)
{
	MCALabelSubDescriptor::set(v);
	if (v.count("SoundfieldGroupLinkID")) {
		SoundfieldGroupLinkID = get_uuid(v, "SoundfieldGroupLinkID");
	}
}

Result_t OP1aHeader::GetMDObjectByType(byte_t const* ul, InterchangeObject** object)
{
	InterchangeObject* dummy;
	if (!object) {
		object = &dummy;
	}
	*object = nullptr;
	for (auto const& i: objects) {
		if (memcmp(DefaultSMPTEDict().ul(i->type), ul, SMPTE_UL_LENGTH) == 0) {
			*object = i.get();
			return RESULT_OK;
		}
	}
	return RESULT_FAIL;
}

Result_t OP1aHeader::GetMDObjectsByType(byte_t const* ul, std::list<InterchangeObject*>& out)
{
	out.clear();
	for (auto const& i: objects) {
		if (memcmp(DefaultSMPTEDict().ul(i->type), ul, SMPTE_UL_LENGTH) == 0) {
			out.push_back(i.get());
		}
	}
	return out.empty() ? RESULT_FAIL : RESULT_OK;
}

void OP1aHeader::AddChildObject(InterchangeObject* object)
{
	objects.push_back(std::shared_ptr<InterchangeObject>(object));
}

}

WriterInfo::WriterInfo()
{
	memset(ProductUUID, 0, UUIDlen);
	memset(AssetUUID, 0, UUIDlen);
	memset(ContextID, 0, UUIDlen);
	memset(CryptographicKeyID, 0, UUIDlen);
}

static void cipher(bool encrypt, byte_t const* key, byte_t* iv, byte_t const* in, byte_t* out, ui32_t size)
{
	auto ctx = EVP_CIPHER_CTX_new();
	EVP_CipherInit_ex(ctx, EVP_aes_128_cbc(), nullptr, key, iv, encrypt ? 1 : 0);
	EVP_CIPHER_CTX_set_padding(ctx, 0);
	byte_t last[CBC_BLOCK_SIZE];
	if (!encrypt && size) {
		memcpy(last, in + size - CBC_BLOCK_SIZE, CBC_BLOCK_SIZE);
	}
	int n = 0;
	EVP_CipherUpdate(ctx, out, &n, in, size);
	EVP_CIPHER_CTX_free(ctx);
	if (size) {
		memcpy(iv, encrypt ? out + size - CBC_BLOCK_SIZE : last, CBC_BLOCK_SIZE);
	}
}

Result_t AESEncContext::InitKey(byte_t const* key)
{
	if (_has_key) {
		return RESULT_INIT;
	}
	memcpy(_key, key, KeyLen);
	_has_key = true;
	return RESULT_OK;
}

Result_t AESEncContext::SetIVec(byte_t const* iv)
{
	memcpy(_iv, iv, CBC_BLOCK_SIZE);
	return RESULT_OK;
}

Result_t AESEncContext::GetIVec(byte_t* iv) const
{
	memcpy(iv, _iv, CBC_BLOCK_SIZE);
	return RESULT_OK;
}

Result_t AESEncContext::EncryptBlock(byte_t const* plain, byte_t* out, ui32_t size)
{
	if (!_has_key || (size % CBC_BLOCK_SIZE)) {
		return RESULT_INIT;
	}
	cipher(true, _key, _iv, plain, out, size);
	return RESULT_OK;
}

Result_t AESDecContext::InitKey(byte_t const* key)
{
	if (_has_key) {
		return RESULT_INIT;
	}
	memcpy(_key, key, KeyLen);
	_has_key = true;
	return RESULT_OK;
}

Result_t AESDecContext::SetIVec(byte_t const* iv)
{
	memcpy(_iv, iv, CBC_BLOCK_SIZE);
	return RESULT_OK;
}

Result_t AESDecContext::DecryptBlock(byte_t const* in, byte_t* plain, ui32_t size)
{
	if (!_has_key || (size % CBC_BLOCK_SIZE)) {
		return RESULT_INIT;
	}
	cipher(false, _key, _iv, in, plain, size);
	return RESULT_OK;
}

Result_t HMACContext::InitKey(byte_t const* key, LabelSet_t type)
{
	byte_t digest[SHA_DIGEST_LENGTH];
	SHA1(key, KeyLen, digest);
	memcpy(_key, digest, KeyLen);
	/* The two standards derive the key differently */
	_key[0] ^= type == LS_MXF_SMPTE ? 1 : 0;
	return RESULT_OK;
}

void HMACContext::Calculate(byte_t const* data, size_t size, byte_t* out) const
{
	unsigned int n = 0;
	HMAC(EVP_sha1(), _key, KeyLen, data, size, out, &n);
}

FrameBuffer::~FrameBuffer()
{
	if (_own) {
		free(_data);
	}
}

Result_t FrameBuffer::SetData(byte_t* buf, ui32_t size)
{
	if (_own) {
		free(_data);
	}
	_data = buf;
	_capacity = size;
	_own = false;
	return RESULT_OK;
}

Result_t FrameBuffer::Capacity(ui32_t c)
{
	if (!_own && _data) {
		return RESULT_CAPEXTMEM;
	}
	if (_capacity < c) {
		free(_data);
		_data = static_cast<byte_t*>(malloc(c));
		if (!_data) {
			_capacity = 0;
			return Kumu::RESULT_ALLOC;
		}
		_capacity = c;
		_own = true;
		_size = 0;
	}
	return RESULT_OK;
}

namespace shim {

static size_t const header_size = 16384;
static char const magic[] = "SHIM-MXF";
static char const check_value[] = "CHUKCHUKCHUKCHUK";

static Result_t write_all(int fd, void const* data, size_t size)
{
	auto p = static_cast<char const*>(data);
	while (size) {
		auto const n = ::write(fd, p, size);
		if (n < 0) {
			if (errno == EINTR) {
				continue;
			}
			return with_errno(RESULT_WRITEFAIL);
		}
		p += n;
		size -= n;
	}
	return RESULT_OK;
}

static Result_t read_all(int fd, ui64_t offset, void* data, size_t size)
{
	auto p = static_cast<char*>(data);
	while (size) {
		auto const n = ::pread(fd, p, size, offset);
		if (n < 0) {
			if (errno == EINTR) {
				continue;
			}
			return with_errno(RESULT_READFAIL);
		}
		if (n == 0) {
			return RESULT_ENDOFFILE;
		}
		p += n;
		offset += n;
		size -= n;
	}
	return RESULT_OK;
}

static void put(string& out, ui64_t n)
{
	out += bytes(&n, sizeof(n));
}

static void put(string& out, string const& s)
{
	put(out, static_cast<ui64_t>(s.size()));
	out += s;
}

static void put(string& out, map<string, string> const& m)
{
	put(out, static_cast<ui64_t>(m.size()));
	for (auto const& i: m) {
		put(out, i.first);
		put(out, i.second);
	}
}

struct Input
{
	string const& data;
	size_t position;
	bool good;

	bool get(ui64_t& n)
	{
		if (data.size() - position < sizeof(n)) {
			return good = false;
		}
		memcpy(&n, data.data() + position, sizeof(n));
		position += sizeof(n);
		return true;
	}

	bool get(string& s)
	{
		ui64_t n;
		if (!get(n) || data.size() - position < n) {
			return good = false;
		}
		s = data.substr(position, n);
		position += n;
		return true;
	}

	bool get(map<string, string>& m)
	{
		ui64_t n;
		if (!get(n)) {
			return false;
		}
		for (ui64_t i = 0; i < n; ++i) {
			string a;
			string b;
			if (!get(a) || !get(b)) {
				return false;
			}
			m[a] = b;
		}
		return true;
	}
};

Writer::~Writer()
{
	if (_fd >= 0) {
		::close(_fd);
	}
}

Result_t Writer::open(string const& filename, WriterInfo const& info, string const& kind, map<string, string> const& descriptor, bool overwrite)
{
	if (_fd >= 0) {
		return RESULT_STATE;
	}
	if (overwrite) {
		_fd = ::open(filename.c_str(), O_RDWR | O_CLOEXEC);
	}
	if (_fd < 0) {
		_fd = ::open(filename.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0666);
	}
	if (_fd < 0) {
		return with_errno(RESULT_FILEOPEN);
	}
	_header.values = descriptor;
	auto& v = _header.values;
	v["kind"] = kind;
	v["AssetUUID"] = bytes(info.AssetUUID, UUIDlen);
	v["ProductUUID"] = bytes(info.ProductUUID, UUIDlen);
	v["ProductVersion"] = info.ProductVersion;
	v["CompanyName"] = info.CompanyName;
	v["ProductName"] = info.ProductName;
	v["LabelSetType"] = number(info.LabelSetType);
	v["EncryptedEssence"] = number(info.EncryptedEssence);
	v["UsesHMAC"] = number(info.UsesHMAC);
	if (info.EncryptedEssence) {
		v["ContextID"] = bytes(info.ContextID, UUIDlen);
		v["CryptographicKeyID"] = bytes(info.CryptographicKeyID, UUIDlen);
	}
	_encrypted = info.EncryptedEssence;
	_hmac = info.UsesHMAC;
	string h(header_size, '\0');
	h.replace(0, 8, magic, 8);
	auto r = write_all(_fd, h.data(), h.size());
	_position = header_size;
	return r;
}

Result_t Writer::write(byte_t const* data, size_t size, AESEncContext* enc, HMACContext* hmac, string* hash)
{
	if (_fd < 0 || _done) {
		return RESULT_STATE;
	}
	if (!data || size == 0) {
		return RESULT_EMPTY_FB;
	}
	string payload;
	if (_encrypted) {
		if (!enc) {
			return RESULT_CRYPT_CTX;
		}
		if (_hmac && !hmac) {
			return RESULT_HMAC_CTX;
		}
		byte_t iv[CBC_BLOCK_SIZE];
		enc->GetIVec(iv);
		payload = bytes(iv, CBC_BLOCK_SIZE);
		put(payload, static_cast<ui64_t>(size));
		string plain = bytes(check_value, CBC_BLOCK_SIZE) + bytes(data, size);
		auto const pad = CBC_BLOCK_SIZE - (plain.size() % CBC_BLOCK_SIZE);
		plain += string(pad, static_cast<char>(pad));
		string out(plain.size(), '\0');
		auto r = enc->EncryptBlock(reinterpret_cast<byte_t const*>(plain.data()), reinterpret_cast<byte_t*>(&out[0]), plain.size());
		if (r.Failure()) {
			return r;
		}
		payload += out;
		if (_hmac) {
			auto check = payload + number(_header.index.size());
			byte_t mac[HMAC_SIZE];
			hmac->Calculate(reinterpret_cast<byte_t const*>(check.data()), check.size(), mac);
			payload += bytes(mac, HMAC_SIZE);
		}
	} else {
		payload = bytes(data, size);
	}
	string record = "FRAM";
	put(record, static_cast<ui64_t>(payload.size()));
	record += payload;
	if (hash) {
		byte_t digest[MD5_DIGEST_LENGTH];
		unsigned int n = 0;
		EVP_Digest(record.data(), record.size(), digest, &n, EVP_md5(), nullptr);
		char hex[64];
		*hash = Kumu::bin2hex(digest, MD5_DIGEST_LENGTH, hex, sizeof(hex));
	}
	auto r = write_all(_fd, record.data(), record.size());
	if (r.Failure()) {
		return r;
	}
	_header.index.push_back({_position, record.size()});
	_position += record.size();
	return RESULT_OK;
}

Result_t Writer::fake_write(ui64_t size)
{
	if (_fd < 0 || _done) {
		return RESULT_STATE;
	}
	if (lseek(_fd, size, SEEK_CUR) < 0) {
		return Kumu::RESULT_BADSEEK;
	}
	_header.index.push_back({_position, size});
	_position += size;
	return RESULT_OK;
}

Result_t Writer::finalize(map<string, string> const& extra)
{
	if (_fd < 0 || _done) {
		return RESULT_STATE;
	}
	for (auto const& i: extra) {
		_header.values[i.first] = i.second;
	}
	string footer;
	put(footer, _header.values);
	put(footer, static_cast<ui64_t>(op1a.objects.size()));
	for (auto const& i: op1a.objects) {
		map<string, string> v;
		i->get(v);
		put(footer, v);
	}
	put(footer, static_cast<ui64_t>(_header.index.size()));
	for (auto const& i: _header.index) {
		put(footer, i.offset);
		put(footer, i.size);
	}
	auto r = write_all(_fd, footer.data(), footer.size());
	if (r.Failure()) {
		return r;
	}
	string start = bytes(magic, 8);
	put(start, _position);
	put(start, static_cast<ui64_t>(footer.size()));
	if (lseek(_fd, 0, SEEK_SET) < 0) {
		return with_errno(Kumu::RESULT_BADSEEK);
	}
	r = write_all(_fd, start.data(), start.size());
	if (r.Failure()) {
		return r;
	}
	if (ftruncate(_fd, _position + footer.size()) < 0) {
		return with_errno(RESULT_WRITEFAIL);
	}
	_done = true;
	auto const fd = _fd;
	_fd = -1;
	return ::close(fd) == 0 ? RESULT_OK : with_errno(RESULT_WRITEFAIL);
}

Reader::~Reader()
{
	close();
}

void Reader::close()
{
	if (_fd >= 0) {
		::close(_fd);
		_fd = -1;
	}
}

Result_t Reader::open(string const& filename, string const& kind)
{
	close();
	header = Header();
	op1a.objects.clear();
	_fd = ::open(filename.c_str(), O_RDONLY | O_CLOEXEC);
	if (_fd < 0) {
		return with_errno(RESULT_FILEOPEN);
	}
	string start(24, '\0');
	auto r = read_all(_fd, 0, &start[0], start.size());
	if (r.Failure()) {
		close();
		return r == RESULT_ENDOFFILE ? RESULT_FORMAT : r;
	}
	ui64_t offset = 0;
	ui64_t size = 0;
	memcpy(&offset, start.data() + 8, 8);
	memcpy(&size, start.data() + 16, 8);
	struct stat s;
	if (fstat(_fd, &s) < 0 || start.substr(0, 8) != string(magic, 8) || offset < header_size || size > static_cast<ui64_t>(s.st_size) || offset > s.st_size - size) {
		close();
		return RESULT_FORMAT;
	}
	string footer(size, '\0');
	r = read_all(_fd, offset, &footer[0], size);
	if (r.Failure()) {
		close();
		return r;
	}
	Input in{footer, 0, true};
	in.get(header.values);
	ui64_t n = 0;
	if (in.good && in.get(n)) {
		for (ui64_t i = 0; i < n && in.good; ++i) {
			map<string, string> v;
			in.get(v);
			MXF::InterchangeObject* object = nullptr;
			switch (get_number(v, "type")) {
			case MDD_WaveAudioDescriptor:
				object = new MXF::WaveAudioDescriptor(nullptr);
				break;
			case MDD_SoundfieldGroupLabelSubDescriptor:
				object = new MXF::SoundfieldGroupLabelSubDescriptor(nullptr);
				break;
			case MDD_AudioChannelLabelSubDescriptor:
				object = new MXF::AudioChannelLabelSubDescriptor(nullptr);
				break;
			}
			if (object) {
				op1a.AddChildObject(object);
				object->set(v);
			}
		}
	}
	n = 0;
	if (in.good && in.get(n)) {
		for (ui64_t i = 0; i < n && in.good; ++i) {
			Header::Entry e;
			in.get(e.offset);
			in.get(e.size);
			header.index.push_back(e);
		}
	}
	if (!in.good) {
		close();
		return RESULT_FORMAT;
	}
	if (!kind.empty() && get(header.values, "kind") != kind) {
		close();
		return RESULT_FORMAT;
	}
	return RESULT_OK;
}

Result_t Reader::info(WriterInfo& i) const
{
	if (_fd < 0) {
		return RESULT_INIT;
	}
	auto const& v = header.values;
	get_bytes(v, "AssetUUID", i.AssetUUID, UUIDlen);
	get_bytes(v, "ProductUUID", i.ProductUUID, UUIDlen);
	get_bytes(v, "ContextID", i.ContextID, UUIDlen);
	get_bytes(v, "CryptographicKeyID", i.CryptographicKeyID, UUIDlen);
	i.ProductVersion = get(v, "ProductVersion");
	i.CompanyName = get(v, "CompanyName");
	i.ProductName = get(v, "ProductName");
	i.LabelSetType = static_cast<LabelSet_t>(get_number(v, "LabelSetType"));
	i.EncryptedEssence = get_number(v, "EncryptedEssence");
	i.UsesHMAC = get_number(v, "UsesHMAC");
	return RESULT_OK;
}

Result_t Reader::read(ui32_t n, string& data, AESDecContext* dec, HMACContext* hmac) const
{
	if (_fd < 0) {
		return RESULT_INIT;
	}
	if (n >= header.index.size()) {
		return RESULT_RANGE;
	}
	auto const& e = header.index[n];
	struct stat s;
	if (e.size < 12 || fstat(_fd, &s) < 0 || e.size > static_cast<ui64_t>(s.st_size)) {
		return RESULT_FORMAT;
	}
	string record(e.size, '\0');
	auto r = read_all(_fd, e.offset, &record[0], e.size);
	if (r.Failure()) {
		return r;
	}
	ui64_t size;
	memcpy(&size, record.data() + 4, 8);
	if (record.substr(0, 4) != "FRAM" || size != e.size - 12) {
		return RESULT_FORMAT;
	}
	auto payload = record.substr(12);
	if (!get_number(header.values, "EncryptedEssence") || !dec) {
		data = payload;
		return RESULT_OK;
	}
	if (get_number(header.values, "UsesHMAC")) {
		if (payload.size() < HMAC_SIZE) {
			return RESULT_FORMAT;
		}
		auto const given = payload.substr(payload.size() - HMAC_SIZE);
		payload.resize(payload.size() - HMAC_SIZE);
		if (hmac) {
			auto check = payload + number(n);
			byte_t mac[HMAC_SIZE];
			hmac->Calculate(reinterpret_cast<byte_t const*>(check.data()), check.size(), mac);
			if (bytes(mac, HMAC_SIZE) != given) {
				return RESULT_HMACFAIL;
			}
		}
	}
	if (payload.size() < CBC_BLOCK_SIZE + 8 + CBC_BLOCK_SIZE || ((payload.size() - 24) % CBC_BLOCK_SIZE)) {
		return RESULT_FORMAT;
	}
	dec->SetIVec(reinterpret_cast<byte_t const*>(payload.data()));
	ui64_t source;
	memcpy(&source, payload.data() + 16, 8);
	string plain(payload.size() - 24, '\0');
	r = dec->DecryptBlock(reinterpret_cast<byte_t const*>(payload.data()) + 24, reinterpret_cast<byte_t*>(&plain[0]), plain.size());
	if (r.Failure()) {
		return r;
	}
	if (plain.substr(0, CBC_BLOCK_SIZE) != string(check_value, CBC_BLOCK_SIZE)) {
		return RESULT_CHECKFAIL;
	}
	if (source > plain.size() - CBC_BLOCK_SIZE) {
		return RESULT_FORMAT;
	}
	data = plain.substr(CBC_BLOCK_SIZE, source);
	return RESULT_OK;
}

Result_t Reader::read(ui32_t n, FrameBuffer& buffer, AESDecContext* dec, HMACContext* hmac) const
{
	string data;
	auto r = read(n, data, dec, hmac);
	if (r.Failure()) {
		return r;
	}
	if (data.size() > buffer.Capacity()) {
		return RESULT_SMALLBUF;
	}
	memcpy(buffer.Data(), data.data(), data.size());
	buffer.Size(data.size());
	buffer.FrameNumber(n);
	return RESULT_OK;
}

}

Result_t EssenceType(string const& filename, EssenceType_t& type, Kumu::IFileReaderFactory const&)
{
	type = ESS_UNKNOWN;
	shim::Reader reader;
	auto r = reader.open(filename, "");
	if (r.Failure()) {
		return r == RESULT_FORMAT ? RESULT_OK : r;
	}
	auto const kind = get(reader.header.values, "kind");
	bool const smpte = get_number(reader.header.values, "LabelSetType") == LS_MXF_SMPTE;
	if (kind == "j2k") {
		type = ESS_JPEG_2000;
	} else if (kind == "j2ks") {
		type = smpte ? ESS_JPEG_2000_S : ESS_JPEG_2000;
	} else if (kind == "pcm") {
		type = get_number(reader.header.values, "AudioSamplingRateN") == 96000 ? ESS_PCM_24b_96k : ESS_PCM_24b_48k;
	} else if (kind == "text") {
		type = ESS_TIMED_TEXT;
	} else if (kind == "atmos") {
		type = ESS_DCDATA_DOLBY_ATMOS;
	} else if (kind == "mpeg2") {
		type = ESS_MPEG2_VES;
	}
	return RESULT_OK;
}

namespace JP2K {

static map<string, string> descriptor(PictureDescriptor const& d)
{
	map<string, string> v;
	put(v, "EditRate", d.EditRate);
	put(v, "AspectRatio", d.AspectRatio);
	v["Width"] = number(d.StoredWidth);
	v["Height"] = number(d.StoredHeight);
	v["Rsize"] = number(d.Rsize);
	return v;
}

static void fill(map<string, string> const& v, size_t frames, bool stereo, PictureDescriptor& d)
{
	d.EditRate = get_rational(v, "EditRate");
	d.SampleRate = d.EditRate;
	if (stereo) {
		d.SampleRate.Numerator *= 2;
	}
	d.AspectRatio = get_rational(v, "AspectRatio");
	d.StoredWidth = d.Xsize = get_number(v, "Width");
	d.StoredHeight = d.Ysize = get_number(v, "Height");
	d.Rsize = get_number(v, "Rsize");
	d.ContainerDuration = stereo ? frames / 2 : frames;
}

Result_t CodestreamParser::OpenReadFrame(byte_t const* data, ui32_t size, FrameBuffer& buffer) const
{
	auto r = buffer.Capacity(size);
	if (r.Failure()) {
		return r;
	}
	memcpy(buffer.Data(), data, size);
	buffer.Size(size);
	/* SOC, SIZ, Lsiz, Rsiz, Xsiz, Ysiz */
	if (size < 16 + 24 || data[0] != 0xff || data[1] != 0x4f || data[2] != 0xff || data[3] != 0x51) {
		return RESULT_RAW_FORMAT;
	}
	auto get4 = [data](int offset) {
		return static_cast<ui32_t>(data[offset]) << 24 | data[offset + 1] << 16 | data[offset + 2] << 8 | data[offset + 3];
	};
	_descriptor = PictureDescriptor();
	_descriptor.Rsize = data[6] << 8 | data[7];
	_descriptor.Xsize = _descriptor.StoredWidth = get4(8);
	_descriptor.Ysize = _descriptor.StoredHeight = get4(12);
	_descriptor.AspectRatio = Rational(_descriptor.Xsize, _descriptor.Ysize);
	_have = true;
	return RESULT_OK;
}

Result_t CodestreamParser::FillPictureDescriptor(PictureDescriptor& d) const
{
	if (!_have) {
		return RESULT_INIT;
	}
	auto const rate = d.EditRate;
	d = _descriptor;
	d.EditRate = rate;
	return RESULT_OK;
}

Result_t MXFWriter::OpenWrite(string const& filename, WriterInfo const& info, PictureDescriptor const& d, ui32_t, bool overwrite)
{
	return _writer.open(filename, info, "j2k", descriptor(d), overwrite);
}

Result_t MXFWriter::WriteFrame(FrameBuffer const& buffer, AESEncContext* enc, HMACContext* hmac, string* hash)
{
	return _writer.write(buffer.RoData(), buffer.Size(), enc, hmac, hash);
}

Result_t MXFWriter::FakeWriteFrame(int size)
{
	return _writer.fake_write(size);
}

Result_t MXFWriter::Finalize()
{
	return _writer.finalize({});
}

Result_t MXFReader::OpenRead(string const& filename) const
{
	auto r = _reader.open(filename, "");
	if (r.Failure()) {
		return r;
	}
	auto const kind = get(_reader.header.values, "kind");
	if (kind == "j2k") {
		return RESULT_OK;
	}
	_reader.close();
	return kind == "j2ks" ? RESULT_SFORMAT : RESULT_FORMAT;
}

Result_t MXFReader::Close() const
{
	_reader.close();
	return RESULT_OK;
}

Result_t MXFReader::FillPictureDescriptor(PictureDescriptor& d) const
{
	if (!_reader.is_open()) {
		return RESULT_INIT;
	}
	fill(_reader.header.values, _reader.header.index.size(), false, d);
	return RESULT_OK;
}

Result_t MXFSWriter::OpenWrite(string const& filename, WriterInfo const& info, PictureDescriptor const& d, ui32_t, bool overwrite)
{
	return _writer.open(filename, info, "j2ks", descriptor(d), overwrite);
}

Result_t MXFSWriter::WriteFrame(FrameBuffer const& buffer, StereoscopicPhase_t phase, AESEncContext* enc, HMACContext* hmac, string* hash)
{
	if (phase != _next) {
		return RESULT_FAIL;
	}
	auto r = _writer.write(buffer.RoData(), buffer.Size(), enc, hmac, hash);
	if (r.Success()) {
		_next = _next == SP_LEFT ? SP_RIGHT : SP_LEFT;
	}
	return r;
}

Result_t MXFSWriter::FakeWriteFrame(int size, StereoscopicPhase_t phase)
{
	if (phase != _next) {
		return RESULT_FAIL;
	}
	_next = _next == SP_LEFT ? SP_RIGHT : SP_LEFT;
	return _writer.fake_write(size);
}

Result_t MXFSWriter::Finalize()
{
	if (_next != SP_LEFT) {
		return RESULT_STATE;
	}
	return _writer.finalize({});
}

Result_t MXFSReader::OpenRead(string const& filename) const
{
	return _reader.open(filename, "j2ks");
}

Result_t MXFSReader::FillPictureDescriptor(PictureDescriptor& d) const
{
	if (!_reader.is_open()) {
		return RESULT_INIT;
	}
	fill(_reader.header.values, _reader.header.index.size(), true, d);
	return RESULT_OK;
}

Result_t MXFSReader::ReadFrame(ui32_t n, SFrameBuffer& buffer, AESDecContext* dec, HMACContext* hmac) const
{
	auto r = _reader.read(n * 2, buffer.Left, dec, hmac);
	if (r.Failure()) {
		return r;
	}
	return _reader.read(n * 2 + 1, buffer.Right, dec, hmac);
}

}

namespace PCM {

ui32_t CalcSampleSize(AudioDescriptor const& d)
{
	return (d.QuantizationBits / 8) * d.ChannelCount;
}

ui32_t CalcSamplesPerFrame(AudioDescriptor const& d)
{
	auto const exact = d.AudioSamplingRate.Quotient() / d.EditRate.Quotient();
	auto n = static_cast<ui32_t>(exact);
	return n < exact ? n + 1 : n;
}

ui32_t CalcFrameBufferSize(AudioDescriptor const& d)
{
	return CalcSampleSize(d) * CalcSamplesPerFrame(d);
}

Result_t MXFWriter::OpenWrite(string const& filename, WriterInfo const& info, AudioDescriptor const& d, ui32_t)
{
	map<string, string> v;
	put(v, "EditRate", d.EditRate);
	put(v, "AudioSamplingRate", d.AudioSamplingRate);
	v["Locked"] = number(d.Locked);
	v["ChannelCount"] = number(d.ChannelCount);
	v["QuantizationBits"] = number(d.QuantizationBits);
	v["BlockAlign"] = number(d.BlockAlign);
	v["AvgBps"] = number(d.AvgBps);
	v["LinkedTrackID"] = number(d.LinkedTrackID);
	v["ChannelFormat"] = number(d.ChannelFormat);
	_writer.op1a.AddChildObject(new MXF::WaveAudioDescriptor(nullptr));
	return _writer.open(filename, info, "pcm", v, false);
}

Result_t MXFWriter::WriteFrame(FrameBuffer const& buffer, AESEncContext* enc, HMACContext* hmac)
{
	return _writer.write(buffer.RoData(), buffer.Size(), enc, hmac, nullptr);
}

Result_t MXFWriter::Finalize()
{
	return _writer.finalize({});
}

Result_t MXFReader::OpenRead(string const& filename) const
{
	return _reader.open(filename, "pcm");
}

Result_t MXFReader::FillAudioDescriptor(AudioDescriptor& d) const
{
	if (!_reader.is_open()) {
		return RESULT_INIT;
	}
	auto const& v = _reader.header.values;
	d.EditRate = get_rational(v, "EditRate");
	d.AudioSamplingRate = get_rational(v, "AudioSamplingRate");
	d.Locked = get_number(v, "Locked");
	d.ChannelCount = get_number(v, "ChannelCount");
	d.QuantizationBits = get_number(v, "QuantizationBits");
	d.BlockAlign = get_number(v, "BlockAlign");
	d.AvgBps = get_number(v, "AvgBps");
	d.LinkedTrackID = get_number(v, "LinkedTrackID");
	d.ChannelFormat = static_cast<ChannelFormat_t>(get_number(v, "ChannelFormat"));
	d.ContainerDuration = _reader.header.index.size();
	return RESULT_OK;
}

}

namespace TimedText {

Result_t MXFWriter::OpenWrite(string const& filename, WriterInfo const& info, TimedTextDescriptor const& d, ui32_t header_size)
{
	/* Each resource takes up some space in the header */
	if (d.ResourceList.size() * 86 > header_size) {
		return RESULT_FORMAT;
	}
	map<string, string> v;
	put(v, "EditRate", d.EditRate);
	v["ContainerDuration"] = number(d.ContainerDuration);
	v["AssetID"] = bytes(d.AssetID, UUIDlen);
	v["NamespaceName"] = d.NamespaceName;
	v["EncodingName"] = d.EncodingName;
	v["Resources"] = number(d.ResourceList.size());
	int n = 0;
	for (auto const& i: d.ResourceList) {
		v["Resource" + number(n)] = bytes(i.ResourceID, UUIDlen);
		v["Type" + number(n)] = number(i.Type);
		++n;
	}
	_resources = n;
	return _writer.open(filename, info, "text", v, false);
}

Result_t MXFWriter::WriteTimedTextResource(string const& xml, AESEncContext* enc, HMACContext* hmac)
{
	if (_writer.frames() != 0) {
		return RESULT_STATE;
	}
	return _writer.write(reinterpret_cast<byte_t const*>(xml.data()), xml.size(), enc, hmac, nullptr);
}

Result_t MXFWriter::WriteAncillaryResource(FrameBuffer const& buffer, AESEncContext* enc, HMACContext* hmac)
{
	if (_writer.frames() == 0 || _writer.frames() > _resources) {
		return RESULT_STATE;
	}
	return _writer.write(buffer.RoData(), buffer.Size(), enc, hmac, nullptr);
}

Result_t MXFWriter::Finalize()
{
	return _writer.finalize({});
}

Result_t MXFReader::OpenRead(string const& filename) const
{
	return _reader.open(filename, "text");
}

Result_t MXFReader::FillTimedTextDescriptor(TimedTextDescriptor& d) const
{
	if (!_reader.is_open()) {
		return RESULT_INIT;
	}
	auto const& v = _reader.header.values;
	d.EditRate = get_rational(v, "EditRate");
	d.ContainerDuration = get_number(v, "ContainerDuration");
	get_bytes(v, "AssetID", d.AssetID, UUIDlen);
	d.NamespaceName = get(v, "NamespaceName");
	d.EncodingName = get(v, "EncodingName");
	d.ResourceList.clear();
	for (int i = 0; i < get_number(v, "Resources"); ++i) {
		TimedTextResourceDescriptor r;
		get_bytes(v, "Resource" + number(i), r.ResourceID, UUIDlen);
		r.Type = static_cast<MIMEType_t>(get_number(v, "Type" + number(i)));
		d.ResourceList.push_back(r);
	}
	return RESULT_OK;
}

Result_t MXFReader::ReadTimedTextResource(string& s, AESDecContext* dec, HMACContext* hmac) const
{
	return _reader.read(0, s, dec, hmac);
}

Result_t MXFReader::ReadAncillaryResource(byte_t const* id, FrameBuffer& buffer, AESDecContext* dec, HMACContext* hmac) const
{
	auto const& v = _reader.header.values;
	for (int i = 0; i < get_number(v, "Resources"); ++i) {
		if (get(v, "Resource" + number(i)) == bytes(id, UUIDlen)) {
			string data;
			auto r = _reader.read(i + 1, data, dec, hmac);
			if (r.Failure()) {
				return r;
			}
			if (data.size() > buffer.Capacity()) {
				return RESULT_SMALLBUF;
			}
			memcpy(buffer.Data(), data.data(), data.size());
			buffer.Size(data.size());
			buffer.AssetID(id);
			return RESULT_OK;
		}
	}
	return RESULT_RANGE;
}

}

namespace ATMOS {

Result_t MXFWriter::OpenWrite(string const& filename, WriterInfo const& info, AtmosDescriptor const& d, ui32_t)
{
	map<string, string> v;
	put(v, "EditRate", d.EditRate);
	v["FirstFrame"] = number(d.FirstFrame);
	v["MaxChannelCount"] = number(d.MaxChannelCount);
	v["MaxObjectCount"] = number(d.MaxObjectCount);
	v["AtmosID"] = bytes(d.AtmosID, UUIDlen);
	v["AtmosVersion"] = number(d.AtmosVersion);
	return _writer.open(filename, info, "atmos", v, false);
}

Result_t MXFWriter::WriteFrame(DCData::FrameBuffer const& buffer, AESEncContext* enc, HMACContext* hmac)
{
	return _writer.write(buffer.RoData(), buffer.Size(), enc, hmac, nullptr);
}

Result_t MXFWriter::Finalize()
{
	return _writer.finalize({});
}

Result_t MXFReader::OpenRead(string const& filename) const
{
	return _reader.open(filename, "atmos");
}

Result_t MXFReader::FillAtmosDescriptor(AtmosDescriptor& d) const
{
	if (!_reader.is_open()) {
		return RESULT_INIT;
	}
	auto const& v = _reader.header.values;
	d.EditRate = get_rational(v, "EditRate");
	d.ContainerDuration = _reader.header.index.size();
	d.FirstFrame = get_number(v, "FirstFrame");
	d.MaxChannelCount = get_number(v, "MaxChannelCount");
	d.MaxObjectCount = get_number(v, "MaxObjectCount");
	get_bytes(v, "AtmosID", d.AtmosID, UUIDlen);
	d.AtmosVersion = get_number(v, "AtmosVersion");
	return RESULT_OK;
}

}

namespace MPEG2 {

Result_t Parser::OpenRead(byte_t const* data, ui32_t size) const
{
	if (size < 12 || data[0] != 0 || data[1] != 0 || data[2] != 1 || data[3] != 0xb3) {
		return RESULT_RAW_FORMAT;
	}
	static Rational const rates[] = {
		Rational(0, 0), Rational(24000, 1001), Rational(24, 1), Rational(25, 1), Rational(30000, 1001), Rational(30, 1), Rational(50, 1), Rational(60000, 1001), Rational(60, 1)
	};
	_descriptor = VideoDescriptor();
	_descriptor.StoredWidth = data[4] << 4 | data[5] >> 4;
	_descriptor.StoredHeight = (data[5] & 0xf) << 8 | data[6];
	int const aspect = data[7] >> 4;
	int const rate = data[7] & 0xf;
	if (rate < 1 || rate > 8) {
		return RESULT_RAW_FORMAT;
	}
	_descriptor.EditRate = _descriptor.SampleRate = rates[rate];
	_descriptor.FrameRate = rates[rate].Quotient() + 0.5;
	_descriptor.AspectRatio = aspect == 2 ? Rational(4, 3) : Rational(16, 9);
	_have = true;
	return RESULT_OK;
}

Result_t Parser::FillVideoDescriptor(VideoDescriptor& d) const
{
	if (!_have) {
		return RESULT_INIT;
	}
	d = _descriptor;
	return RESULT_OK;
}

Result_t MXFWriter::OpenWrite(string const& filename, WriterInfo const& info, VideoDescriptor const& d, ui32_t, bool overwrite)
{
	map<string, string> v;
	put(v, "EditRate", d.EditRate);
	put(v, "SampleRate", d.SampleRate);
	put(v, "AspectRatio", d.AspectRatio);
	v["FrameRate"] = number(d.FrameRate);
	v["Width"] = number(d.StoredWidth);
	v["Height"] = number(d.StoredHeight);
	return _writer.open(filename, info, "mpeg2", v, overwrite);
}

Result_t MXFWriter::WriteFrame(FrameBuffer const& buffer, AESEncContext* enc, HMACContext* hmac, string* hash)
{
	return _writer.write(buffer.RoData(), buffer.Size(), enc, hmac, hash);
}

Result_t MXFWriter::FakeWriteFrame(int size, FrameType_t, bool, bool, ui8_t)
{
	return _writer.fake_write(size);
}

Result_t MXFWriter::Finalize()
{
	return _writer.finalize({});
}

Result_t MXFReader::OpenRead(string const& filename) const
{
	return _reader.open(filename, "mpeg2");
}

Result_t MXFReader::FillVideoDescriptor(VideoDescriptor& d) const
{
	if (!_reader.is_open()) {
		return RESULT_INIT;
	}
	auto const& v = _reader.header.values;
	d.EditRate = get_rational(v, "EditRate");
	d.SampleRate = get_rational(v, "SampleRate");
	d.AspectRatio = get_rational(v, "AspectRatio");
	d.FrameRate = get_number(v, "FrameRate");
	d.StoredWidth = get_number(v, "Width");
	d.StoredHeight = get_number(v, "Height");
	d.ContainerDuration = _reader.header.index.size();
	return RESULT_OK;
}

}

}
