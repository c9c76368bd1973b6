#ifndef SHIM_AS_DCP_H
#define SHIM_AS_DCP_H

#include "KLV.h"
#include "KM_fileio.h"
#include "KM_log.h"
#include "KM_prng.h"
#include "KM_util.h"
#include "Metadata.h"
#include <stdio.h>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>

#define ASDCP_SUCCESS(r) ((r).Success())
#define ASDCP_FAILURE(r) ((r).Failure())

namespace Kumu {
	extern const Result_t RESULT_UNUSED;
}

namespace ASDCP {

using Kumu::Result_t;
using Kumu::RESULT_FALSE;
using Kumu::RESULT_OK;
using Kumu::RESULT_FAIL;
using Kumu::RESULT_PARAM;
using Kumu::RESULT_SMALLBUF;
using Kumu::RESULT_INIT;
using Kumu::RESULT_STATE;
using Kumu::RESULT_FILEOPEN;
using Kumu::RESULT_READFAIL;
using Kumu::RESULT_WRITEFAIL;
using Kumu::RESULT_ENDOFFILE;

extern const Result_t RESULT_FORMAT;
extern const Result_t RESULT_RAW_ESS;
extern const Result_t RESULT_RAW_FORMAT;
extern const Result_t RESULT_RANGE;
extern const Result_t RESULT_CRYPT_CTX;
extern const Result_t RESULT_LARGE_PTO;
extern const Result_t RESULT_CAPEXTMEM;
extern const Result_t RESULT_CHECKFAIL;
extern const Result_t RESULT_HMACFAIL;
extern const Result_t RESULT_HMAC_CTX;
extern const Result_t RESULT_CRYPT_INIT;
extern const Result_t RESULT_EMPTY_FB;
extern const Result_t RESULT_SFORMAT;

ui32_t const UUIDlen = 16;
ui32_t const KeyLen = 16;
ui32_t const CBC_KEY_SIZE = 16;
ui32_t const CBC_BLOCK_SIZE = 16;
ui32_t const HMAC_SIZE = 20;

enum EssenceType_t
{
	ESS_UNKNOWN,
	ESS_MPEG2_VES,
	ESS_JPEG_2000,
	ESS_PCM_24b_48k,
	ESS_PCM_24b_96k,
	ESS_TIMED_TEXT,
	ESS_JPEG_2000_S,
	ESS_DCDATA_UNKNOWN,
	ESS_DCDATA_DOLBY_ATMOS
};

Result_t EssenceType(std::string const& filename, EssenceType_t& type, Kumu::IFileReaderFactory const&);

struct Rational
{
	i32_t Numerator = 0;
	i32_t Denominator = 0;

	Rational() {}
	Rational(i32_t n, i32_t d) : Numerator(n), Denominator(d) {}
	double Quotient() const { return double(Numerator) / Denominator; }
	bool operator==(Rational const& o) const { return Numerator == o.Numerator && Denominator == o.Denominator; }
	bool operator!=(Rational const& o) const { return !(*this == o); }
	bool operator<(Rational const& o) const { return Numerator < o.Numerator || (Numerator == o.Numerator && Denominator < o.Denominator); }
};

enum LabelSet_t
{
	LS_MXF_UNKNOWN,
	LS_MXF_INTEROP,
	LS_MXF_SMPTE
};

struct WriterInfo
{
	byte_t ProductUUID[UUIDlen];
	byte_t AssetUUID[UUIDlen];
	byte_t ContextID[UUIDlen];
	byte_t CryptographicKeyID[UUIDlen];
	bool EncryptedEssence = false;
	bool UsesHMAC = false;
	std::string ProductVersion;
	std::string CompanyName;
	std::string ProductName;
	LabelSet_t LabelSetType = LS_MXF_INTEROP;

	WriterInfo();
};

class AESEncContext
{
public:
	Result_t InitKey(byte_t const* key);
	Result_t SetIVec(byte_t const* iv);
	Result_t GetIVec(byte_t* iv) const;
	Result_t EncryptBlock(byte_t const* plain, byte_t* cipher, ui32_t size);

private:
	bool _has_key = false;
	byte_t _key[KeyLen];
	byte_t _iv[CBC_BLOCK_SIZE];
};

class AESDecContext
{
public:
	Result_t InitKey(byte_t const* key);
	Result_t SetIVec(byte_t const* iv);
	Result_t DecryptBlock(byte_t const* cipher, byte_t* plain, ui32_t size);

private:
	bool _has_key = false;
	byte_t _key[KeyLen];
	byte_t _iv[CBC_BLOCK_SIZE];
};

class HMACContext
{
public:
	Result_t InitKey(byte_t const* key, LabelSet_t type);
	void Calculate(byte_t const* data, size_t size, byte_t* out) const;

private:
	byte_t _key[KeyLen];
};

class FrameBuffer
{
public:
	FrameBuffer() {}
	~FrameBuffer();
	FrameBuffer(FrameBuffer const&) = delete;
	FrameBuffer& operator=(FrameBuffer const&) = delete;

	Result_t SetData(byte_t* buf, ui32_t size);
	Result_t Capacity(ui32_t c);
	ui32_t Capacity() const { return _capacity; }
	byte_t const* RoData() const { return _data; }
	byte_t* Data() { return _data; }
	ui32_t Size(ui32_t s) { return _size = s; }
	ui32_t Size() const { return _size; }
	void FrameNumber(ui32_t n) { _frame_number = n; }
	ui32_t FrameNumber() const { return _frame_number; }
	void PlaintextOffset(ui32_t o) { _plaintext_offset = o; }
	ui32_t PlaintextOffset() const { return _plaintext_offset; }
	void SourceLength(ui32_t l) { _source_length = l; }
	ui32_t SourceLength() const { return _source_length; }

private:
	byte_t* _data = nullptr;
	ui32_t _capacity = 0;
	bool _own = false;
	ui32_t _size = 0;
	ui32_t _frame_number = 0;
	ui32_t _plaintext_offset = 0;
	ui32_t _source_length = 0;
};

namespace shim {

/** What is known of a file apart from its frames */
struct Header
{
	std::map<std::string, std::string> values;
	std::vector<std::map<std::string, std::string>> objects;
	struct Entry {
		ui64_t offset;
		ui64_t size;
	};
	std::vector<Entry> index;
};

class Writer
{
public:
	~Writer();

	Result_t open(std::string const& filename, WriterInfo const& info, std::string const& kind, std::map<std::string, std::string> const& descriptor, bool overwrite);
	Result_t write(byte_t const* data, size_t size, AESEncContext* enc, HMACContext* hmac, std::string* hash);
	Result_t fake_write(ui64_t size);
	Result_t finalize(std::map<std::string, std::string> const& extra);
	ui64_t tell() const { return _position; }
	ui32_t frames() const { return _header.index.size(); }

	MXF::OP1aHeader op1a;

private:
	int _fd = -1;
	bool _done = false;
	bool _encrypted = false;
	bool _hmac = false;
	ui64_t _position = 0;
	Header _header;
};

class Reader
{
public:
	~Reader();

	Result_t open(std::string const& filename, std::string const& kind);
	void close();
	Result_t read(ui32_t n, std::string& data, AESDecContext* dec, HMACContext* hmac) const;
	Result_t read(ui32_t n, FrameBuffer& buffer, AESDecContext* dec, HMACContext* hmac) const;
	Result_t info(WriterInfo& info) const;
	bool is_open() const { return _fd >= 0; }

	Header header;
	MXF::OP1aHeader op1a;

private:
	int _fd = -1;
};

}

namespace JP2K {

ui32_t const MaxComponents = 3;

struct ImageComponent_t
{
	ui8_t Ssize;
	ui8_t XRsize;
	ui8_t YRsize;
};

struct PictureDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	Rational SampleRate;
	ui32_t StoredWidth = 0;
	ui32_t StoredHeight = 0;
	Rational AspectRatio;
	ui16_t Rsize = 0;
	ui32_t Xsize = 0;
	ui32_t Ysize = 0;
	ui32_t XOsize = 0;
	ui32_t YOsize = 0;
	ui32_t XTsize = 0;
	ui32_t YTsize = 0;
	ui32_t XTOsize = 0;
	ui32_t YTOsize = 0;
	ui16_t Csize = 0;
	ImageComponent_t ImageComponents[MaxComponents];
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t size) { Capacity(size); }
};

struct SFrameBuffer
{
	FrameBuffer Left;
	FrameBuffer Right;

	explicit SFrameBuffer(ui32_t size) { Left.Capacity(size); Right.Capacity(size); }
};

enum StereoscopicPhase_t
{
	SP_LEFT,
	SP_RIGHT
};

class CodestreamParser
{
public:
	Result_t OpenReadFrame(byte_t const* data, ui32_t size, FrameBuffer& buffer) const;
	Result_t FillPictureDescriptor(PictureDescriptor& d) const;

private:
	mutable PictureDescriptor _descriptor;
	mutable bool _have = false;
};

class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, PictureDescriptor const& d, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const& buffer, AESEncContext* enc = nullptr, HMACContext* hmac = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size);
	Result_t Finalize();
	ui64_t Tell() const { return _writer.tell(); }
	MXF::OP1aHeader& OP1aHeader() { return _writer.op1a; }

private:
	shim::Writer _writer;
};

class MXFReader
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t Close() const;
	Result_t FillPictureDescriptor(PictureDescriptor& d) const;
	Result_t FillWriterInfo(WriterInfo& info) const { return _reader.info(info); }
	Result_t ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* dec = nullptr, HMACContext* hmac = nullptr) const { return _reader.read(n, buffer, dec, hmac); }
	MXF::OP1aHeader& OP1aHeader() { return _reader.op1a; }

private:
	mutable shim::Reader _reader;
};

class MXFSWriter
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, PictureDescriptor const& d, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const& buffer, StereoscopicPhase_t phase, AESEncContext* enc = nullptr, HMACContext* hmac = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size, StereoscopicPhase_t phase);
	Result_t Finalize();
	ui64_t Tell() const { return _writer.tell(); }

private:
	shim::Writer _writer;
	StereoscopicPhase_t _next = SP_LEFT;
};

class MXFSReader
{
public:
	explicit MXFSReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t FillPictureDescriptor(PictureDescriptor& d) const;
	Result_t FillWriterInfo(WriterInfo& info) const { return _reader.info(info); }
	Result_t ReadFrame(ui32_t n, SFrameBuffer& buffer, AESDecContext* dec = nullptr, HMACContext* hmac = nullptr) const;

private:
	mutable shim::Reader _reader;
};

}

namespace PCM {

enum ChannelFormat_t
{
	CF_NONE,
	CF_CFG_1,
	CF_CFG_2,
	CF_CFG_3,
	CF_CFG_4,
	CF_CFG_5,
	CF_CFG_6
};

struct AudioDescriptor
{
	Rational EditRate;
	Rational AudioSamplingRate;
	ui32_t Locked = 0;
	ui32_t ChannelCount = 0;
	ui32_t QuantizationBits = 0;
	ui32_t BlockAlign = 0;
	ui32_t AvgBps = 0;
	ui32_t LinkedTrackID = 0;
	ui32_t ContainerDuration = 0;
	ChannelFormat_t ChannelFormat = CF_NONE;
};

ui32_t CalcSampleSize(AudioDescriptor const& d);
ui32_t CalcSamplesPerFrame(AudioDescriptor const& d);
ui32_t CalcFrameBufferSize(AudioDescriptor const& d);

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t size) { Capacity(size); }
};

class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, AudioDescriptor const& d, ui32_t header_size = 16384);
	Result_t WriteFrame(FrameBuffer const& buffer, AESEncContext* enc = nullptr, HMACContext* hmac = nullptr);
	Result_t Finalize();
	MXF::OP1aHeader& OP1aHeader() { return _writer.op1a; }

private:
	shim::Writer _writer;
};

class MXFReader
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t FillAudioDescriptor(AudioDescriptor& d) const;
	Result_t FillWriterInfo(WriterInfo& info) const { return _reader.info(info); }
	Result_t ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* dec = nullptr, HMACContext* hmac = nullptr) const { return _reader.read(n, buffer, dec, hmac); }
	MXF::OP1aHeader& OP1aHeader() { return _reader.op1a; }

private:
	mutable shim::Reader _reader;
};

}

namespace TimedText {

enum MIMEType_t
{
	MT_BIN,
	MT_PNG,
	MT_OPENTYPE
};

struct TimedTextResourceDescriptor
{
	byte_t ResourceID[UUIDlen];
	MIMEType_t Type = MT_BIN;

	TimedTextResourceDescriptor() { memset(ResourceID, 0, UUIDlen); }
};

typedef std::list<TimedTextResourceDescriptor> ResourceList_t;

struct TimedTextDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	byte_t AssetID[UUIDlen];
	std::string NamespaceName;
	std::string EncodingName = "UTF-8";
	ResourceList_t ResourceList;
	std::string RFC5646LanguageTagList;

	TimedTextDescriptor() { memset(AssetID, 0, UUIDlen); }
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t size) { Capacity(size); }
	void AssetID(byte_t const* id) { memcpy(_id, id, UUIDlen); }
	byte_t const* AssetID() const { return _id; }

private:
	byte_t _id[UUIDlen];
};

class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, TimedTextDescriptor const& d, ui32_t header_size = 16384);
	Result_t WriteTimedTextResource(std::string const& xml, AESEncContext* enc = nullptr, HMACContext* hmac = nullptr);
	Result_t WriteAncillaryResource(FrameBuffer const& buffer, AESEncContext* enc = nullptr, HMACContext* hmac = nullptr);
	Result_t Finalize();

private:
	shim::Writer _writer;
	ui32_t _resources = 0;
};

class MXFReader
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t FillTimedTextDescriptor(TimedTextDescriptor& d) const;
	Result_t FillWriterInfo(WriterInfo& info) const { return _reader.info(info); }
	Result_t ReadTimedTextResource(std::string& s, AESDecContext* dec = nullptr, HMACContext* hmac = nullptr) const;
	Result_t ReadAncillaryResource(byte_t const* id, FrameBuffer& buffer, AESDecContext* dec = nullptr, HMACContext* hmac = nullptr) const;

private:
	mutable shim::Reader _reader;
};

}

namespace DCData {

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t size) { Capacity(size); }
};

}

namespace ATMOS {

struct AtmosDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	ui32_t FirstFrame = 0;
	ui16_t MaxChannelCount = 0;
	ui16_t MaxObjectCount = 0;
	byte_t AtmosID[UUIDlen];
	ui8_t AtmosVersion = 0;
};

class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, AtmosDescriptor const& d, ui32_t header_size = 16384);
	Result_t WriteFrame(DCData::FrameBuffer const& buffer, AESEncContext* enc = nullptr, HMACContext* hmac = nullptr);
	Result_t Finalize();

private:
	shim::Writer _writer;
};

class MXFReader
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t FillAtmosDescriptor(AtmosDescriptor& d) const;
	Result_t FillWriterInfo(WriterInfo& info) const { return _reader.info(info); }
	Result_t ReadFrame(ui32_t n, DCData::FrameBuffer& buffer, AESDecContext* dec = nullptr, HMACContext* hmac = nullptr) const { return _reader.read(n, buffer, dec, hmac); }

private:
	mutable shim::Reader _reader;
};

}

namespace MPEG2 {

enum FrameType_t
{
	FRAME_U = 0,
	FRAME_I = 0x01,
	FRAME_P = 0x02,
	FRAME_B = 0x03
};

struct VideoDescriptor
{
	Rational EditRate;
	ui32_t FrameRate = 0;
	Rational SampleRate;
	ui32_t StoredWidth = 0;
	ui32_t StoredHeight = 0;
	Rational AspectRatio;
	ui32_t ContainerDuration = 0;
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t size) { Capacity(size); }
	void FrameType(FrameType_t t) { _type = t; }
	FrameType_t FrameType() const { return _type; }
	void TemporalOffset(ui8_t o) { _offset = o; }
	ui8_t TemporalOffset() const { return _offset; }
	void ClosedGOP(bool c) { _closed = c; }
	bool ClosedGOP() const { return _closed; }
	void GOPStart(bool s) { _start = s; }
	bool GOPStart() const { return _start; }

private:
	FrameType_t _type = FRAME_U;
	ui8_t _offset = 0;
	bool _closed = false;
	bool _start = false;
};

class Parser
{
public:
	Result_t OpenRead(byte_t const* data, ui32_t size) const;
	Result_t FillVideoDescriptor(VideoDescriptor& d) const;

private:
	mutable VideoDescriptor _descriptor;
	mutable bool _have = false;
};

class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, VideoDescriptor const& d, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const& buffer, AESEncContext* enc = nullptr, HMACContext* hmac = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size, FrameType_t type, bool gop_start, bool closed_gop, ui8_t temporal_offset);
	Result_t Finalize();
	ui64_t Tell() const { return _writer.tell(); }

private:
	shim::Writer _writer;
};

class MXFReader
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t FillVideoDescriptor(VideoDescriptor& d) const;
	Result_t FillWriterInfo(WriterInfo& info) const { return _reader.info(info); }
	Result_t ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* dec = nullptr, HMACContext* hmac = nullptr) const { return _reader.read(n, buffer, dec, hmac); }

private:
	mutable shim::Reader _reader;
};

}

}

#endif
