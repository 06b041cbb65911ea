/* A stand-in for the parts of asdcplib's API that libdcp uses.  Essence is kept in a simple
   container ("MiniMXF") with the same observable behaviour: fixed-size header area, sequential
   frame records, AES-128-CBC encryption beyond PlaintextOffset with a check value, HMAC over
   the encrypted record, a footer with index and metadata written by Finalize(), and resumption by FakeWriteFrame. */
#ifndef SHIM_AS_DCP_H
#define SHIM_AS_DCP_H

#include "KM_error.h"
#include "KM_fileio.h"
#include "KM_util.h"
#include "KLV.h"
#include "Metadata.h"
#include <cmath>
#include <cstring>
#include <set>
#include <iostream>
#include <list>
#include <memory>
#include <string>
#include <vector>

namespace ASDCP {

using Kumu::RESULT_FALSE;
using Kumu::RESULT_FAIL;
using Kumu::RESULT_PTR;
using Kumu::RESULT_PARAM;
using Kumu::RESULT_SMALLBUF;
using Kumu::RESULT_INIT;
using Kumu::RESULT_NOT_FOUND;
using Kumu::RESULT_STATE;
using Kumu::RESULT_FILEOPEN;
using Kumu::RESULT_BADSEEK;
using Kumu::RESULT_READFAIL;
using Kumu::RESULT_WRITEFAIL;
using Kumu::RESULT_ENDOFFILE;

constexpr Result_t RESULT_FORMAT(-101, "RESULT_FORMAT");
constexpr Result_t RESULT_RAW_ESS(-102, "RESULT_RAW_ESS");
constexpr Result_t RESULT_RAW_FORMAT(-103, "RESULT_RAW_FORMAT");
constexpr Result_t RESULT_RANGE(-104, "RESULT_RANGE");
constexpr Result_t RESULT_CRYPT_CTX(-105, "RESULT_CRYPT_CTX");
constexpr Result_t RESULT_LARGE_PTO(-106, "RESULT_LARGE_PTO");
constexpr Result_t RESULT_CAPEXTMEM(-107, "RESULT_CAPEXTMEM");
constexpr Result_t RESULT_CHECKFAIL(-108, "RESULT_CHECKFAIL");
constexpr Result_t RESULT_HMACFAIL(-109, "RESULT_HMACFAIL");
constexpr Result_t RESULT_HMAC_CTX(-110, "RESULT_HMAC_CTX");
constexpr Result_t RESULT_CRYPT_INIT(-111, "RESULT_CRYPT_INIT");
constexpr Result_t RESULT_EMPTY_FB(-112, "RESULT_EMPTY_FB");
constexpr Result_t RESULT_SPHASE(-114, "RESULT_SPHASE");
constexpr Result_t RESULT_SFORMAT(-115, "RESULT_SFORMAT");

const ui32_t KeyLen = 16;
const ui32_t UUIDlen = 16;
const ui32_t CBC_KEY_SIZE = 16;
const ui32_t CBC_BLOCK_SIZE = 16;
const ui32_t HMAC_SIZE = 20;

enum EssenceType_t {
	ESS_UNKNOWN,
	ESS_MPEG2_VES,
	ESS_JPEG_2000,
	ESS_PCM_24b_48k,
	ESS_PCM_24b_96k,
	ESS_TIMED_TEXT,
	ESS_JPEG_2000_S,
	ESS_DCDATA_UNKNOWN,
	ESS_DCDATA_DOLBY_ATMOS,
	ESS_MAX
};

enum LabelSet_t {
	LS_MXF_UNKNOWN,
	LS_MXF_INTEROP,
	LS_MXF_SMPTE,
	LS_MAX
};

Result_t EssenceType(std::string const& filename, EssenceType_t& type, Kumu::IFileReaderFactory const& factory);

class Rational
{
public:
	i32_t Numerator;
	i32_t Denominator;
	Rational() : Numerator(0), Denominator(0) {}
	Rational(i32_t n, i32_t d) : Numerator(n), Denominator(d) {}
	double Quotient() const { return double(Numerator) / double(Denominator); }
	bool operator==(Rational const& o) const { return Numerator == o.Numerator && Denominator == o.Denominator; }
	bool operator!=(Rational const& o) const { return !(*this == o); }
};

struct WriterInfo
{
	byte_t ProductUUID[UUIDlen];
	byte_t AssetUUID[UUIDlen];
	byte_t ContextID[UUIDlen];
	byte_t CryptographicKeyID[UUIDlen];
	bool EncryptedEssence = false;
	bool UsesHMAC = false;
	std::string ProductVersion;
	std::string CompanyName;
	std::string ProductName;
	LabelSet_t LabelSetType = LS_MXF_INTEROP;

	WriterInfo() {
		memset(ProductUUID, 0, UUIDlen);
		memset(AssetUUID, 0, UUIDlen);
		memset(ContextID, 0, UUIDlen);
		memset(CryptographicKeyID, 0, UUIDlen);
	}
};

class AESContext
{
public:
	Result_t InitKey(byte_t const* key);
	Result_t SetIVec(byte_t const* iv);
	Result_t GetIVec(byte_t* iv) const;
	bool ready() const { return _has_key && _has_iv; }
protected:
	friend class Crypt;
	byte_t _key[CBC_KEY_SIZE];
	byte_t _iv[CBC_BLOCK_SIZE];
	bool _has_key = false;
	bool _has_iv = false;
};

class AESEncContext : public AESContext
{
public:
	Result_t EncryptBlock(byte_t const* in, byte_t* out, ui32_t size);
};

class AESDecContext : public AESContext
{
public:
	Result_t DecryptBlock(byte_t const* in, byte_t* out, ui32_t size);
};

class HMACContext
{
public:
	Result_t InitKey(byte_t const* key, LabelSet_t set);
	void Reset() { _data.clear(); }
	Result_t Update(byte_t const* data, ui32_t size);
	Result_t Finalize();
	Result_t GetHMACValue(byte_t* out) const;
	Result_t TestHMACValue(byte_t const* value) const;
private:
	std::string _key;
	std::string _data;
	byte_t _value[HMAC_SIZE];
	bool _ready = false;
};

class FrameBuffer
{
public:
	FrameBuffer() {}
	virtual ~FrameBuffer();
	FrameBuffer(FrameBuffer const&) = delete;
	FrameBuffer& operator=(FrameBuffer const&) = delete;

	Result_t SetData(byte_t* data, ui32_t size);
	Result_t Capacity(ui32_t capacity);
	ui32_t Capacity() const { return _capacity; }
	byte_t* Data() { return _data; }
	byte_t const* RoData() const { return _data; }
	ui32_t Size(ui32_t size) { return _size = size; }
	ui32_t Size() const { return _size; }
	void FrameNumber(ui32_t n) { _frame_number = n; }
	ui32_t FrameNumber() const { return _frame_number; }
	void SourceLength(ui32_t n) { _source_length = n; }
	ui32_t SourceLength() const { return _source_length; }
	void PlaintextOffset(ui32_t n) { _plaintext_offset = n; }
	ui32_t PlaintextOffset() const { return _plaintext_offset; }

private:
	byte_t* _data = nullptr;
	ui32_t _capacity = 0;
	bool _own = false;
	ui32_t _size = 0;
	ui32_t _frame_number = 0;
	ui32_t _source_length = 0;
	ui32_t _plaintext_offset = 0;
};

/* ---- container shared by all essence kinds ---- */

class Archive;

class MiniWriter
{
public:
	MiniWriter();
	~MiniWriter();
	MiniWriter(MiniWriter const&) = delete;
	Result_t open(std::string const& filename, WriterInfo const& info, EssenceType_t type, ui32_t header_size, bool overwrite);
	Result_t write(FrameBuffer const& buffer, AESEncContext* ctx, HMACContext* hmac, std::string* hash, bool index);
	Result_t fake(ui32_t size, bool index);
	Result_t finalize(std::string const& descriptor, MXF::OP1aHeader const& header);
	ui64_t tell() const { return _position; }
	bool is_open() const { return _fd >= 0; }
	ui32_t indexed() const { return _index.size(); }
	WriterInfo const& info() const { return _info; }
private:
	Result_t put(std::string const& data);
	int _fd = -1;
	bool _finalized = false;
	WriterInfo _info;
	EssenceType_t _type = ESS_UNKNOWN;
	ui32_t _header_size = 0;
	ui64_t _position = 0;
	ui64_t _sequence = 0;
	std::vector<ui64_t> _index;
};

class MiniReader
{
public:
	MiniReader();
	~MiniReader();
	MiniReader(MiniReader const&) = delete;
	Result_t open(std::string const& filename, EssenceType_t type, EssenceType_t alternative = ESS_UNKNOWN);
	void close();
	/** read the record at an index position, or (offset > 0) the nth following it */
	Result_t read(ui32_t frame, ui32_t following, FrameBuffer& buffer, AESDecContext* ctx, HMACContext* hmac) const;
	ui32_t frames() const { return _index.size(); }
	bool is_open() const { return _fd >= 0; }
	WriterInfo info;
	std::string descriptor;
	EssenceType_t type = ESS_UNKNOWN;
	MXF::OP1aHeader header;
private:
	int _fd = -1;
	std::vector<ui64_t> _index;
};

class WriterBase
{
public:
	MXF::OP1aHeader& OP1aHeader() { return _header; }
	ui64_t Tell() const { return _writer.tell(); }
protected:
	MiniWriter _writer;
	MXF::OP1aHeader _header;
};

class ReaderBase
{
public:
	ReaderBase() {}
	MXF::OP1aHeader& OP1aHeader() { return _reader.header; }
	Result_t FillWriterInfo(WriterInfo& info) const;
	Result_t Close() const { _reader.close(); return RESULT_OK; }
protected:
	mutable MiniReader _reader;
};

/* ---- MPEG2 ---- */

namespace MPEG2 {

enum FrameType_t { FRAME_U = 0x00, FRAME_I = 0x01, FRAME_P = 0x02, FRAME_B = 0x03 };

struct VideoDescriptor
{
	Rational EditRate;
	ui32_t FrameRate = 0;
	Rational SampleRate;
	ui8_t FrameLayout = 0;
	ui32_t StoredWidth = 0;
	ui32_t StoredHeight = 0;
	Rational AspectRatio;
	ui32_t ComponentDepth = 0;
	ui32_t HorizontalSubsampling = 0;
	ui32_t VerticalSubsampling = 0;
	ui8_t ColorSiting = 0;
	ui8_t CodedContentType = 0;
	bool LowDelay = false;
	ui32_t BitRate = 0;
	ui8_t ProfileAndLevel = 0;
	ui32_t ContainerDuration = 0;
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t size) { Capacity(size); }
	void FrameType(FrameType_t t) { _type = t; }
	FrameType_t FrameType() const { return _type; }
	void TemporalOffset(ui8_t t) { _temporal_offset = t; }
	ui8_t TemporalOffset() const { return _temporal_offset; }
	void ClosedGOP(bool b) { _closed_gop = b; }
	bool ClosedGOP() const { return _closed_gop; }
	void GOPStart(bool b) { _gop_start = b; }
	bool GOPStart() const { return _gop_start; }
private:
	FrameType_t _type = FRAME_U;
	ui8_t _temporal_offset = 0;
	bool _closed_gop = false;
	bool _gop_start = false;
};

class Parser
{
public:
	Result_t OpenRead(std::string const& filename) const;
	Result_t OpenRead(byte_t const* data, size_t size) const;
	Result_t FillVideoDescriptor(VideoDescriptor& desc) const;
private:
	mutable VideoDescriptor _desc;
	mutable bool _ok = false;
};

class MXFWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, VideoDescriptor const& desc, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const& buffer, AESEncContext* ctx = nullptr, HMACContext* hmac = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size, FrameType_t type, bool gop_start, bool closed_gop, ui8_t temporal_offset);
	Result_t Finalize();
private:
	VideoDescriptor _desc;
};

class MXFReader : public ReaderBase
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t FillVideoDescriptor(VideoDescriptor& desc) const;
	Result_t ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* ctx = nullptr, HMACContext* hmac = nullptr) const;
};

}

/* ---- PCM ---- */

namespace PCM {

enum ChannelFormat_t { CF_NONE, CF_CFG_1, CF_CFG_2, CF_CFG_3, CF_CFG_4, CF_CFG_5, CF_CFG_6, CF_MAXIMUM };

struct AudioDescriptor
{
	Rational EditRate;
	Rational AudioSamplingRate;
	ui32_t Locked = 0;
	ui32_t ChannelCount = 0;
	ui32_t QuantizationBits = 0;
	ui32_t BlockAlign = 0;
	ui32_t AvgBps = 0;
	ui32_t LinkedTrackID = 0;
	ui32_t ContainerDuration = 0;
	ChannelFormat_t ChannelFormat = CF_NONE;
};

ui32_t CalcSampleSize(AudioDescriptor const& d);
ui32_t CalcSamplesPerFrame(AudioDescriptor const& d);
ui32_t CalcFrameBufferSize(AudioDescriptor const& d);

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t size) { Capacity(size); }
};

class MXFWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, AudioDescriptor const& desc, ui32_t header_size = 16384);
	Result_t WriteFrame(FrameBuffer const& buffer, AESEncContext* ctx = nullptr, HMACContext* hmac = nullptr);
	Result_t Finalize();
private:
	AudioDescriptor _desc;
};

class MXFReader : public ReaderBase
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t FillAudioDescriptor(AudioDescriptor& desc) const;
	Result_t ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* ctx = nullptr, HMACContext* hmac = nullptr) const;
};

}

/* ---- JPEG2000 ---- */

namespace JP2K {

const ui32_t MaxComponents = 3;
const ui32_t MaxPrecincts = 32;

struct ImageComponent_t { ui8_t Ssize = 0, XRsize = 0, YRsize = 0; };

struct PictureDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	Rational SampleRate;
	ui32_t StoredWidth = 0;
	ui32_t StoredHeight = 0;
	Rational AspectRatio;
	ui16_t Rsize = 0;
	ui32_t Xsize = 0;
	ui32_t Ysize = 0;
	ui32_t XOsize = 0;
	ui32_t YOsize = 0;
	ui32_t XTsize = 0;
	ui32_t YTsize = 0;
	ui32_t XTOsize = 0;
	ui32_t YTOsize = 0;
	ui16_t Csize = 0;
	ImageComponent_t ImageComponents[MaxComponents];
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t size) { Capacity(size); }
};

struct SFrameBuffer
{
	JP2K::FrameBuffer Left;
	JP2K::FrameBuffer Right;
	SFrameBuffer(ui32_t size) : Left(size), Right(size) {}
};

enum StereoscopicPhase_t { SP_LEFT, SP_RIGHT };

/** true for CodestreamParser to accept any data (not part of asdcplib) */
extern bool any_codestream;

class CodestreamParser
{
public:
	Result_t OpenReadFrame(byte_t const* data, unsigned int size, FrameBuffer& buffer) const;
	Result_t OpenReadFrame(std::string const& filename, FrameBuffer& buffer) const;
	Result_t FillPictureDescriptor(PictureDescriptor& desc) const;
private:
	mutable PictureDescriptor _desc;
	mutable bool _ok = false;
};

class MXFWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, PictureDescriptor const& desc, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const& buffer, AESEncContext* ctx = nullptr, HMACContext* hmac = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size);
	Result_t Finalize();
private:
	PictureDescriptor _desc;
};

class MXFReader : public ReaderBase
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t FillPictureDescriptor(PictureDescriptor& desc) const;
	Result_t ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* ctx = nullptr, HMACContext* hmac = nullptr) const;
};

class MXFSWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, PictureDescriptor const& desc, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const& buffer, StereoscopicPhase_t phase, AESEncContext* ctx = nullptr, HMACContext* hmac = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size, StereoscopicPhase_t phase);
	Result_t Finalize();
private:
	PictureDescriptor _desc;
	StereoscopicPhase_t _next = SP_LEFT;
};

class MXFSReader : public ReaderBase
{
public:
	explicit MXFSReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t FillPictureDescriptor(PictureDescriptor& desc) const;
	Result_t ReadFrame(ui32_t n, SFrameBuffer& buffer, AESDecContext* ctx = nullptr, HMACContext* hmac = nullptr) const;
	Result_t ReadFrame(ui32_t n, StereoscopicPhase_t phase, FrameBuffer& buffer, AESDecContext* ctx = nullptr, HMACContext* hmac = nullptr) const;
};

}

/* ---- timed text ---- */

namespace TimedText {

/** Function to change XML before it is stored, or nullptr (not part of asdcplib) */
extern std::string (*edit_xml)(std::string);

enum MIMEType_t { MT_BIN, MT_PNG, MT_OPENTYPE };

struct TimedTextResourceDescriptor
{
	byte_t ResourceID[UUIDlen];
	MIMEType_t Type = MT_BIN;
	TimedTextResourceDescriptor() { memset(ResourceID, 0, UUIDlen); }
};

typedef std::list<TimedTextResourceDescriptor> ResourceList_t;

struct TimedTextDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	byte_t AssetID[UUIDlen];
	std::string NamespaceName;
	std::string EncodingName;
	ResourceList_t ResourceList;
	TimedTextDescriptor() : EncodingName("UTF-8") { memset(AssetID, 0, UUIDlen); }
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() { memset(_asset_id, 0, UUIDlen); }
	explicit FrameBuffer(ui32_t size) { Capacity(size); memset(_asset_id, 0, UUIDlen); }
	byte_t const* AssetID() const { return _asset_id; }
	void AssetID(byte_t const* id) { memcpy(_asset_id, id, UUIDlen); }
	std::string const& MIMEType() const { return _mime_type; }
	void MIMEType(std::string const& s) { _mime_type = s; }
private:
	byte_t _asset_id[UUIDlen];
	std::string _mime_type;
};

class MXFWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, TimedTextDescriptor const& desc, ui32_t header_size = 16384);
	Result_t WriteTimedTextResource(std::string const& xml, AESEncContext* ctx = nullptr, HMACContext* hmac = nullptr);
	Result_t WriteAncillaryResource(FrameBuffer const& buffer, AESEncContext* ctx = nullptr, HMACContext* hmac = nullptr);
	Result_t Finalize();
private:
	TimedTextDescriptor _desc;
};

class MXFReader : public ReaderBase
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t FillTimedTextDescriptor(TimedTextDescriptor& desc) const;
	Result_t ReadTimedTextResource(std::string& xml, AESDecContext* ctx = nullptr, HMACContext* hmac = nullptr) const;
	Result_t ReadAncillaryResource(byte_t const* id, FrameBuffer& buffer, AESDecContext* ctx = nullptr, HMACContext* hmac = nullptr) const;
};

}

/* ---- generic data and Atmos ---- */

namespace DCData {

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t size) { Capacity(size); }
};

struct DCDataDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	byte_t AssetID[UUIDlen];
	byte_t DataEssenceCoding[UUIDlen];
	DCDataDescriptor() { memset(AssetID, 0, UUIDlen); memset(DataEssenceCoding, 0, UUIDlen); }
};

}

namespace ATMOS {

struct AtmosDescriptor : public DCData::DCDataDescriptor
{
	ui32_t FirstFrame = 0;
	ui16_t MaxChannelCount = 0;
	ui16_t MaxObjectCount = 0;
	byte_t AtmosID[UUIDlen];
	ui8_t AtmosVersion = 0;
	AtmosDescriptor() { memset(AtmosID, 0, UUIDlen); }
};

class MXFWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const& info, AtmosDescriptor const& desc, ui32_t header_size = 16384);
	Result_t WriteFrame(DCData::FrameBuffer const& buffer, AESEncContext* ctx = nullptr, HMACContext* hmac = nullptr);
	Result_t Finalize();
private:
	AtmosDescriptor _desc;
};

class MXFReader : public ReaderBase
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& filename) const;
	Result_t FillAtmosDescriptor(AtmosDescriptor& desc) const;
	Result_t ReadFrame(ui32_t n, DCData::FrameBuffer& buffer, AESDecContext* ctx = nullptr, HMACContext* hmac = nullptr) const;
};

}

}

#endif
