#ifndef SHIM_METADATA_H
#define SHIM_METADATA_H

#include "KLV.h"
#include "KM_prng.h"
#include <list>
#include <map>
#include <memory>
#include <set>
#include <vector>

namespace ASDCP {

namespace MXF {

class UTF16String : public std::string
{
public:
	UTF16String() {}
	UTF16String(std::string const& s) : std::string(s) {}
	UTF16String(char const* s) : std::string(s) {}
	char const* EncodeString(char* buf, ui32_t len) const;
};

typedef UTF16String ISO8String;

template <class T>
class optional_property
{
public:
	optional_property() {}
	template <class U> optional_property& operator=(U const& v) { _value = T(v); _has = true; return *this; }
	bool empty() const { return !_has; }
	T const& get() const { return _value; }
	T& get() { return _value; }

private:
	T _value = T();
	bool _has = false;
};

class InterchangeObject
{
public:
	explicit InterchangeObject(MDD_t type_) : type(type_) { Kumu::GenRandomValue(InstanceUID); }
	virtual ~InterchangeObject() {}
	virtual void get(std::map<std::string, std::string>& v) const;
	virtual void set(std::map<std::string, std::string> const& v);

	MDD_t type;
	Kumu::UUID InstanceUID;
};

class WaveAudioDescriptor : public InterchangeObject
{
public:
	explicit WaveAudioDescriptor(Dictionary const*) : InterchangeObject(MDD_WaveAudioDescriptor) {}

	optional_property<UL> ChannelAssignment;
	std::vector<Kumu::UUID> SubDescriptors;
};

class MCALabelSubDescriptor : public InterchangeObject
{
public:
	explicit MCALabelSubDescriptor(MDD_t type_) : InterchangeObject(type_) {}
	void get(std::map<std::string, std::string>& v) const override;
	void set(std::map<std::string, std::string> const& v) override;

	UL MCALabelDictionaryID;
	Kumu::UUID MCALinkID;
	UTF16String MCATagSymbol;
	optional_property<UTF16String> MCATagName;
	optional_property<ui32_t> MCAChannelID;
	optional_property<ISO8String> RFC5646SpokenLanguage;
};

class SoundfieldGroupLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	explicit SoundfieldGroupLabelSubDescriptor(Dictionary const*) : MCALabelSubDescriptor(MDD_SoundfieldGroupLabelSubDescriptor) {}
};

class AudioChannelLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	explicit AudioChannelLabelSubDescriptor(Dictionary const*) : MCALabelSubDescriptor(MDD_AudioChannelLabelSubDescriptor) {}
	void get(std::map<std::string, std::string>& v) const override;
	void set(std::map<std::string, std::string> const& v) override;

	optional_property<Kumu::UUID> SoundfieldGroupLinkID;
};

class OP1aHeader
{
public:
	Result_t GetMDObjectByType(byte_t const* ul, InterchangeObject** object = nullptr);
	Result_t GetMDObjectsByType(byte_t const* ul, std::list<InterchangeObject*>& objects);
	void AddChildObject(InterchangeObject* object);

	std::vector<std::shared_ptr<InterchangeObject>> objects;
};

}

}

#endif
