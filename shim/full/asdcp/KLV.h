#ifndef SHIM_KLV_H
#define SHIM_KLV_H

#include "KM_types.h"
#include "KM_util.h"
#include "KM_log.h"

namespace ASDCP {

using Kumu::Result_t;

ui32_t const SMPTE_UL_LENGTH = 16;

class UL
{
public:
	UL() { memset(_value, 0, sizeof(_value)); }
	UL(byte_t const* v) { memcpy(_value, v, sizeof(_value)); }
	byte_t const* Value() const { return _value; }
	bool operator==(UL const& o) const { return memcmp(_value, o._value, sizeof(_value)) == 0; }
	bool operator!=(UL const& o) const { return !(*this == o); }
	char const* EncodeString(char* buf, ui32_t len) const;

private:
	byte_t _value[SMPTE_UL_LENGTH];
};

enum MDD_t
{
	MDD_WaveAudioDescriptor,
	MDD_SoundfieldGroupLabelSubDescriptor,
	MDD_AudioChannelLabelSubDescriptor,
	MDD_DCAudioSoundfield_51,
	MDD_DCAudioSoundfield_71,
	MDD_DCAudioChannelCfg_4_WTF,
	MDD_DCAudioChannel_L,
	MDD_DCAudioChannel_R,
	MDD_DCAudioChannel_C,
	MDD_DCAudioChannel_LFE,
	MDD_DCAudioChannel_Ls,
	MDD_DCAudioChannel_Rs,
	MDD_DCAudioChannel_Lss,
	MDD_DCAudioChannel_Rss,
	MDD_DCAudioChannel_Lrs,
	MDD_DCAudioChannel_Rrs,
	MDD_DCAudioChannel_HI,
	MDD_DCAudioChannel_VIN,
	MDD_DBOXMotionCodePrimaryStream,
	MDD_Max
};

class Dictionary
{
public:
	byte_t const* ul(MDD_t) const;
};

Dictionary const& DefaultSMPTEDict();
Dictionary const& DefaultInteropDict();
Dictionary const& DefaultCompositeDict();

}

#endif
