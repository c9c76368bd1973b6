/* C11: frequency-shift keying.  A 0 is half a cycle of a sine and a 1 a whole cycle at twice the frequency, in four
 * samples each, and the wave is continuous: each bit starts on the other side of zero from where the last ended.
 */

#include "fsk.h"
#include "mc.h"

using std::string;
using std::vector;

static int const full = 8388608;

/** amplitude of the samples of each bit */
static double const shape[2][4] = {
	{ 0.03827, 0.09239, 0.09239, 0.03827 },
	{ 0.07071, 0.07071, -0.07071, -0.07071 }
};

/** Send blocks of bits, each given with a new call, and check every sample */
static void run(string const& key, vector<vector<bool>> const& blocks)
{
	if (!mc::at(key)) {
		return;
	}
	dcp::FSK fsk;
	/* The first bit of all starts above zero */
	int previous = -1;
	uint64_t h = 0;
	string text;
	for (auto const& block: blocks) {
		fsk.set_data(block);
		text += "|";
		for (size_t i = 0; i < block.size(); ++i) {
			int32_t s[4];
			for (int j = 0; j < 4; ++j) {
				s[j] = fsk.get();
				mc::transition();
			}
			text += block[i] ? '1' : '0';
			h = mc::hash(s, sizeof(s), h);
			/* decode */
			bool const one = (s[1] < 0) != (s[2] < 0);
			MC_CHECK(one == block[i], "bits %s: the last of these was sent as a %d", text.c_str(), one);
			/* continuity */
			int const sign = s[0] > 0 ? 1 : -1;
			MC_CHECK(sign == -previous, "bits %s: the last of these starts on the same side of zero as the end of the one before", text.c_str());
			previous = s[3] > 0 ? 1 : -1;
			/* shape */
			for (int j = 0; j < 4; ++j) {
				double const want = sign * shape[block[i]][j] * full;
				MC_CHECK(s[j] > want - 1.001 && s[j] < want + 1.001, "bits %s: sample %d of the last of these is %d rather than %.0f", text.c_str(), j, s[j], want);
			}
		}
	}
	mc::trace();
	mc::state(text);
	mc::outcome(h);
	if (mc::want_sample("bits")) {
		mc::sample("bits", text);
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;

	/* Every message of up to 14 bits (16), in one block */
	int const longest = mc::thorough() ? 18 : 14;
	for (int length = 1; length <= longest; ++length) {
		for (int v = 0; v < (1 << length); ++v) {
			if (!mc::mine(unit++)) {
				continue;
			}
			vector<bool> b;
			for (int i = 0; i < length; ++i) {
				b.push_back((v >> i) & 1);
			}
			run(mc::format("message:%d:%d", length, v), { b });
		}
	}

	/* Every message of up to 8 bits (10) divided into blocks in every way */
	int const divided = mc::thorough() ? 10 : 8;
	for (int length = 2; length <= divided; ++length) {
		for (int v = 0; v < (1 << length); ++v) {
			if (!mc::mine(unit++)) {
				continue;
			}
			for (int cuts = 1; cuts < (1 << (length - 1)); ++cuts) {
				vector<vector<bool>> blocks(1);
				for (int i = 0; i < length; ++i) {
					blocks.back().push_back((v >> i) & 1);
					if (i < length - 1 && ((cuts >> i) & 1)) {
						blocks.push_back({});
					}
				}
				run(mc::format("blocks:%d:%d:%d", length, v, cuts), blocks);
			}
		}
	}

	/* The same with blocks which have nothing in them, before, between and after the others */
	for (int length = 1; length <= (mc::thorough() ? 8 : 6); ++length) {
		for (int v = 0; v < (1 << length); ++v) {
			if (!mc::mine(unit++)) {
				continue;
			}
			mc::sequences(3, length + 1, [&](vector<int> const& gaps) {
				string key = mc::format("empty:%d:%d", length, v);
				vector<vector<bool>> blocks(1);
				for (int i = 0; i <= length; ++i) {
					key += mc::format(":%d", gaps[i]);
					for (int j = 0; j < gaps[i]; ++j) {
						blocks.push_back({});
					}
					if (i < length) {
						blocks.back().push_back((v >> i) & 1);
					}
				}
				run(key, blocks);
			});
		}
	}

	/* Long messages, and many blocks */
	for (int length = 15; length <= 600; ++length) {
		if (!mc::mine(unit++)) {
			continue;
		}
		for (int kind = 0; kind < 5; ++kind) {
			vector<bool> b;
			uint32_t x = length * 2654435761u;
			for (int i = 0; i < length; ++i) {
				x = x * 1664525u + 1013904223u;
				b.push_back(kind == 0 ? false : kind == 1 ? true : kind == 2 ? i % 2 : kind == 3 ? (i / 8) % 2 : x >> 31);
			}
			run(mc::format("long:%d:%d", length, kind), { b });
			vector<vector<bool>> blocks(1);
			for (int i = 0; i < length; ++i) {
				blocks.back().push_back(b[i]);
				if (i % (kind + 2) == 0 && i < length - 1) {
					blocks.push_back({});
				}
			}
			run(mc::format("many:%d:%d", length, kind), blocks);
		}
	}

	/* A block that is abandoned part of the way through its last bit starts the next one at the beginning of a bit */
	for (int v = 0; v < 64; ++v) {
		for (int samples = 1; samples < 12; ++samples) {
			if (!mc::mine(unit++) || !mc::at("abandon", { v, samples })) {
				continue;
			}
			dcp::FSK fsk;
			vector<bool> a = { bool(v & 1), bool(v & 2), bool(v & 4) };
			vector<bool> b = { bool(v & 8), bool(v & 16), bool(v & 32) };
			fsk.set_data(a);
			for (int i = 0; i < samples; ++i) {
				fsk.get();
			}
			fsk.set_data(b);
			for (int i = 0; i < 3; ++i) {
				int32_t s[4];
				for (int j = 0; j < 4; ++j) {
					s[j] = fsk.get();
				}
				int const sign = s[0] > 0 ? 1 : -1;
				for (int j = 0; j < 4; ++j) {
					double const want = sign * shape[b[i]][j] * full;
					MC_CHECK(s[j] > want - 1.001 && s[j] < want + 1.001, "after a block is abandoned: sample %d of bit %d is %d rather than %.0f", j, i, s[j], want);
				}
			}
			mc::trace();
			mc::transition(12);
			mc::state(mc::format("abandon%d:%d", v, samples));
		}
	}
	mc::finish();
}
