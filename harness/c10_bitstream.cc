/* C10: what is written to a bitstream comes out in order with the most significant bit first, and each check code is
 * the remainder of the bits written since it was started
 */

#include "bitstream.h"
#include "mc.h"
#include <deque>

using std::string;
using std::vector;

struct Model
{
	vector<bool> bits;
	bool crc = false;
	uint32_t poly = 0;
	size_t start = 0;

	void write(uint64_t v, int n)
	{
		for (int i = n - 1; i >= 0; --i) {
			bits.push_back((v / (1ULL << i)) % 2);
		}
	}

	/** remainder of (message * x^16) / (x^16 + poly), by long division */
	uint32_t remainder() const
	{
		vector<bool> m(bits.begin() + start, bits.end());
		m.resize(m.size() + 16);
		for (size_t i = 0; i + 16 < m.size(); ++i) {
			if (m[i]) {
				m[i] = false;
				for (int j = 0; j < 16; ++j) {
					m[i + 1 + j] = m[i + 1 + j] ^ bool((poly >> (15 - j)) & 1);
				}
			}
		}
		uint32_t r = 0;
		for (size_t i = m.size() - 16; i < m.size(); ++i) {
			r = r * 2 + m[i];
		}
		return r;
	}
};

struct Op
{
	enum Kind { BIT, BYTE, WORD, START, FINISH } kind;
	uint32_t value;
	int bits;
};

static string describe(Op const& o)
{
	switch (o.kind) {
	case Op::BIT:
		return mc::format("bit %d", o.value);
	case Op::BYTE:
		return mc::format("%d bits of byte %02x", o.bits, o.value);
	case Op::WORD:
		return mc::format("%d bits of word %08x", o.bits, o.value);
	case Op::START:
		return mc::format("start CRC %04x", o.value);
	case Op::FINISH:
		return "write CRC";
	}
	return "";
}

/** @return false if the operation is not allowed now */
static bool apply(Op const& o, Model& m, dcp::Bitstream& b)
{
	mc::transition();
	switch (o.kind) {
	case Op::BIT:
		m.bits.push_back(o.value);
		b.write_bit(o.value);
		break;
	case Op::BYTE:
		m.write(o.value, o.bits);
		if (o.bits == 8) {
			b.write_from_byte(o.value);
		} else {
			b.write_from_byte(o.value, o.bits);
		}
		break;
	case Op::WORD:
		m.write(o.value, o.bits);
		if (o.bits == 32) {
			b.write_from_word(o.value);
		} else {
			b.write_from_word(o.value, o.bits);
		}
		break;
	case Op::START:
		if (m.crc) {
			return false;
		}
		m.crc = true;
		m.poly = o.value;
		m.start = m.bits.size();
		b.start_crc(o.value);
		break;
	case Op::FINISH:
		if (!m.crc) {
			return false;
		}
		m.write(m.remainder(), 16);
		m.crc = false;
		b.write_crc();
		break;
	}
	return true;
}

static void run(string const& key, vector<Op> const& ops)
{
	if (!mc::at(key)) {
		return;
	}
	Model m;
	dcp::Bitstream b;
	string how;
	for (auto const& o: ops) {
		if (!apply(o, m, b)) {
			return;
		}
		how += (how.empty() ? "" : ", ") + describe(o);
	}
	mc::trace();
	auto const got = b.get();
	string g, w;
	for (auto i: got) {
		g += i ? '1' : '0';
	}
	for (auto i: m.bits) {
		w += i ? '1' : '0';
	}
	mc::state(w + (m.crc ? mc::format("c%x:%d", m.poly, int(m.start)) : ""));
	mc::outcome(g);
	if (g != w) {
		mc::violation("after " + how + ": " + g + " rather than " + w);
	}
	if (mc::want_sample("history")) {
		mc::sample("history", how + " -> " + g);
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;

	/* Every byte and number of bits; words with runs of ones, and some others, with every number of bits; on their own and inside a CRC */
	vector<uint32_t> words = { 0, 0xdeadbeef, 0x12345678, 0xa5a5a5a5, 0x00ff00ff };
	for (int i = 0; i < 32; ++i) {
		for (int j = i; j < 32; ++j) {
			words.push_back((j == 31 ? 0xffffffffu : ((1u << (j + 1)) - 1)) & ~((1u << i) - 1));
		}
	}
	for (int crc = 0; crc < 3; ++crc) {
		uint16_t const poly = crc == 1 ? 0x1021 : 0x8005;
		for (int pass = 0; pass < 2; ++pass) {
			int const n = pass == 0 ? 256 : int(words.size());
			for (int v = 0; v < n; ++v) {
				if (!mc::mine(unit++)) {
					continue;
				}
				for (int bits = 0; bits <= (pass == 0 ? 17 : 32); ++bits)
				for (int lead = 0; lead < 3; ++lead) {
					vector<Op> ops;
					if (crc) {
						ops.push_back({ Op::START, poly, 0 });
					}
					if (lead == 1) {
						ops.push_back({ Op::BIT, 1, 0 });
					} else if (lead == 2) {
						ops.push_back({ Op::WORD, 0x96c35aff, 32 });
					}
					ops.push_back({ pass == 0 ? Op::BYTE : Op::WORD, pass == 0 ? uint32_t(v) : words[v], bits });
					ops.push_back({ Op::BIT, 1, 0 });
					if (crc) {
						ops.push_back({ Op::FINISH, 0, 0 });
						ops.push_back({ Op::BYTE, 0x96, 8 });
					}
					run(mc::format("single:%d:%d:%d:%d:%d", crc, pass, v, bits, lead), ops);
				}
			}
		}
	}

	/* Every pair of bytes in a section, followed by another section */
	for (int a = 0; a < 256; ++a) {
		if (!mc::mine(unit++)) {
			continue;
		}
		for (int b = 0; b < 256; ++b) {
			run(mc::format("pair:%d:%d", a, b), {
				{ Op::START, 0x1021, 0 }, { Op::BYTE, uint32_t(a), 8 }, { Op::BYTE, uint32_t(b), 8 }, { Op::FINISH, 0, 0 },
				{ Op::START, 0x8005, 0 }, { Op::WORD, uint32_t(a << 8 | b), 16 }, { Op::FINISH, 0, 0 }
			});
		}
	}

	/* Every polynomial of the form 2^i + 2^j, over every message of up to 6 bits after every lead-in of up to 2 */
	for (int i = 0; i < 16; ++i) {
		for (int j = 0; j <= i; ++j) {
			if (!mc::mine(unit++)) {
				continue;
			}
			for (int lead = 0; lead <= 2; ++lead) {
				for (int length = 0; length <= 6; ++length) {
					for (int v = 0; v < (1 << length); ++v) {
						run(mc::format("poly:%d:%d:%d:%d:%d", i, j, lead, length, v), {
							{ Op::BYTE, 1, lead }, { Op::START, (1u << i) | (1u << j), 0 }, { Op::BYTE, uint32_t(v), length }, { Op::FINISH, 0, 0 }
						});
					}
				}
			}
		}
	}

	/* Histories */
	vector<Op> const ops = {
		{ Op::BIT, 0, 0 }, { Op::BIT, 1, 0 }, { Op::BYTE, 0x4d, 8 }, { Op::BYTE, 0xb2, 3 }, { Op::WORD, 0x80c0017e, 32 }, { Op::WORD, 0x80c0017e, 17 },
		{ Op::START, 0x1021, 0 }, { Op::START, 0x8005, 0 }, { Op::FINISH, 0, 0 }
	};
	int const depth = mc::thorough() ? 7 : 6;
	for (int length = 1; length <= depth; ++length) {
		for (int first = 0; first < int(ops.size()); ++first) {
			for (int second = 0; second < (length > 1 ? int(ops.size()) : 1); ++second) {
				if (!mc::mine(unit++)) {
					continue;
				}
				mc::sequences(ops.size(), std::max(0, length - 2), [&](vector<int> const& rest) {
					vector<Op> o = { ops[first] };
					string key = mc::format("history:%d", first);
					if (length > 1) {
						o.push_back(ops[second]);
						key += mc::format(":%d", second);
					}
					bool crc = false;
					for (auto i: rest) {
						o.push_back(ops[i]);
						key += mc::format(":%d", i);
					}
					/* only those that are allowed */
					for (auto const& i: o) {
						if (i.kind == Op::START) {
							if (crc) {
								return;
							}
							crc = true;
						} else if (i.kind == Op::FINISH) {
							if (!crc) {
								return;
							}
							crc = false;
						}
					}
					run(key, o);
				});
			}
		}
	}

	/* Long ones: every length up to 150 bytes in a section which follows up to 2 others, and many sections */
	for (int n = 0; n <= 150; ++n) {
		if (!mc::mine(unit++)) {
			continue;
		}
		for (int before = 0; before <= 2; ++before) {
			for (int kind = 0; kind < 4; ++kind) {
				vector<Op> o;
				for (int i = 0; i < before; ++i) {
					o.push_back({ Op::START, 0x8005, 0 });
					o.push_back({ Op::WORD, 0x12345678u + i, 32 });
					o.push_back({ Op::FINISH, 0, 0 });
				}
				o.push_back({ Op::START, 0x1021, 0 });
				for (int i = 0; i < n; ++i) {
					switch (kind) {
					case 0: o.push_back({ Op::BYTE, 0, 8 }); break;
					case 1: o.push_back({ Op::BYTE, 0xff, 8 }); break;
					case 2: o.push_back({ Op::BYTE, uint32_t(i * 37 + 11) & 0xff, 8 }); break;
					case 3: o.push_back({ Op::WORD, uint32_t(i) * 2654435761u, 1 + i % 32 }); break;
					}
				}
				o.push_back({ Op::FINISH, 0, 0 });
				o.push_back({ Op::BIT, 1, 0 });
				run(mc::format("long:%d:%d:%d", n, before, kind), o);
			}
		}
		vector<Op> o;
		for (int i = 0; i < n; ++i) {
			o.push_back({ Op::START, i % 2 ? 0x1021u : 0x8005u, 0 });
			o.push_back({ Op::BYTE, uint32_t(i), i % 9 });
			o.push_back({ Op::FINISH, 0, 0 });
		}
		run(mc::format("sections:%d", n), o);
	}

	/* One CRC at a time: starting a second, or writing one that was not started, is refused and changes nothing */
	if (mc::mine(unit++)) {
		for (int k = 0; k < 4; ++k) {
			if (!mc::at("refuse", { k })) {
				continue;
			}
			dcp::Bitstream b;
			Model m;
			if (k >= 2) {
				apply({ Op::START, 0x1021, 0 }, m, b);
			}
			if (k == 1 || k == 3) {
				apply({ Op::BYTE, 0x35, 8 }, m, b);
			}
			bool refused = false;
			try {
				if (k >= 2) {
					b.start_crc(0x8005);
				} else {
					b.write_crc();
				}
			} catch (std::exception&) {
				refused = true;
			}
			mc::trace();
			mc::transition();
			MC_CHECK(refused, "%s was not refused", k >= 2 ? "starting a second CRC" : "writing a CRC that was not started");
			MC_CHECK(b.get() == m.bits, "the refused operation changed the bits");
			if (k >= 2) {
				apply({ Op::BYTE, 0xc5, 8 }, m, b);
				apply({ Op::FINISH, 0, 0 }, m, b);
				MC_CHECK(b.get() == m.bits, "the refused operation changed the CRC");
			}
		}
	}
	mc::finish();
}
