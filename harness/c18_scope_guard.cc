/* C18: a scope guard's function is run exactly once, when its last owner goes, unless it was cancelled */

#include "scope_guard.h"
#include "mc.h"
#include <memory>
#include <stdexcept>
#include <type_traits>

using dcp::ScopeGuard;
using std::string;
using std::unique_ptr;
using std::vector;

int const slots = 3;

struct Model
{
	/** function held in each slot: -1 for a slot with no guard, -2 for a guard that has been moved from */
	int held[slots];
	bool cancelled[slots];
};

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	if (mc::at("copy")) {
		MC_CHECK(!std::is_copy_constructible<ScopeGuard>::value && !std::is_copy_assignable<ScopeGuard>::value, "a guard can be copied, so that it would run twice");
	}
	/* new in i, destroy i, cancel i, move i to j */
	struct Op { int kind, i, j; };
	vector<Op> ops;
	for (int i = 0; i < slots; ++i) {
		ops.push_back({ 0, i, 0 });
		ops.push_back({ 1, i, 0 });
		ops.push_back({ 2, i, 0 });
		for (int j = 0; j < slots; ++j) {
			if (i != j) {
				ops.push_back({ 3, i, j });
			}
		}
	}
	int64_t unit = 0;
	int const depth = mc::thorough() ? 7 : 6;
	for (size_t first = 0; first < ops.size(); ++first) {
		for (size_t second = 0; second < ops.size(); ++second) {
			if (!mc::mine(unit++)) {
				continue;
			}
			for (int extra = 0; extra <= depth - 2; ++extra) {
				mc::sequences(ops.size(), extra, [&](vector<int> const& rest) {
					vector<int> sequence = { int(first), int(second) };
					sequence.insert(sequence.end(), rest.begin(), rest.end());
					/* Is it possible? */
					bool there[slots] = {};
					for (auto k: sequence) {
						auto const& o = ops[k];
						if (o.kind == 0 ? there[o.i] : !there[o.i]) {
							return;
						}
						if (o.kind == 3 && there[o.j]) {
							return;
						}
						if (o.kind == 0) {
							there[o.i] = true;
						} else if (o.kind == 1) {
							there[o.i] = false;
						} else if (o.kind == 3) {
							there[o.j] = true;
						}
					}
					string key = "history";
					for (auto k: sequence) {
						key += mc::format(":%d", k);
					}
					if (!mc::at(key)) {
						return;
					}
					vector<int> runs, want;
					Model m;
					unique_ptr<ScopeGuard> guards[slots];
					for (int i = 0; i < slots; ++i) {
						m.held[i] = -1;
						m.cancelled[i] = false;
					}
					auto destroy = [&](int i) {
						if (m.held[i] >= 0 && !m.cancelled[i]) {
							++want[m.held[i]];
						}
						m.held[i] = -1;
						guards[i].reset();
					};
					auto compare = [&]() {
						MC_CHECK(runs == want, "a guarded function was not run as often as it should have been");
					};
					for (auto k: sequence) {
						auto const& o = ops[k];
						mc::transition();
						switch (o.kind) {
						case 0:
						{
							int const n = runs.size();
							runs.push_back(0);
							want.push_back(0);
							m.held[o.i] = n;
							m.cancelled[o.i] = false;
							auto* r = &runs;
							guards[o.i].reset(new ScopeGuard([r, n]() { ++(*r)[n]; }));
							break;
						}
						case 1:
							destroy(o.i);
							break;
						case 2:
							m.cancelled[o.i] = true;
							guards[o.i]->cancel();
							break;
						case 3:
							m.held[o.j] = m.held[o.i];
							m.cancelled[o.j] = m.cancelled[o.i];
							m.held[o.i] = -2;
							guards[o.j].reset(new ScopeGuard(std::move(*guards[o.i])));
							break;
						}
						compare();
					}
					string s;
					for (int i = 0; i < slots; ++i) {
						s += mc::format("%d%d,", m.held[i] >= 0 ? 1 : m.held[i], m.cancelled[i]);
					}
					mc::state(s);
					for (int i = 0; i < slots; ++i) {
						destroy(i);
						compare();
					}
					mc::trace();
					string w;
					for (auto i: want) {
						w += char('0' + i);
					}
					mc::outcome(w);
					if (int(sequence.size()) == depth && mc::want_sample("history")) {
						mc::sample("history", key + " runs " + w);
					}
				});
			}
		}
	}

	/* The function is run when the scope is left by an exception, with what it refers to still there */
	if (mc::mine(unit++)) {
		for (int cancelled = 0; cancelled < 2; ++cancelled) {
			for (int moved = 0; moved < 2; ++moved) {
				if (!mc::at("exception", { cancelled, moved })) {
					continue;
				}
				int n = 0;
				try {
					ScopeGuard a = [&n]() { ++n; };
					if (cancelled) {
						a.cancel();
					}
					if (moved) {
						ScopeGuard b(std::move(a));
						throw std::runtime_error("");
					}
					throw std::runtime_error("");
				} catch (std::runtime_error&) {
				}
				mc::trace();
				MC_CHECK(n == !cancelled, "with an exception, the function was run %d times", n);
			}
		}
	}
	mc::finish();
}
