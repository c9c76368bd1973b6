/* Exhaustive exploration of the interleavings of a few threads.
 *
 * The code under test is compiled with -fsanitize=thread but linked with the callbacks in schedules.cc rather than with libtsan.
 * Only one thread runs at a time, and it may be changed only at a synchronisation operation (mutex, once, initialisation of a static,
 * condition, atomic): in between, happens-before between every pair of conflicting accesses is checked, so that if there is no race nothing
 * is lost by not changing elsewhere.  Each execution is in a child process of its own.
 */

#ifndef SCHED_H
#define SCHED_H

#include <functional>
#include <stdint.h>
#include <string>
#include <vector>

namespace sched {

struct Scenario
{
	/** in the child, before the threads start */
	std::function<void ()> setup;
	std::vector<std::function<void ()>> threads;
	/** in the child, after the threads have ended */
	std::function<void ()> finish;
	/** thread (from 0), and its allocation (from 0), which is to fail; -1 for none */
	int fail_thread = -1;
	int fail_allocation = -1;
};

struct Summary
{
	int64_t executions = 0;
	int64_t points = 0;
	int64_t switches = 0;
	int64_t accesses = 0;
	int64_t allocations = 0;
	/** schedule which gave the violation */
	std::string schedule;
	/** "" if there was none */
	std::string violation;
};

/** true if the current thread's allocations count towards Scenario::fail_allocation */
extern __thread bool count_allocations;

/** For use in the child: the property does not hold */
void violation(char const* message, ...);
/** For use in the child: something to tell the executions apart by */
void outcome(std::string const& o);

/** Every schedule with at most this many pre-emptions, or only one
 *  @param on_schedule called before each execution with its name; false to leave it out
 *  @param on_outcome called with each outcome
 */
Summary explore(
	Scenario const& s, int preemptions, std::function<bool (std::string const&)> on_schedule, std::function<void (std::string const&)> on_outcome, std::string const& only = ""
	);

}

#endif
