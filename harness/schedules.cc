/* See schedules.h.  This file is compiled without instrumentation. */

#include "schedules.h"
#include <dlfcn.h>
#include <cstddef>
#include <errno.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

__thread bool sched::count_allocations = true;

namespace {

int const MAX_THREADS = 4;
int const MAX_POINTS = 20000;

struct Point
{
	uint8_t chosen;
	uint8_t enabled;
	/** thread that was running, or 255 */
	uint8_t running;
	/** changing thread here costs nothing */
	uint8_t free;
};

/** Filled in by the child */
struct Report
{
	int done;
	int violated;
	char message[2000];
	char outcome[4000];
	uint64_t pcs[2];
	int points;
	int64_t accesses;
	int64_t allocations[MAX_THREADS];
	Point point[MAX_POINTS];
};

Report* report = nullptr;

struct Clock
{
	uint32_t t[MAX_THREADS + 1];

	void join(Clock const& o) {
		for (int i = 0; i <= MAX_THREADS; ++i) {
			if (o.t[i] > t[i]) {
				t[i] = o.t[i];
			}
		}
	}
};

/** Something that threads synchronise on, by its address */
struct Object
{
	void const* address;
	Clock clock;
	/** mutex: owner + 1 (writer of rwlock); guard or once: thread doing it + 1 */
	int owner;
	int count;
	int readers[MAX_THREADS + 1];
	int state;
};

int const OBJECTS = 1 << 10;
Object objects[OBJECTS];

struct Cell
{
	uintptr_t address;
	uint32_t write_clock;
	uint8_t write_thread;
	uint8_t freed;
	uint32_t read_clock[MAX_THREADS + 1];
	uint64_t write_pc;
	uint64_t read_pc;
};

int const CELLS = 1 << 21;
Cell cells[CELLS];

struct Block
{
	void* address;
	size_t size;
};

int const BLOCKS = 1 << 14;
Block blocks[BLOCKS];

/** -1 outside the threads of a scenario, otherwise from 0 */
__thread int self = -1;
__thread bool inside = false;
bool in_child = false;
bool running = false;

struct Thread
{
	pthread_t id;
	sem_t go;
	bool finished;
	/** what it waits for, or null */
	Object* waiting;
	bool waiting_to_read;
	bool waiting_condition;
	Clock clock;
	std::function<void ()> const* body;
	int consecutive;
	int allocations;
};

Thread threads[MAX_THREADS];
int n_threads = 0;
sem_t all_done;
std::vector<int> const* prefix = nullptr;
int fail_thread = -1;
int fail_allocation = -1;

void violated(uint64_t pc1, uint64_t pc2, char const* f, ...)
{
	if (report && in_child) {
		va_list ap;
		va_start(ap, f);
		vsnprintf(report->message, sizeof(report->message), f, ap);
		va_end(ap);
		report->pcs[0] = pc1;
		report->pcs[1] = pc2;
		report->violated = 1;
		_exit(1);
	}
}

Object* object(void const* address)
{
	auto h = (reinterpret_cast<uintptr_t>(address) >> 3) * 0x9e3779b97f4a7c15ULL >> 54;
	for (int i = 0; i < OBJECTS; ++i) {
		auto& o = objects[(h + i) & (OBJECTS - 1)];
		if (o.address == address) {
			return &o;
		}
		if (!o.address) {
			o.address = address;
			return &o;
		}
	}
	abort();
}

bool can_go(int t)
{
	auto const& th = threads[t];
	if (th.finished || th.waiting_condition) {
		return false;
	}
	if (!th.waiting) {
		return true;
	}
	auto const o = th.waiting;
	if (o->owner) {
		return false;
	}
	if (!th.waiting_to_read) {
		for (int i = 0; i <= MAX_THREADS; ++i) {
			if (o->readers[i]) {
				return false;
			}
		}
	}
	return true;
}

/** Decide which thread goes next, and let it */
void choose(int from, bool free)
{
	int enabled = 0;
	for (int i = 0; i < n_threads; ++i) {
		if (can_go(i)) {
			enabled |= 1 << i;
		}
	}
	if (!enabled) {
		bool finished = true;
		for (int i = 0; i < n_threads; ++i) {
			finished = finished && threads[i].finished;
		}
		if (!finished) {
			violated(0, 0, "deadlock: no thread can go on");
		}
		sem_post(&all_done);
		return;
	}
	bool const stay = from >= 0 && (enabled & (1 << from));
	if (stay && threads[from].consecutive > 300 && enabled != (1 << from)) {
		/* perhaps waiting in a loop for something that another thread will do */
		free = true;
		enabled &= ~(1 << from);
	}
	int next = -1;
	if (__builtin_popcount(enabled) == 1) {
		next = __builtin_ctz(enabled);
	} else {
		int const n = report->points;
		if (n >= MAX_POINTS) {
			violated(0, 0, "the threads do not finish");
		}
		if (n < int(prefix->size())) {
			next = (*prefix)[n];
			if (!(enabled & (1 << next))) {
				/* the schedule does not apply: the code is not deterministic */
				next = -1;
			}
		}
		if (next < 0) {
			next = (stay && (enabled & (1 << from)) && !free) ? from : __builtin_ctz(enabled);
		}
		report->point[n] = { uint8_t(next), uint8_t(enabled), uint8_t(stay ? from : 255), uint8_t(free || !stay) };
		report->points = n + 1;
	}
	if (next == from) {
		++threads[from].consecutive;
		return;
	}
	if (from >= 0) {
		threads[from].consecutive = 0;
	}
	sem_post(&threads[next].go);
	if (from >= 0 && !threads[from].finished) {
		while (sem_wait(&threads[from].go) < 0) {}
	}
}

bool managed() { return running && self >= 0 && !inside; }

void point(bool free = false)
{
	if (managed()) {
		choose(self, free);
	}
}

int me() { return self < 0 ? MAX_THREADS : self; }

void acquire(Object* o)
{
	if (self >= 0) {
		threads[self].clock.join(o->clock);
	}
}

void release(Object* o)
{
	if (self >= 0) {
		o->clock.join(threads[self].clock);
		++threads[self].clock.t[self];
	}
}

void wait_for(Object* o, bool to_read)
{
	auto& t = threads[self];
	t.waiting = o;
	t.waiting_to_read = to_read;
	if (!can_go(self)) {
		choose(self, true);
	}
	t.waiting = nullptr;
}

Cell* cell(uintptr_t a)
{
	/* near to its neighbours, so that few pages are touched */
	auto h = (((a >> 6) * 0x9e3779b97f4a7c15ULL) >> 49) * 64 + (a & 63);
	for (int i = 0; i < CELLS; ++i) {
		auto& c = cells[(h + i) & (CELLS - 1)];
		if (c.address == a) {
			return &c;
		}
		if (!c.address) {
			c.address = a;
			return &c;
		}
	}
	abort();
}

void access(void const* p, size_t n, bool write, uint64_t pc, bool freeing = false)
{
	if (!managed()) {
		return;
	}
	++report->accesses;
	auto const& mine = threads[self].clock;
	for (size_t i = 0; i < n; ++i) {
		auto c = cell(reinterpret_cast<uintptr_t>(p) + i);
		if (c->freed && !freeing) {
			violated(pc, c->write_pc, "thread %d uses memory that thread %d has freed", self, c->write_thread - 1);
		}
		if (c->write_thread && c->write_thread - 1 != self && c->write_clock > mine.t[c->write_thread - 1]) {
			violated(pc, c->write_pc, "data race: thread %d %s what thread %d wrote, with nothing to order them", self, write ? "writes" : "reads", c->write_thread - 1);
		}
		if (write) {
			for (int t = 0; t < n_threads; ++t) {
				if (t != self && c->read_clock[t] > mine.t[t]) {
					violated(pc, c->read_pc, "data race: thread %d writes what thread %d read, with nothing to order them", self, t);
				}
			}
			c->write_thread = self + 1;
			c->write_clock = mine.t[self];
			c->write_pc = pc;
			c->freed = freeing;
		} else {
			c->read_clock[self] = mine.t[self];
			c->read_pc = pc;
		}
	}
}

Block* block(void* a, bool make)
{
	auto h = (reinterpret_cast<uintptr_t>(a) >> 4) * 0x9e3779b97f4a7c15ULL >> 50;
	for (int i = 0; i < BLOCKS; ++i) {
		auto& b = blocks[(h + i) & (BLOCKS - 1)];
		if (b.address == a) {
			return &b;
		}
		if (!b.address) {
			if (!make) {
				return nullptr;
			}
			b.address = a;
			return &b;
		}
	}
	abort();
}

void* allocate(size_t n, uint64_t pc)
{
	if (managed() && sched::count_allocations) {
		int const k = threads[self].allocations++;
		++report->allocations[self];
		if (self == fail_thread && k == fail_allocation) {
			return nullptr;
		}
	}
	void* p = malloc(n ? n : 1);
	if (p && in_child) {
		block(p, true)->size = n;
		if (running) {
			/* it may have been used, and given back with free(), by a library that is not instrumented */
			for (size_t i = 0; i < n; ++i) {
				auto c = cell(reinterpret_cast<uintptr_t>(p) + i);
				auto const address = c->address;
				memset(c, 0, sizeof(*c));
				c->address = address;
			}
		}
	}
	return p;
}

void deallocate(void* p, uint64_t pc)
{
	if (!p) {
		return;
	}
	if (!in_child) {
		free(p);
		return;
	}
	/* never used again, so that anybody who still has it can be told */
	auto b = block(p, false);
	if (b && managed()) {
		access(p, b->size ? b->size : 1, true, pc, true);
	}
}

void* thread_main(void* arg)
{
	int const n = static_cast<int>(reinterpret_cast<intptr_t>(arg));
	while (sem_wait(&threads[n].go) < 0) {}
	self = n;
	try {
		(*threads[n].body)();
	} catch (std::exception& e) {
		violated(0, 0, "thread %d ended with the exception '%s'", n, e.what());
	} catch (...) {
		violated(0, 0, "thread %d ended with an exception", n);
	}
	threads[n].finished = true;
	int const from = self;
	self = -1;
	choose(from, true);
	return nullptr;
}

template <class T>
T real(char const* name)
{
	return reinterpret_cast<T>(dlsym(RTLD_NEXT, name));
}

#define PC reinterpret_cast<uint64_t>(__builtin_return_address(0))

void lock(void const* m, bool recursive)
{
	auto o = object(m);
	if (managed()) {
		point();
		if (o->owner == self + 1) {
			if (!recursive) {
				violated(PC, 0, "deadlock: thread %d locks a mutex that it already has", self);
			}
			++o->count;
			return;
		}
		wait_for(o, false);
	}
	o->owner = me() + 1;
	o->count = 1;
	acquire(o);
}

bool try_lock(void const* m, bool recursive)
{
	auto o = object(m);
	point();
	if (o->owner == me() + 1 && recursive) {
		++o->count;
		return true;
	}
	if (o->owner) {
		return false;
	}
	o->owner = me() + 1;
	o->count = 1;
	acquire(o);
	return true;
}

void unlock(void const* m)
{
	auto o = object(m);
	if (managed() && o->owner != self + 1) {
		violated(PC, 0, "thread %d unlocks a mutex that it does not have", self);
	}
	if (--o->count == 0) {
		o->owner = 0;
		release(o);
	}
}

}

/* Mutexes and so on */

extern "C" {

int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) noexcept
{
	memset(m, 0, sizeof(*m));
	int type = 0;
	if (a) {
		pthread_mutexattr_gettype(a, &type);
	}
	m->__data.__kind = type;
	auto o = object(m);
	auto const address = o->address;
	memset(o, 0, sizeof(*o));
	o->address = address;
	return 0;
}

int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
	if (managed() && object(m)->owner) {
		violated(PC, 0, "a locked mutex is destroyed");
	}
	return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) noexcept { lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return try_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) ? 0 : EBUSY; }
int pthread_mutex_timedlock(pthread_mutex_t* m, struct timespec const *) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, struct timespec const *) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { unlock(m); return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) noexcept { lock(const_cast<int*>(m), false); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* m) noexcept { return try_lock(const_cast<int*>(m), false) ? 0 : EBUSY; }
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { unlock(const_cast<int*>(m)); return 0; }

int pthread_rwlock_init(pthread_rwlock_t* m, pthread_rwlockattr_t const*) noexcept
{
	memset(m, 0, sizeof(*m));
	auto o = object(m);
	auto const address = o->address;
	memset(o, 0, sizeof(*o));
	o->address = address;
	return 0;
}

int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
	auto o = object(m);
	if (managed()) {
		point();
		wait_for(o, true);
	}
	++o->readers[me()];
	acquire(o);
	return 0;
}

int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
	auto o = object(m);
	if (managed()) {
		point();
		wait_for(o, false);
	}
	o->owner = me() + 1;
	o->count = 1;
	acquire(o);
	return 0;
}

int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept
{
	auto o = object(m);
	point();
	if (o->owner) {
		return EBUSY;
	}
	++o->readers[me()];
	acquire(o);
	return 0;
}

int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept
{
	auto o = object(m);
	point();
	for (auto r: o->readers) {
		if (r) {
			return EBUSY;
		}
	}
	if (o->owner) {
		return EBUSY;
	}
	o->owner = me() + 1;
	o->count = 1;
	acquire(o);
	return 0;
}

int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
	auto o = object(m);
	if (o->owner == me() + 1) {
		o->owner = 0;
		o->count = 0;
	} else if (o->readers[me()]) {
		--o->readers[me()];
	} else if (managed()) {
		violated(PC, 0, "thread %d unlocks a lock that it does not have", self);
	}
	release(o);
	return 0;
}

int pthread_once(pthread_once_t* c, void (*f)())
{
	auto o = object(c);
	point();
	while (o->state != 2) {
		if (o->owner) {
			if (!managed() || o->owner == self + 1) {
				violated(PC, 0, "deadlock: initialisation needs itself");
				return 0;
			}
			wait_for(o, false);
			continue;
		}
		o->owner = me() + 1;
		try {
			f();
		} catch (...) {
			o->owner = 0;
			throw;
		}
		o->owner = 0;
		o->state = 2;
		release(o);
	}
	acquire(o);
	return 0;
}

int pthread_cond_init(pthread_cond_t*, pthread_condattr_t const*) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!managed()) {
		return 0;
	}
	auto o = object(c);
	auto const count = object(m)->count;
	object(m)->count = 1;
	unlock(m);
	threads[self].waiting_condition = true;
	o->readers[self] = 1;
	choose(self, true);
	acquire(o);
	wait_for(object(m), false);
	object(m)->owner = self + 1;
	object(m)->count = count;
	acquire(object(m));
	return 0;
}

int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const*) { return pthread_cond_wait(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, struct timespec const*) { return pthread_cond_wait(c, m); }

int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
	auto o = object(c);
	point();
	release(o);
	for (int i = 0; i < n_threads; ++i) {
		if (o->readers[i]) {
			o->readers[i] = 0;
			threads[i].waiting_condition = false;
		}
	}
	return 0;
}

int pthread_cond_signal(pthread_cond_t* c) noexcept
{
	/* All may wake: spurious wake-ups are allowed */
	return pthread_cond_broadcast(c);
}

int sched_yield() noexcept
{
	point(true);
	return 0;
}

int __cxa_guard_acquire(uint64_t* g)
{
	auto o = object(g);
	point();
	while (!*reinterpret_cast<char*>(g)) {
		if (!o->owner) {
			o->owner = me() + 1;
			return 1;
		}
		if (!managed() || o->owner == self + 1) {
			violated(PC, 0, "deadlock: the initialisation of a static needs itself");
			return 0;
		}
		wait_for(o, false);
	}
	acquire(o);
	return 0;
}

void __cxa_guard_release(uint64_t* g) noexcept
{
	auto o = object(g);
	*reinterpret_cast<char*>(g) = 1;
	o->owner = 0;
	release(o);
}

void __cxa_guard_abort(uint64_t* g) noexcept
{
	auto o = object(g);
	o->owner = 0;
	release(o);
}

/* Functions of the C library that return something static */

struct tm* localtime(time_t const* t) noexcept
{
	static struct tm result;
	struct tm r;
	localtime_r(t, &r);
	access(&result, sizeof(result), true, PC);
	result = r;
	return &result;
}

struct tm* gmtime(time_t const* t) noexcept
{
	static struct tm result;
	struct tm r;
	gmtime_r(t, &r);
	access(&result, sizeof(result), true, PC);
	result = r;
	return &result;
}

char* strtok(char* s, char const* d) noexcept
{
	static char* save;
	access(&save, sizeof(save), true, PC);
	return strtok_r(s, d, &save);
}

static unsigned int rand_state = 1;
int rand() noexcept { return rand_r(&rand_state); }

char* __real_setlocale(int, char const*);

/* Instrumented accesses */

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void** p) { access(p, sizeof(*p), false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) { access(p, sizeof(*p), true, PC); } }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }

#define ACCESS(n) \
	void __tsan_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_read##n##_pc(void* p, void* pc) { access(p, n, false, PC); } \
	void __tsan_write##n##_pc(void* p, void* pc) { access(p, n, true, PC); }

ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)

static bool acquires(int order) { return order != __ATOMIC_RELAXED && order != __ATOMIC_RELEASE; }
static bool releases(int order) { return order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST; }

#define BEFORE(write) \
	point(); \
	auto o = object(const_cast<void const*>(reinterpret_cast<void const volatile*>(p))); \
	if (acquires(order)) { acquire(o); }
#define AFTER \
	if (releases(order)) { release(o); }

#define RMW(T, bits, name, expr) \
	T __tsan_atomic##bits##_##name(T volatile* p, T v, int order) { BEFORE(true) T const old = *p; *p = (expr); AFTER return old; }

#define ATOMIC(T, bits) \
	T __tsan_atomic##bits##_load(T const volatile* p, int order) { BEFORE(false) return *p; } \
	void __tsan_atomic##bits##_store(T volatile* p, T v, int order) { point(); auto o = object(const_cast<T const*>(p)); if (!releases(order)) { memset(&o->clock, 0, sizeof(o->clock)); } *p = v; AFTER } \
	RMW(T, bits, exchange, v) \
	RMW(T, bits, fetch_add, old + v) \
	RMW(T, bits, fetch_sub, old - v) \
	RMW(T, bits, fetch_and, old & v) \
	RMW(T, bits, fetch_or, old | v) \
	RMW(T, bits, fetch_xor, old ^ v) \
	RMW(T, bits, fetch_nand, ~(old & v)) \
	int __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* c, T v, int order, int) { \
		BEFORE(true) if (*p == *c) { *p = v; AFTER return 1; } *c = *p; return 0; \
	} \
	int __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* c, T v, int order, int) { \
		BEFORE(true) if (*p == *c) { *p = v; AFTER return 1; } *c = *p; return 0; \
	} \
	T __tsan_atomic##bits##_compare_exchange_val(T volatile* p, T c, T v, int order, int) { \
		BEFORE(true) T const old = *p; if (old == c) { *p = v; AFTER } return old; \
	}

ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64)

static char fence;
void __tsan_atomic_thread_fence(int order)
{
	point();
	auto o = object(&fence);
	if (acquires(order)) {
		acquire(o);
	}
	if (releases(order)) {
		release(o);
	}
}
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, void const*, size_t);
void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, void const* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, void const* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }

static int printed(char* b, size_t n, int r, uint64_t pc)
{
	if (n > 0 && r >= 0) {
		access(b, size_t(r) < n ? r + 1 : n, true, pc);
	}
	return r;
}

int __wrap_snprintf(char* b, size_t n, char const* f, ...)
{
	va_list ap;
	va_start(ap, f);
	int const r = vsnprintf(b, n, f, ap);
	va_end(ap);
	return printed(b, n, r, PC);
}

int __wrap_sprintf(char* b, char const* f, ...)
{
	va_list ap;
	va_start(ap, f);
	int const r = vsprintf(b, f, ap);
	va_end(ap);
	return printed(b, SIZE_MAX, r, PC);
}

int __real_vsnprintf(char*, size_t, char const*, va_list);
int __wrap_vsnprintf(char* b, size_t n, char const* f, va_list ap) { return printed(b, n, __real_vsnprintf(b, n, f, ap), PC); }
size_t __real_strlen(char const*);
size_t __wrap_strlen(char const* s) { auto const n = __real_strlen(s); access(s, n + 1, false, PC); return n; }
char* __real_strcpy(char*, char const*);
char* __wrap_strcpy(char* d, char const* s) { auto const n = __real_strlen(s); access(s, n + 1, false, PC); access(d, n + 1, true, PC); return __real_strcpy(d, s); }
char* __real_strncpy(char*, char const*, size_t);
char* __wrap_strncpy(char* d, char const* s, size_t n) { access(d, n, true, PC); return __real_strncpy(d, s, n); }
int __real_memcmp(void const*, void const*, size_t);
int __wrap_memcmp(void const* a, void const* b, size_t n) { access(a, n, false, PC); access(b, n, false, PC); return __real_memcmp(a, b, n); }
size_t __real_strftime(char*, size_t, char const*, struct tm const*);
size_t __wrap_strftime(char* b, size_t n, char const* f, struct tm const* t)
{
	access(t, sizeof(*t), false, PC);
	auto const r = __real_strftime(b, n, f, t);
	access(b, r + 1, true, PC);
	return r;
}

}

void* operator new(size_t n)
{
	void* p = allocate(n, PC);
	if (!p) {
		throw std::bad_alloc();
	}
	return p;
}

void* operator new[](size_t n)
{
	void* p = allocate(n, PC);
	if (!p) {
		throw std::bad_alloc();
	}
	return p;
}

void* operator new(size_t n, std::nothrow_t const&) noexcept { return allocate(n, PC); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return allocate(n, PC); }
void operator delete(void* p) noexcept { deallocate(p, PC); }
void operator delete[](void* p) noexcept { deallocate(p, PC); }
void operator delete(void* p, size_t) noexcept { deallocate(p, PC); }
void operator delete[](void* p, size_t) noexcept { deallocate(p, PC); }

/* Exploration */

void sched::violation(char const* f, ...)
{
	char b[1500];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof(b), f, ap);
	va_end(ap);
	violated(0, 0, "%s", b);
}

void sched::outcome(std::string const& o)
{
	size_t const n = strlen(report->outcome);
	snprintf(report->outcome + n, sizeof(report->outcome) - n, "%s;", o.c_str());
}

static void execute(sched::Scenario const& s, std::vector<int> const& schedule)
{
	memset(report, 0, offsetof(Report, point));
	fflush(stdout);
	pid_t const pid = fork();
	if (pid < 0) {
		printf("cannot fork\n");
		fflush(stdout);
		_exit(77);
	}
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		/* a child that gets nowhere: nothing here should take more than a moment */
		alarm(20);
		in_child = true;
		prefix = &schedule;
		fail_thread = s.fail_thread;
		fail_allocation = s.fail_allocation;
		if (s.setup) {
			s.setup();
		}
		n_threads = s.threads.size();
		sem_init(&all_done, 0, 0);
		auto create = real<int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*)>("pthread_create");
		for (int i = 0; i < n_threads; ++i) {
			auto& t = threads[i];
			sem_init(&t.go, 0, 0);
			t.body = &s.threads[i];
			t.clock.t[i] = 1;
			if (create(&t.id, nullptr, thread_main, reinterpret_cast<void*>(intptr_t(i))) != 0) {
				_exit(77);
			}
		}
		running = true;
		choose(-1, true);
		while (sem_wait(&all_done) < 0) {}
		running = false;
		if (s.finish) {
			s.finish();
		}
		report->done = 1;
		_exit(0);
	}
	int status;
	while (waitpid(pid, &status, 0) < 0) {}
	if (report->violated) {
		return;
	}
	if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
		printf("cannot start threads\n");
		fflush(stdout);
		_exit(77);
	}
	if (!report->done) {
		report->violated = 1;
		if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) {
			snprintf(report->message, sizeof(report->message), "the threads do not finish");
		} else {
			snprintf(report->message, sizeof(report->message), "the process ended (status %x)", status);
		}
	}
}

static std::string where(uint64_t pc)
{
	if (!pc) {
		return "";
	}
	Dl_info info;
	if (!dladdr(reinterpret_cast<void*>(pc), &info)) {
		return "";
	}
	char cmd[512];
	snprintf(cmd, sizeof(cmd), "addr2line -C -f -s -e /proc/%d/exe 0x%llx 2>/dev/null", getpid(), (unsigned long long) (pc - 1 - reinterpret_cast<uint64_t>(info.dli_fbase)));
	std::string out;
	if (FILE* f = popen(cmd, "r")) {
		char b[300];
		while (fgets(b, sizeof(b), f)) {
			b[strcspn(b, "\n")] = 0;
			out += (out.empty() ? "" : " ") + std::string(b);
		}
		pclose(f);
	}
	return out;
}

sched::Summary sched::explore(
	Scenario const& s, int preemptions, std::function<bool (std::string const&)> on_schedule, std::function<void (std::string const&)> on_outcome, std::string const& only
	)
{
	if (!report) {
		report = static_cast<Report*>(mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	}
	Summary summary;
	std::vector<std::vector<int>> todo = { {} };
	auto name = [](std::vector<int> const& v) {
		std::string n;
		for (auto i: v) {
			n += char('0' + i);
		}
		return n.empty() ? std::string("-") : n;
	};
	if (!only.empty()) {
		todo[0].clear();
		for (auto c: only) {
			if (c != '-') {
				todo[0].push_back(c - '0');
			}
		}
	}
	while (!todo.empty()) {
		auto const schedule = todo.back();
		todo.pop_back();
		if (on_schedule(name(schedule)) || only.empty()) {
			execute(s, schedule);
		} else {
			continue;
		}
		++summary.executions;
		summary.points += report->points;
		summary.accesses += report->accesses;
		int64_t allocations = 0;
		for (auto i: report->allocations) {
			allocations = std::max(allocations, i);
		}
		summary.allocations = std::max(summary.allocations, allocations);
		if (report->violated) {
			summary.violation = report->message;
			for (int i = 0; i < 2; ++i) {
				auto const w = where(report->pcs[i]);
				if (!w.empty()) {
					summary.violation += (i ? "; before that, " : ", in ") + w;
				}
			}
			summary.schedule = name(schedule);
			return summary;
		}
		on_outcome(report->outcome);
		if (!only.empty()) {
			continue;
		}
		int used = 0;
		for (int i = 0; i < report->points; ++i) {
			auto const& p = report->point[i];
			if (i >= int(schedule.size())) {
				for (int t = 0; t < MAX_THREADS; ++t) {
					if ((p.enabled & (1 << t)) && t != p.chosen) {
						int const cost = (p.free || t == p.running) ? 0 : 1;
						if (used + cost <= preemptions) {
							std::vector<int> next;
							for (int j = 0; j < i; ++j) {
								next.push_back(report->point[j].chosen);
							}
							next.push_back(t);
							todo.push_back(next);
						}
					}
				}
			}
			if (!p.free && p.chosen != p.running) {
				++used;
				++summary.switches;
			}
		}
	}
	return summary;
}
