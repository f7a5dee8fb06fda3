// A deterministic simulation of threads and time, used where the code under test has threads, clocks and sleeps.
//
// While a World is active, the threads of the case run one at a time.  Every call that can block or be observed by another
// thread (mutexes, condition variables, sleeps, clocks, join, the faked system calls) is a point where the generated
// schedule may switch to another thread.  Time is virtual: it moves by a small cost per call, and jumps to the next
// deadline when every thread waits.  When nothing can ever run again, the case fails as a hang at once.
//
// The functions of libc and libstdc++ are replaced by definitions in this program, so neither the code under test nor
// its text is touched.  Threads that do not belong to a World get the real functions.  Of several units, unit 0 defines them.
#pragma once

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>

#include "pbt.h"

namespace sim {

	using ns_t = std::int64_t;
	constexpr ns_t US = 1000;
	constexpr ns_t MS = 1000 * US;
	constexpr ns_t SEC = 1000 * MS;

	enum class State { ready, sleeping, on_mutex, on_cond, on_join, done };

	struct Thr {
		int id = 0;
		State state = State::ready;
		const void* object = nullptr;		// what it waits for
		ns_t wake = -1;						// deadline, -1 for none
		bool timed_out = false;
		pthread_t handle{};
		std::atomic<int> go{ 0 };
	};

	class World;
	inline World*& world() {
		static World* w = nullptr;
		return w;
	}
	inline Thr*& self() {
		static thread_local Thr* t = nullptr;
		return t;
	}

	[[noreturn]] inline void die(const std::string& msg) {
		pbt::Shared* s = pbt::shared();
		if (s != nullptr) {
			strncpy(s->message, msg.c_str(), sizeof(s->message) - 1);
			s->failed = 1;
		}
		if (getenv("PBT_TRACE") != nullptr) {
			fprintf(stderr, "%s\n", msg.c_str());
		}
		_exit(1);
	}

	class World {
	public:
		pbt::Src& src;
		ns_t now = 1000 * SEC;
		ns_t clock_cost = 20;
		ns_t mutex_cost = 10;
		unsigned preempt = 4;				// 1 of so many points switches; 0 = only when a thread blocks
		ns_t oversleep = 0;					// sleeps end up to this much late
		ns_t start_delay = 0;				// threads begin up to this much late
		std::vector<std::unique_ptr<Thr>> threads;
		std::uint64_t switches = 0;
		std::uint64_t points = 0;
		std::uint64_t limit = 20000000;

		World(pbt::Src& s)
			: src(s) {
			threads.emplace_back(new Thr());
			world() = this;
			self() = threads[0].get();
		}
		~World() {
			self() = nullptr;
			world() = nullptr;
		}

		bool all_done() const {
			for (std::size_t i = 1; i < threads.size(); i++) {
				if (threads[i]->state != State::done) {
					return false;
				}
			}
			return true;
		}

		void wake_due() {
			for (auto& t : threads) {
				if (t->wake >= 0 && t->wake <= now && (t->state == State::sleeping || t->state == State::on_cond)) {
					t->timed_out = true;
					t->state = State::ready;
					t->wake = -1;
				}
			}
		}

		// Chooses the thread to run; the current one first.
		Thr* choose(Thr* me, bool may_stay) {
			for (;;) {
				std::vector<Thr*> ready;
				if (may_stay && me->state == State::ready) {
					ready.push_back(me);
				}
				for (auto& t : threads) {
					if (t.get() != me && t->state == State::ready) {
						ready.push_back(t.get());
					}
				}
				if (!may_stay && ready.empty() && me->state == State::ready) {
					return me;
				}
				if (!ready.empty()) {
					return ready.size() == 1 ? ready[0] : ready[src.draw(ready.size())];
				}
				ns_t next = -1;
				for (auto& t : threads) {
					if ((t->state == State::sleeping || t->state == State::on_cond) && t->wake >= 0 && (next < 0 || t->wake < next)) {
						next = t->wake;
					}
				}
				if (next < 0) {
					std::string who;
					for (auto& t : threads) {
						if (t->state != State::done) {
							who += pbt::fmt("%s thread %d %s", who.empty() ? "" : ",", t->id, t->state == State::on_mutex ? "waits for a mutex" : t->state == State::on_cond ? "waits to be notified" : "waits for a thread to end");
						}
					}
					die("the program hangs forever:" + who + (threads[0]->state == State::on_join ? " (thread 0 is the caller)" : ""));
				}
				now = std::max(now, next);
				wake_due();
			}
		}

		void run(Thr* me, Thr* next) {
			if (me == next) {
				return;
			}
			switches++;
			next->go.store(1, std::memory_order_release);
			syscall(SYS_futex, &next->go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
			if (me->state != State::done) {
				wait_turn(me);
			}
		}

		static void wait_turn(Thr* me) {
			while (me->go.load(std::memory_order_acquire) == 0) {
				syscall(SYS_futex, &me->go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
			}
			me->go.store(0, std::memory_order_relaxed);
		}

		// A point where another thread may run.
		void point(ns_t cost) {
			Thr* me = self();
			now += cost;
			wake_due();
			if (++points > limit) {
				die("the operation did not terminate (too many steps)");
			}
			if (preempt != 0 && threads.size() > 1) {
				bool others = false;
				for (auto& t : threads) {
					others = others || (t.get() != me && t->state == State::ready);
				}
				if (others && src.chance(1, preempt)) {
					run(me, choose(me, false));
				}
			}
		}

		// Returns true when the deadline ended the wait.
		bool block(State st, const void* object, ns_t wake) {
			Thr* me = self();
			me->state = st;
			me->object = object;
			me->wake = wake;
			me->timed_out = false;
			if (++points > limit) {
				die("the operation did not terminate (too many steps)");
			}
			wake_due();
			run(me, choose(me, true));
			me->object = nullptr;
			return me->timed_out;
		}

		void release(State st, const void* object, bool one) {
			std::vector<Thr*> w;
			for (auto& t : threads) {
				if (t->state == st && t->object == object) {
					w.push_back(t.get());
				}
			}
			if (one && w.size() > 1) {
				Thr* t = w[src.draw(w.size())];
				w.assign(1, t);
			}
			for (Thr* t : w) {
				t->state = State::ready;
				t->wake = -1;
			}
		}

		void sleep(ns_t d) {
			if (d < 0) {
				d = 0;
			}
			if (oversleep > 0) {
				d += (ns_t)src.draw((std::uint64_t)oversleep + 1);
			}
			block(State::sleeping, nullptr, now + d);
		}
	};

	inline bool in_world() {
		return self() != nullptr && world() != nullptr;
	}

	template <typename F>
	inline F real(const char* name) {
		return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
	}

	// The case's own sleep.
	inline void sleep_ns(ns_t d) {
		world()->block(State::sleeping, nullptr, world()->now + d);
	}

	struct Started {
		std::function<void()> body;
		Thr* thr;
	};
	inline void* thread_main(void* arg) {
		Started* s = static_cast<Started*>(arg);
		std::function<void()> body = std::move(s->body);
		Thr* me = s->thr;
		delete s;
		if (me == nullptr) {
			body();
			return nullptr;
		}
		self() = me;
		World::wait_turn(me);
		body();
		body = nullptr;
		World* w = world();
		me->state = State::done;
		w->release(State::on_join, me, false);
		Thr* next = w->choose(me, false);
		self() = nullptr;
		w->switches++;
		// From here on the World may be gone, unless this thread is joined.
		std::atomic<int>* go = &next->go;
		go->store(1, std::memory_order_release);
		syscall(SYS_futex, go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
		return nullptr;
	}
}

// ---------------------------------------------------------------- replaced library functions

#if !defined(PART) || PART == 0

void std::thread::_M_start_thread(_State_ptr state, void (*)()) {
	std::shared_ptr<_State> shared(std::move(state));
	auto* s = new sim::Started{ [shared] { shared->_M_run(); }, nullptr };
	shared.reset();
	sim::World* w = sim::in_world() ? sim::world() : nullptr;
	if (w != nullptr) {
		w->threads.emplace_back(new sim::Thr());
		s->thr = w->threads.back().get();
		s->thr->id = (int)w->threads.size() - 1;
		if (w->start_delay > 0) {
			s->thr->state = sim::State::sleeping;
			s->thr->wake = w->now + (sim::ns_t)w->src.draw((std::uint64_t)w->start_delay + 1);
		}
	}
	sim::Thr* thr = s->thr;
	pthread_t h;
	if (pthread_create(&h, nullptr, sim::thread_main, s) != 0) {
		abort();
	}
	if (thr != nullptr) {
		thr->handle = h;
	}
	_M_id = id(h);
	if (w != nullptr) {
		w->point(0);
	}
}

void std::thread::join() {
	if (_M_id == id()) {
		std::__throw_system_error(EINVAL);
	}
	pthread_t h = _M_id._M_thread;
	if (sim::in_world()) {
		sim::World* w = sim::world();
		for (auto& t : w->threads) {
			if (t->id != 0 && pthread_equal(t->handle, h)) {
				w->point(0);
				while (t->state != sim::State::done) {
					w->block(sim::State::on_join, t.get(), -1);
				}
				t->handle = pthread_t{};
				break;
			}
		}
	}
	pthread_join(h, nullptr);
	_M_id = id();
}

extern "C" {

	int clock_gettime(clockid_t id, struct timespec* ts) {
		if (sim::in_world()) {
			sim::World* w = sim::world();
			w->point(w->clock_cost);
			sim::ns_t t = w->now + (id == CLOCK_REALTIME ? 1700000000ll * sim::SEC : 0);
			ts->tv_sec = t / sim::SEC;
			ts->tv_nsec = t % sim::SEC;
			return 0;
		}
		return (int)syscall(SYS_clock_gettime, id, ts);
	}

	int nanosleep(const struct timespec* req, struct timespec* rem) {
		if (sim::in_world()) {
			sim::world()->sleep(req->tv_sec * sim::SEC + req->tv_nsec);
			return 0;
		}
		return (int)syscall(SYS_nanosleep, req, rem);
	}

	int clock_nanosleep(clockid_t id, int flags, const struct timespec* req, struct timespec* rem) {
		if (sim::in_world()) {
			sim::World* w = sim::world();
			sim::ns_t t = req->tv_sec * sim::SEC + req->tv_nsec;
			if (flags & TIMER_ABSTIME) {
				t -= w->now + (id == CLOCK_REALTIME ? 1700000000ll * sim::SEC : 0);
			}
			w->sleep(t);
			return 0;
		}
		return syscall(SYS_clock_nanosleep, id, flags, req, rem) == 0 ? 0 : errno;
	}

	int sched_yield() {
		if (sim::in_world()) {
			sim::World* w = sim::world();
			w->now += 100;
			w->wake_due();
			w->run(sim::self(), w->choose(sim::self(), false));
			return 0;
		}
		return (int)syscall(SYS_sched_yield);
	}

	int pthread_mutex_trylock(pthread_mutex_t* m) {
		static auto f = sim::real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
		return f(m);
	}

	int pthread_mutex_lock(pthread_mutex_t* m) {
		static auto f = sim::real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
		if (sim::in_world()) {
			sim::World* w = sim::world();
			w->point(w->mutex_cost);
			int r;
			while ((r = pthread_mutex_trylock(m)) == EBUSY) {
				w->block(sim::State::on_mutex, m, -1);
			}
			return r;
		}
		return f(m);
	}

	int pthread_mutex_unlock(pthread_mutex_t* m) {
		static auto f = sim::real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
		int r = f(m);
		if (sim::in_world()) {
			sim::World* w = sim::world();
			w->release(sim::State::on_mutex, m, false);
			w->point(w->mutex_cost);
		}
		return r;
	}

	static int sim_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, sim::ns_t wake) {
		sim::World* w = sim::world();
		static auto unlock = sim::real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
		w->point(w->mutex_cost);
		// Unlock and wait are one step.
		unlock(m);
		w->release(sim::State::on_mutex, m, false);
		bool timed_out = w->block(sim::State::on_cond, c, wake);
		pthread_mutex_lock(m);
		return timed_out ? ETIMEDOUT : 0;
	}

	int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
		static auto f = sim::real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
		return sim::in_world() ? sim_cond_wait(c, m, -1) : f(c, m);
	}

	int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* abs) {
		static auto f = sim::real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
		if (sim::in_world()) {
			sim::ns_t t = abs->tv_sec * sim::SEC + abs->tv_nsec - (id == CLOCK_REALTIME ? 1700000000ll * sim::SEC : 0);
			return sim_cond_wait(c, m, std::max<sim::ns_t>(t, 0));
		}
		return f(c, m, id, abs);
	}

	int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abs) {
		static auto f = sim::real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
		if (sim::in_world()) {
			return pthread_cond_clockwait(c, m, CLOCK_REALTIME, abs);
		}
		return f(c, m, abs);
	}

	int pthread_cond_signal(pthread_cond_t* c) {
		static auto f = sim::real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
		if (sim::in_world()) {
			sim::World* w = sim::world();
			w->point(w->mutex_cost);
			w->release(sim::State::on_cond, c, true);
			w->point(0);
			return 0;
		}
		return f(c);
	}

	int pthread_cond_broadcast(pthread_cond_t* c) {
		static auto f = sim::real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
		if (sim::in_world()) {
			sim::World* w = sim::world();
			w->point(w->mutex_cost);
			w->release(sim::State::on_cond, c, false);
			w->point(0);
			return 0;
		}
		return f(c);
	}
}

#endif
