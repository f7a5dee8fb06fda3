// C26, C27, C28, C29: GPIO chips and lines, SMBus transfers, peripherals and background threads, over simulated devices,
// threads and time (sim.h, fakedev.h).
#include "pbt.h"
#include "sim.h"
#include "fakedev.h"

#include <cmath>
#include <sstream>

#include "log.h"
#include "gpio.h"

using pbt::Src;
using sim::MS;
using sim::SEC;
using sim::US;
using sim::World;

using Log = abc::log_ostream<abc::debug_line_ostream<>, abc::log_filter>;

// A log whose text goes nowhere, or none at all.
struct Logs {
	struct Null : std::streambuf {
		int overflow(int c) override { return c == EOF ? 0 : c; }
		std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
	} null;
	abc::log_filter filter{ abc::severity::abc::debug };
	std::unique_ptr<Log> log;
	explicit Logs(Src& src) {
		if (src.chance(1, 3)) {
			log.reset(new Log(&null, &filter));
			src.note("with a log");
		}
	}
	Log* get() { return log.get(); }
};

// Runs f and returns the message of what it threw, or "".
template <typename F>
static std::string thrown(F&& f) {
	try {
		f();
	}
	catch (const pbt::Failure&) {
		throw;
	}
	catch (const std::exception& e) {
		return std::string("threw ") + e.what();
	}
	return "";
}

// ---------------------------------------------------------------- C26

struct Timeline {
	// The level changes at these moments, starting with first.
	unsigned first = 0;
	std::vector<sim::ns_t> at;
	unsigned operator()(sim::ns_t t) const {
		unsigned v = first;
		for (sim::ns_t a : at) {
			if (t >= a) {
				v ^= 1;
			}
		}
		return v;
	}
	// The first moment not before t when the level is v, or -1.
	sim::ns_t next(sim::ns_t t, unsigned v) const {
		if ((*this)(t) == v) {
			return t;
		}
		for (sim::ns_t a : at) {
			if (a > t && (*this)(a) == v) {
				return a;
			}
		}
		return -1;
	}
};

static std::string gen_text(Src& src, std::size_t max) {
	std::string s;
	std::size_t n = src.len(max);
	for (std::size_t i = 0; i < n; i++) {
		s += (char)('a' + src.draw(26));
	}
	return s;
}

static dev::Chip make_chip(Src& src, const std::string& path) {
	dev::Chip c;
	c.path = path;
	c.name = gen_text(src, 31);
	c.label = gen_text(src, 31);
	c.lines.resize(1 + src.len(60));
	for (auto& l : c.lines) {
		if (src.chance(1, 8)) {
			l.name = gen_text(src, 31);
		}
		if (src.chance(1, 8)) {
			l.flags = src.draw(1 << 11) & ~(std::uint64_t)GPIO_V2_LINE_FLAG_USED;
		}
	}
	return c;
}

struct LineModel {
	std::unique_ptr<abc::gpio_line<Log>> line;
	std::unique_ptr<abc::gpio_input_line<Log>> input;
	std::unique_ptr<abc::gpio_output_line<Log>> output;
	dev::Chip* chip = nullptr;
	unsigned pos = 0;
	bool is_output = false;
	Timeline time;
};

template <typename Duration>
static void expect_case(Src& src, World& w, dev::Bench& b, const abc::gpio_line<Log>& line, const Timeline& tl, bool is_output, unsigned out_level) {
	using std::chrono::duration_cast;
	std::int64_t unit = duration_cast<std::chrono::nanoseconds>(Duration(1)).count();
	std::int64_t n = src.range(0, unit >= MS ? 5 : unit >= US ? 5000 : 500000);
	unsigned want = (unsigned)src.draw(2);
	bool broken = src.chance(1, 8);
	b.fail_all_ioctl = broken;
	// A slow device, so that there are at most a few thousand samples.
	sim::ns_t usual_cost = b.ioctl_cost;
	b.ioctl_cost = std::max<sim::ns_t>(usual_cost, n * unit / 2000);
	sim::ns_t t0 = w.now;
	abc::gpio_level_t got = line.expect_level((abc::gpio_level_t)want, Duration(n));
	sim::ns_t t1 = w.now;
	b.fail_all_ioctl = false;
	sim::ns_t timeout = n * unit;
	struct Restore {
		dev::Bench& b;
		sim::ns_t cost;
		~Restore() { b.ioctl_cost = cost; }
	} restore{ b, usual_cost };
	// A sample takes this long, and the time may be rounded to the unit.
	sim::ns_t slack = unit + 20 * (w.clock_cost + b.ioctl_cost);
	src.note(pbt::fmt("expect_level(%u, %lld ns) = %u after %lld ns", want, (long long)timeout, (unsigned)got, (long long)(t1 - t0)));
	CHECK(got == want || got == abc::gpio_level::invalid, "expect_level(%u) returned %u", want, (unsigned)got);
	CHECK(t1 - t0 <= timeout + slack, "expect_level() with a timeout of %lld ns returned after %lld ns", (long long)timeout, (long long)(t1 - t0));
	if (got == want) {
		CHECK(!broken, "expect_level() succeeded although the level couldn't be read");
		bool seen = is_output ? out_level == want : tl.next(t0, want) >= 0 && tl.next(t0, want) <= t1;
		CHECK(seen, "expect_level(%u) succeeded although the line never had that level", want);
		if (!is_output) {
			CHECK(t1 - std::max(t0, tl.next(t0, want)) <= 20 * (w.clock_cost + b.ioctl_cost) || tl.at.size() > 1, "expect_level() noticed the level %lld ns late", (long long)(t1 - tl.next(t0, want)));
		}
		if (t1 - t0 > 0) {
			src.label("expected level came");
		}
	}
	else {
		CHECK(t1 - t0 >= timeout, "expect_level() with a timeout of %lld ns gave up after %lld ns", (long long)timeout, (long long)(t1 - t0));
		if (!broken) {
			// The level must not have lasted for longer than the distance between samples within the timeout.
			sim::ns_t grain = 20 * (w.clock_cost + b.ioctl_cost);
			if (is_output) {
				CHECK(out_level != want, "expect_level(%u) timed out although the line has that level", want);
			}
			else {
				for (sim::ns_t t = tl.next(t0, want); t >= 0 && t + grain < t0 + timeout;) {
					sim::ns_t end = tl.next(t, want ^ 1);
					CHECK(end >= 0 && end - t <= grain, "expect_level(%u) timed out although the line had that level for %lld ns", want, (long long)((end < 0 ? t1 : end) - t));
					t = tl.next(end, want);
				}
			}
		}
		src.label("expected level timed out");
	}
}

template <typename Duration>
static void put_for_case(Src& src, World& w, dev::Bench& b, const abc::gpio_line<Log>& line, dev::Line& l, bool is_output) {
	std::int64_t unit = std::chrono::duration_cast<std::chrono::nanoseconds>(Duration(1)).count();
	std::int64_t n = src.range(0, unit >= MS ? 5 : 5000);
	unsigned level = (unsigned)src.draw(2);
	bool broken = src.chance(1, 8);
	b.fail_ioctl = broken;
	sim::ns_t t0 = w.now;
	std::size_t before = l.trace.size();
	abc::gpio_level_t got = line.put_level((abc::gpio_level_t)level, Duration(n));
	b.fail_ioctl = 0;
	src.note(pbt::fmt("put_level(%u, %lld ns) = %u", level, (long long)(n * unit), (unsigned)got));
	if (broken || !is_output) {
		CHECK(got == abc::gpio_level::invalid, "put_level() reported success although the level couldn't be set");
	}
	else {
		CHECK(got == level, "put_level(%u, duration) returned %u", level, (unsigned)got);
		CHECK(l.trace.size() == before + 1 && l.trace.back().second == level, "put_level(%u, duration) put %zu levels", level, l.trace.size() - before);
		CHECK(w.now - l.trace.back().first >= n * unit, "put_level() held the level for %lld ns instead of %lld ns", (long long)(w.now - l.trace.back().first), (long long)(n * unit));
		CHECK(w.now - t0 <= n * unit + 20 * (w.clock_cost + b.ioctl_cost), "put_level() took %lld ns instead of %lld ns", (long long)(w.now - t0), (long long)(n * unit));
	}
}

template <typename T, typename... A>
static std::unique_ptr<T> make(A&&... a) {
	return std::unique_ptr<T>(new T(std::forward<A>(a)...));
}

static void lines_case(Src& src) {
	World w(src);
	w.clock_cost = src.range(20, 2000);
	dev::Bench b;
	b.ioctl_cost = src.range(50, 5000);
	Logs logs(src);
	Log* log = logs.get();

	// The chips of the machine.
	std::size_t count = 1 + src.draw(3);
	std::vector<int> numbers;
	for (std::size_t i = 0; i < count; i++) {
		std::string path;
		if (src.chance(1, 3)) {
			path = "/dev/gpiochip" + gen_text(src, 24);
			numbers.push_back(-1);
		}
		else {
			int n = src.chance(1, 2) ? (int)i : (int)(i * 100000 + src.draw(100000));
			path = "/dev/gpiochip" + std::to_string(n);
			numbers.push_back(n);
		}
		bool dup = false;
		for (auto& c : b.chips) {
			dup = dup || c.path == path;
		}
		if (dup) {
			throw pbt::Discard{};
		}
		b.chips.push_back(make_chip(src, path));
	}

	struct ChipModel {
		std::unique_ptr<abc::gpio_chip<Log>> chip;
		dev::Chip* real;
		std::string consumer;
	};
	std::vector<ChipModel> chips;
	std::vector<LineModel> lines;
	std::size_t steps = 3 + src.len(40);
	std::size_t faults = 0, moves = 0;

	auto open_expected = [&] { return lines.size(); };

	for (std::size_t step = 0; step < steps; step++) {
		std::uint64_t op = chips.empty() ? 0 : src.draw(12);
		if (op == 0) {
			// A chip.
			std::size_t which = src.draw(b.chips.size());
			std::string consumer = gen_text(src, 40);
			if (src.chance(1, 6)) {
				consumer = std::string(src.range(30, 33), 'c');
			}
			std::string path = b.chips[which].path;
			bool missing = src.chance(1, 10);
			if (missing) {
				path = src.chance(1, 2) ? "/dev/gpiochip_none" : "/dev/gpiochip" + std::string(src.range(17, 30), 'x');
			}
			unsigned null = src.chance(1, 10) ? 1 + (unsigned)src.draw(2) : 0;
			bool broken = src.chance(1, 10);
			bool by_number = !missing && numbers[which] >= 0 && src.chance(1, 2);
			src.note(pbt::fmt("chip(%s%s, consumer of %zu)%s%s", by_number ? "number of " : "", path.c_str(), consumer.size(), null ? pbt::fmt(" null argument %u", null).c_str() : "", broken ? " open fails" : ""));
			std::unique_ptr<abc::gpio_chip<Log>> chip;
			const char* cons = null == 2 ? nullptr : consumer.c_str();
			b.fail_open = broken;
			std::string ex = thrown([&] {
				if (by_number) {
					chip = make<abc::gpio_chip<Log>>(numbers[which], cons, log);
				}
				else {
					chip = make<abc::gpio_chip<Log>>(null == 1 ? (const char*)nullptr : path.c_str(), cons, log);
				}
			});
			bool reached = b.fail_open == 0;
			b.fail_open = 0;
			bool bad = missing || (null == 1 && !by_number) || null == 2 || path.size() >= 32 || consumer.size() >= 32;
			if (bad || broken) {
				CHECK(chip == nullptr, "a chip was made although %s", missing ? "the device doesn't exist" : broken ? "the device can't be opened" : "an argument is invalid");
				CHECK(bad || reached, "an error was reported without an attempt to open the device");
				faults++;
			}
			else {
				CHECK(chip != nullptr, "a valid chip %s", ex.c_str());
				CHECK(chip->path() == path, "path() is %s instead of %s", pbt::quote(chip->path()).c_str(), path.c_str());
				CHECK(chip->consumer() == consumer, "consumer() is %s instead of %s", pbt::quote(chip->consumer()).c_str(), consumer.c_str());
				if (src.chance(1, 4)) {
					abc::gpio_chip<Log> moved(std::move(*chip));
					CHECK(moved.path() == path && moved.consumer() == consumer, "a moved chip has path %s and consumer %s", pbt::quote(moved.path()).c_str(), pbt::quote(moved.consumer()).c_str());
					auto again = make<abc::gpio_chip<Log>>(std::move(moved));
					chip = std::move(again);
				}
				chips.push_back({ std::move(chip), &b.chips[which], consumer });
			}
		}
		else if (op == 1) {
			auto& c = chips[src.draw(chips.size())];
			bool fo = src.chance(1, 6), fi = !fo && src.chance(1, 6);
			b.fail_open = fo;
			b.fail_ioctl = fi;
			abc::gpio_chip_info info = c.chip->chip_info();
			b.fail_open = b.fail_ioctl = 0;
			src.note(pbt::fmt("chip_info() valid=%d", info.is_valid));
			CHECK(info.is_valid == !(fo || fi), "chip_info().is_valid is %d although the request %s", info.is_valid, fo || fi ? "failed" : "succeeded");
			if (info.is_valid) {
				CHECK(info.name == c.real->name && info.label == c.real->label && info.lines == c.real->lines.size(), "chip_info() isn't that of the chip");
			}
		}
		else if (op == 2) {
			auto& c = chips[src.draw(chips.size())];
			unsigned pos = src.chance(1, 8) ? (unsigned)(c.real->lines.size() + src.draw(3)) : (unsigned)src.draw(c.real->lines.size());
			bool fo = src.chance(1, 6), fi = !fo && src.chance(1, 6);
			b.fail_open = fo;
			b.fail_ioctl = fi;
			abc::gpio_line_info info = c.chip->line_info(pos);
			b.fail_open = b.fail_ioctl = 0;
			src.note(pbt::fmt("line_info(%u) valid=%d", pos, info.is_valid));
			bool ok = !fo && !fi && pos < c.real->lines.size();
			CHECK(info.is_valid == ok, "line_info(%u).is_valid is %d although the request %s", pos, info.is_valid, ok ? "succeeded" : "failed");
			if (ok) {
				dev::Line& l = c.real->lines[pos];
				CHECK(info.offset == pos && info.name == l.name && info.consumer == l.consumer && info.flags == l.flags, "line_info(%u) isn't that of the line: offset %u name %s consumer %s flags %llx", pos, info.offset, info.name, info.consumer, (unsigned long long)info.flags);
			}
		}
		else if (op <= 5 || lines.empty()) {
			// A line.
			auto& c = chips[src.draw(chips.size())];
			unsigned pos = src.chance(1, 8) ? (unsigned)(c.real->lines.size() + src.draw(3)) : (unsigned)src.draw(c.real->lines.size());
			unsigned kind = (unsigned)src.draw(3);
			unsigned fault = src.chance(1, 5) ? 1 + (unsigned)src.draw(3) : 0;
			bool null = src.chance(1, 20);
			bool out = kind == 1 || (kind == 2 && src.chance(1, 2));
			std::uint64_t flags = out ? abc::gpio_line_flag::output : abc::gpio_line_flag::input;
			if (kind == 2) {
				flags |= (src.chance(1, 3) ? abc::gpio_line_flag::active_low : 0) | (out && src.chance(1, 3) ? abc::gpio_line_flag::open_drain : 0);
			}
			bool ok = !null && fault == 0 && pos < c.real->lines.size() && c.real->lines[pos].fd < 0;
			LineModel m;
			m.chip = c.real;
			m.pos = pos;
			m.is_output = out;
			m.time.first = (unsigned)src.draw(2);
			sim::ns_t t = w.now;
			for (std::size_t i = 0, n = src.len(10); i < n; i++) {
				t += src.chance(1, 2) ? src.range(1, 5 * MS) : src.range(1, 20 * US);
				m.time.at.push_back(t);
			}
			if (pos < c.real->lines.size() && c.real->lines[pos].fd < 0) {
				c.real->lines[pos].input = m.time;
				c.real->lines[pos].level = 0;
			}
			src.note(pbt::fmt("line(%u, %s)%s", pos, out ? "output" : "input", fault ? pbt::fmt(" fault %u", fault).c_str() : ""));
			const abc::gpio_chip<Log>* chip = null ? nullptr : c.chip.get();
			b.fail_open = fault == 1;
			b.fail_ioctl = fault == 2;
			b.fail_close = fault == 3;
			std::string ex = thrown([&] {
				switch (kind) {
					case 0: m.input = make<abc::gpio_input_line<Log>>(chip, pos, log); break;
					case 1: m.output = make<abc::gpio_output_line<Log>>(chip, pos, log); break;
					default: m.line = make<abc::gpio_line<Log>>(chip, pos, flags, log); break;
				}
			});
			bool made = m.input || m.output || m.line;
			if (kind == 0 && !made) {
				m.is_output = false;
			}
			m.is_output = kind == 1 || (kind == 2 && out);
			bool close_only = fault == 3 && b.fail_close == 0 && !null && pos < c.real->lines.size() && made;
			b.fail_open = b.fail_ioctl = b.fail_close = 0;
			if (!ok && !close_only) {
				CHECK(!made, "a line was made although %s", null ? "there is no chip" : fault ? "the system refused it" : pos >= c.real->lines.size() ? "the chip has no such line" : "the line is in use");
				faults++;
			}
			else {
				CHECK(made, "a valid line %s", ex.c_str());
				b.check();
				dev::Line& l = c.real->lines[pos];
				CHECK(l.fd >= 0, "the line %u isn't held", pos);
				CHECK(l.consumer == c.consumer, "the line is held for %s instead of %s", pbt::quote(l.consumer).c_str(), pbt::quote(c.consumer).c_str());
				std::uint64_t expected = (kind == 0 ? GPIO_V2_LINE_FLAG_INPUT : kind == 1 ? GPIO_V2_LINE_FLAG_OUTPUT : flags) | GPIO_V2_LINE_FLAG_USED;
				CHECK(l.flags == expected, "the line was requested with flags %llx instead of %llx", (unsigned long long)l.flags, (unsigned long long)expected);
				lines.push_back(std::move(m));
			}
		}
		else if (op == 6) {
			// A line goes.
			std::size_t i = src.draw(lines.size());
			src.note(pbt::fmt("line %u goes", lines[i].pos));
			lines.erase(lines.begin() + i);
		}
		else if (op == 7) {
			// A line is moved.
			LineModel& m = lines[src.draw(lines.size())];
			src.note(pbt::fmt("line %u is moved", m.pos));
			if (m.line) {
				auto n = make<abc::gpio_line<Log>>(std::move(*m.line));
				m.line = std::move(n);
			}
			else if (m.input) {
				auto n = make<abc::gpio_input_line<Log>>(std::move(*m.input));
				m.input = std::move(n);
			}
			else {
				auto n = make<abc::gpio_output_line<Log>>(std::move(*m.output));
				m.output = std::move(n);
			}
			moves++;
		}
		else {
			LineModel& m = lines[src.draw(lines.size())];
			dev::Line& l = m.chip->lines[m.pos];
			const abc::gpio_line<Log>& base = m.line ? *m.line : m.input ? static_cast<const abc::gpio_line<Log>&>(*m.input) : static_cast<const abc::gpio_line<Log>&>(*m.output);
			std::uint64_t what = src.draw(4);
			if (what == 0) {
				bool broken = src.chance(1, 6);
				b.fail_ioctl = broken;
				sim::ns_t t0 = w.now;
				abc::gpio_level_t got = base.get_level();
				b.fail_ioctl = 0;
				unsigned at_start = m.is_output ? l.level : m.time(t0), at_end = m.is_output ? l.level : m.time(w.now);
				src.note(pbt::fmt("get_level(%u) = %u", m.pos, (unsigned)got));
				if (broken) {
					CHECK(got == abc::gpio_level::invalid, "get_level() returned %u although the level couldn't be read", (unsigned)got);
				}
				else {
					CHECK(got == at_start || got == at_end || (got <= 1 && m.time.at.size() > 1), "get_level() returned %u while the line has level %u", (unsigned)got, at_end);
				}
			}
			else if (what == 1) {
				bool broken = src.chance(1, 6);
				abc::gpio_level_t level = src.chance(1, 5) ? (abc::gpio_level_t)(src.chance(1, 2) ? 2 : 1u << src.draw(32)) : (abc::gpio_level_t)src.draw(2);
				b.fail_ioctl = broken;
				std::size_t before = l.trace.size();
				abc::gpio_level_t got = m.output ? m.output->abc::gpio_line<Log>::put_level(level) : base.put_level(level);
				b.fail_ioctl = 0;
				src.note(pbt::fmt("put_level(%u, %u) = %u", m.pos, (unsigned)level, (unsigned)got));
				bool ok = level <= 1 && !broken && m.is_output;
				CHECK(got == (ok ? level : abc::gpio_level::invalid), "put_level(%u) returned %u", (unsigned)level, (unsigned)got);
				CHECK(l.trace.size() == before + ok, "put_level(%u) set the line %zu times", (unsigned)level, l.trace.size() - before);
				CHECK(!ok || l.level == level, "put_level(%u) set level %u", (unsigned)level, l.level);
			}
			else if (what == 2) {
				switch (src.draw(4)) {
					case 0: expect_case<std::chrono::microseconds>(src, w, b, base, m.time, m.is_output, l.level); break;
					case 1: expect_case<std::chrono::milliseconds>(src, w, b, base, m.time, m.is_output, l.level); break;
					case 2: expect_case<std::chrono::nanoseconds>(src, w, b, base, m.time, m.is_output, l.level); break;
					default: expect_case<std::chrono::seconds>(src, w, b, base, m.time, m.is_output, l.level); break;
				}
			}
			else {
				if (src.chance(1, 2)) {
					put_for_case<std::chrono::microseconds>(src, w, b, base, l, m.is_output);
				}
				else {
					put_for_case<std::chrono::milliseconds>(src, w, b, base, l, m.is_output);
				}
			}
		}
		b.check();
		CHECK(b.open.size() == open_expected(), "%zu descriptors are open while there are %zu lines", b.open.size(), open_expected());
		for (auto& m : lines) {
			CHECK(m.chip->lines[m.pos].fd >= 0, "the line %u was released while it's in use", m.pos);
		}
	}
	lines.clear();
	chips.clear();
	b.check();
	CHECK(b.open.empty(), "%zu descriptors are still open in the end", b.open.size());
	if (steps >= 8 && (faults > 0 || moves > 0)) {
		src.nontrivial();
	}
	if (moves > 0) {
		src.label("lines moved");
	}
	if (faults > 0) {
		src.label("failures");
	}
}

template <typename Scale>
static void ultrasonic_case(Src& src) {
	World w(src);
	w.clock_cost = src.range(20, 1000);
	dev::Bench b;
	b.ioctl_cost = src.range(50, 2000);
	Logs logs(src);
	b.chips.push_back(make_chip(src, "/dev/gpiochip0"));
	b.chips[0].lines.resize(40);
	abc::gpio_chip<Log> chip(0, "vp", logs.get());
	std::size_t count = 1 + src.draw(2);
	struct Sensor {
		std::unique_ptr<abc::gpio_ultrasonic<Scale, Log>> u;
		unsigned trigger, echo;
	};
	std::vector<Sensor> sensors;
	// Where each echo line is: high between two moments after a trigger.
	static thread_local std::map<unsigned, Timeline> echoes;
	echoes.clear();
	for (std::size_t i = 0; i < count; i++) {
		Sensor s;
		s.trigger = (unsigned)(2 * i + 10 * src.draw(3));
		s.echo = s.trigger + 1;
		if (b.chips[0].lines[s.trigger].fd >= 0) {
			throw pbt::Discard{};
		}
		unsigned e = s.echo;
		b.chips[0].lines[e].input = [e](sim::ns_t t) { return echoes[e](t); };
		s.u = make<abc::gpio_ultrasonic<Scale, Log>>(&chip, s.trigger, s.echo, logs.get());
		CHECK((b.chips[0].lines[s.trigger].flags & GPIO_V2_LINE_FLAG_OUTPUT) != 0 && (b.chips[0].lines[s.echo].flags & GPIO_V2_LINE_FLAG_INPUT) != 0, "the lines of the sensor have the wrong direction");
		sensors.push_back(std::move(s));
	}
	const double unit = (double)Scale::num / Scale::den;		// meters
	std::size_t shots = 1 + src.draw(6);
	for (std::size_t k = 0; k < shots; k++) {
		Sensor& s = sensors[src.draw(count)];
		if (src.chance(1, 4)) {
			auto n = make<abc::gpio_ultrasonic<Scale, Log>>(std::move(*s.u));
			s.u = std::move(n);
		}
		double max_m = 0.05 + src.draw(500) / 100.0;
		std::size_t max = (std::size_t)(max_m / unit);
		if (max == 0) {
			throw pbt::Discard{};
		}
		double dist_m = src.chance(1, 5) ? -1 : src.draw(600) / 100.0;
		sim::ns_t delay = src.range(100, 700) * US;		// the sensor answers after this long
		sim::ns_t flight = (sim::ns_t)(dist_m * 2 / 343 * SEC);
		bool busy = src.chance(1, 4);							// an earlier echo is still in progress
		sim::ns_t busy_for = busy ? src.range(1, 3000) * US : 0;
		dev::Line& t = b.chips[0].lines[s.trigger];
		std::size_t before = t.trace.size();
		sim::ns_t shot = 0;
		unsigned echo = s.echo;
		echoes[echo] = Timeline{};
		sim::ns_t busy_until = w.now + busy_for;
		if (busy) {
			echoes[echo].first = 1;
			echoes[echo].at = { busy_until };
		}
		unsigned trig = s.trigger;
		std::vector<std::pair<sim::ns_t, unsigned>> pulses;
		b.on_put = [&](dev::Chip&, unsigned line, unsigned level) {
			if (line != trig) {
				return;
			}
			if (level == 0 && !pulses.empty() && pulses.back().second == 1 && w.now - pulses.back().first >= 10 * US && shot == 0) {
				shot = w.now;
				if (dist_m >= 0) {
					sim::ns_t start = std::max(shot, busy_until) + delay;
					echoes[echo].at.push_back(start + (busy ? 1 : 0));
					echoes[echo].at.push_back(start + 1 + flight);
				}
			}
			pulses.push_back({ w.now, level });
		};
		sim::ns_t t0 = w.now;
		std::size_t got = s.u->measure_distance(max);
		b.on_put = nullptr;
		b.check();
		src.note(pbt::fmt("measure_distance(%zu) = %zu, obstacle at %.2f m, delay %lld us, busy %lld us", max, got, dist_m, (long long)(delay / US), (long long)(busy_for / US)));
		CHECK(t.trace.size() > before, "measure_distance() sent no pulse");
		CHECK(shot != 0, "measure_distance() sent no pulse of at least 10 us");
		CHECK(t.level == 0, "the trigger line is left high");
		double timeout = 2 * (double)max * unit / 343 * SEC;
		double grain = 20.0 * (w.clock_cost + b.ioctl_cost) + 4 * US;
		CHECK(w.now - t0 <= timeout + 100 * US + 3 * grain, "measure_distance(%zu) took %.0f us, the sound travels twice that distance in %.0f us", max, (double)(w.now - t0) / US, timeout / US);
		double needed = (double)(std::max(shot, busy_until) - shot) + delay + flight;
		double expected = flight / 1e9 * 343 / 2 / unit;
		double tol = grain / 1e9 * 343 / unit + 1.5;
		if (dist_m < 0 || needed > timeout + grain) {
			CHECK(got == max || (double)got >= max - tol, "measure_distance(%zu) returned %zu although no echo came in time", max, got);
			src.label("no echo in time");
		}
		else if (flight > 2 * grain && needed < timeout - grain && (!busy || busy_until <= shot || busy_until - shot > grain)) {
			CHECK(std::fabs((double)got - expected) <= tol, "measure_distance(%zu) returned %zu instead of %.1f", max, got, expected);
			src.nontrivial();
			src.label("echo measured");
		}
		sim::sleep_ns(20 * MS);
	}
	sensors.clear();
	b.check();
	CHECK(b.open.empty(), "%zu descriptors are still open in the end", b.open.size());
}

static void c26(Src& src) {
	switch (src.draw(5)) {
		case 3: ultrasonic_case<std::centi>(src); break;
		case 4: ultrasonic_case<std::milli>(src); break;
		default: lines_case(src); break;
	}
}
static pbt::Reg r26("C26", 0, 0, "a history of at least 8 steps on chips and lines with at least one refused request, system failure or move, or an ultrasonic measurement whose echo arrives within the timeout", c26);

// ---------------------------------------------------------------- C27

using Smbus = abc::gpio_smbus<Log>;
using SmTarget = abc::gpio_smbus_target<Log>;

// What one operation on a target should do to the bus and return.
struct SmModel {
	unsigned addr;
	bool swap;
	dev::Target state;			// what the target should have
	bool present;
};

static std::uint16_t swapped(std::uint16_t w) {
	return (std::uint16_t)((w << 8) | (w >> 8));
}

static std::string gen_bytes(Src& src, std::size_t n) {
	std::string s;
	for (std::size_t i = 0; i < n; i++) {
		s += (char)src.draw(256);
	}
	return s;
}

// Does one operation and checks it.  fault: 0 for none, n for the n-th request to the system.
static void smbus_op(Src& src, dev::Bench& b, dev::Bus& bus, Smbus& smbus, SmModel& m, unsigned fault, bool alone) {
	SmTarget target(m.addr, 72000000, m.swap);
	unsigned op = (unsigned)src.draw(9);
	std::uint8_t reg = (std::uint8_t)(src.chance(1, 2) ? src.draw(4) : src.draw(256));
	int me = sim::self()->id;
	std::size_t mine_before = 0;
	for (auto& t : bus.log) {
		mine_before += t.thread == me;
	}
	std::vector<dev::Transfer> expected;
	auto add = [&](bool read, unsigned command, unsigned size, const std::string& data) {
		dev::Transfer t;
		t.addr = m.addr;
		t.read = read;
		t.command = command;
		t.size = size;
		t.data = data;
		expected.push_back(t);
	};
	bool got = false, want = m.present;
	std::string name, wrong;
	if (alone) {
		b.fail_ioctl = (int)fault;
	}
	dev::Target next = m.state;
	switch (op) {
		case 0:
			name = "put_nodata";
			add(false, reg, I2C_SMBUS_BYTE, "");
			got = smbus.put_nodata(target, reg);
			break;
		case 1: {
			name = "put_byte";
			std::uint8_t v = (std::uint8_t)src.draw(256);
			add(false, reg, I2C_SMBUS_BYTE_DATA, std::string(1, (char)v));
			next.bytes[reg] = v;
			got = smbus.put_byte(target, reg, v);
			break;
		}
		case 2: {
			name = "put_word";
			std::uint16_t v = (std::uint16_t)src.draw(65536), wire = m.swap ? swapped(v) : v;
			add(false, reg, I2C_SMBUS_WORD_DATA, std::string{ (char)(wire & 0xff), (char)(wire >> 8) });
			next.words[reg] = wire;
			got = smbus.put_word(target, reg, v);
			break;
		}
		case 3: {
			name = "put_block";
			std::size_t n = src.chance(1, 4) ? (std::size_t)src.range(30, 40) : src.chance(1, 8) ? (std::size_t)src.range(40, 1000) : (std::size_t)src.draw(33);
			std::string data = gen_bytes(src, n);
			std::vector<char> block(data.begin(), data.end());
			block.reserve(1);
			want = want && n <= I2C_SMBUS_BLOCK_MAX;
			if (n <= I2C_SMBUS_BLOCK_MAX) {
				add(false, reg, I2C_SMBUS_BLOCK_DATA, data);
				next.blocks[reg] = data;
			}
			got = smbus.put_block(target, reg, block.data(), n);
			break;
		}
		case 4: {
			name = "get_noreg";
			std::uint8_t v = 0x5a, e = 0;
			if (!next.queue.empty()) {
				e = next.queue.front();
				next.queue.pop_front();
			}
			add(true, 0, I2C_SMBUS_BYTE, std::string(1, (char)e));
			got = smbus.get_noreg(target, v);
			if (got && v != e) {
				wrong = pbt::fmt("get_noreg() received %02x instead of %02x", v, e);
			}
			break;
		}
		case 5: {
			name = "get_noreg_2";
			std::uint16_t v = 0x5a5a;
			std::uint8_t e[2] = {};
			for (auto& x : e) {
				if (!next.queue.empty()) {
					x = next.queue.front();
					next.queue.pop_front();
				}
				add(true, 0, I2C_SMBUS_BYTE, std::string(1, (char)x));
			}
			std::uint16_t w = m.swap ? (std::uint16_t)(e[0] << 8 | e[1]) : (std::uint16_t)(e[1] << 8 | e[0]);
			got = smbus.get_noreg_2(target, v);
			if (got && v != w) {
				wrong = pbt::fmt("get_noreg_2() received %04x instead of %04x", v, w);
			}
			break;
		}
		case 6: {
			name = "get_byte";
			std::uint8_t v = 0x5a, e = next.bytes[reg];
			add(true, reg, I2C_SMBUS_BYTE_DATA, std::string(1, (char)e));
			got = smbus.get_byte(target, reg, v);
			if (got && v != e) {
				wrong = pbt::fmt("get_byte() received %02x instead of %02x", v, e);
			}
			break;
		}
		case 7: {
			name = "get_word";
			std::uint16_t v = 0x5a5a, e = next.words[reg];
			add(true, reg, I2C_SMBUS_WORD_DATA, std::string{ (char)(e & 0xff), (char)(e >> 8) });
			got = smbus.get_word(target, reg, v);
			std::uint16_t w = m.swap ? swapped(e) : e;
			if (got && v != w) {
				wrong = pbt::fmt("get_word() received %04x instead of %04x", v, w);
			}
			break;
		}
		default: {
			name = "get_block";
			const std::string e = next.blocks[reg];
			std::size_t room = src.chance(1, 3) ? (std::size_t)src.draw(e.size() + 1) : src.chance(1, 6) ? (std::size_t)src.range(256, 600) : (std::size_t)src.draw(40);
			std::vector<char> block(room, 'Z');
			block.reserve(1);
			std::size_t size = room;
			want = want && e.size() <= room;
			add(true, reg, I2C_SMBUS_BLOCK_DATA, e);
			got = smbus.get_block(target, reg, block.data(), size);
			if (got && (size != e.size() || memcmp(block.data(), e.data(), size) != 0)) {
				wrong = pbt::fmt("get_block() received %zu bytes that aren't the %zu of the target", size, e.size());
			}
			for (std::size_t i = got ? size : 0; i < room && wrong.empty(); i++) {
				if (block[i] != 'Z') {
					wrong = "get_block() changed the buffer beyond the received data";
				}
			}
			break;
		}
	}
	bool hit = alone && fault > 0 && b.fail_ioctl == 0;
	b.fail_ioctl = 0;
	if (hit) {
		want = false;
		src.label("failure during an operation");
	}
	src.note(pbt::fmt("%s(target %02x, reg %02x) = %d%s", name.c_str(), m.addr, reg, got, hit ? ", system failure" : ""));
	b.check();
	CHECK(got == want, "%s() reported %s although the operation %s", name.c_str(), got ? "success" : "failure", want ? "succeeded" : hit ? "failed in the system" : m.present ? "is impossible" : "has no target");
	if (!wrong.empty()) {
		pbt::fail(wrong);
	}
	std::vector<dev::Transfer> mine;
	std::size_t seen = 0;
	for (auto& t : bus.log) {
		if (t.thread == me && seen++ >= mine_before) {
			mine.push_back(t);
		}
	}
	for (auto& t : mine) {
		CHECK(t.addr == m.addr, "%s() for target %02x reached target %02x", name.c_str(), m.addr, t.addr);
	}
	if (got) {
		CHECK(mine.size() == expected.size(), "%s() made %zu transfers instead of %zu", name.c_str(), mine.size(), expected.size());
		for (std::size_t i = 0; i < mine.size(); i++) {
			CHECK(mine[i] == expected[i], "%s() made the transfer [%s] instead of [%s]", name.c_str(), mine[i].str().c_str(), expected[i].str().c_str());
		}
		m.state = next;
	}
	else {
		// Only what reached the target counts.
		for (std::size_t i = 0; i < mine.size(); i++) {
			CHECK(i < expected.size(), "a failed %s() made the transfer [%s]", name.c_str(), mine[i].str().c_str());
			dev::Transfer e = expected[i];
			if (mine[i].read) {
				e.data = mine[i].data;
			}
			CHECK(mine[i] == e, "a failed %s() made the transfer [%s] instead of [%s]", name.c_str(), mine[i].str().c_str(), e.str().c_str());
			if (!mine[i].failed && mine[i].read && mine[i].size == I2C_SMBUS_BYTE && !m.state.queue.empty()) {
				m.state.queue.pop_front();
			}
		}
	}
}

// Runs the bodies as threads of the world and reports the first failure.
static void run_threads(std::vector<std::function<void()>> bodies) {
	std::vector<std::string> errors(bodies.size());
	std::vector<std::thread> threads;
	for (std::size_t i = 0; i < bodies.size(); i++) {
		threads.emplace_back([&, i] {
			try {
				bodies[i]();
			}
			catch (const pbt::Failure& f) {
				errors[i] = f.msg;
			}
		});
	}
	for (auto& t : threads) {
		t.join();
	}
	for (auto& e : errors) {
		if (!e.empty()) {
			pbt::fail(e);
		}
	}
}

static void add_target(Src& src, dev::Bus& bus, SmModel& m) {
	m.swap = src.chance(1, 2);
	dev::Target t;
	for (std::size_t i = 0, n = src.len(20); i < n; i++) {
		t.queue.push_back((std::uint8_t)src.draw(256));
	}
	for (unsigned r = 0; r < 4; r++) {
		t.bytes[r] = (std::uint8_t)src.draw(256);
		t.words[r] = (std::uint16_t)src.draw(65536);
		t.blocks[r] = gen_bytes(src, src.draw(33));
	}
	m.state = t;
	m.present = true;
	bus.targets[m.addr] = t;
}

static void check_targets(dev::Bus& bus, std::vector<SmModel>& models) {
	for (auto& m : models) {
		if (!m.present) {
			continue;
		}
		dev::Target& t = bus.targets[m.addr];
		for (auto& x : m.state.bytes) {
			CHECK(t.bytes[x.first] == x.second, "the register %02x of target %02x has %02x instead of %02x in the end", x.first, m.addr, t.bytes[x.first], x.second);
		}
		for (auto& x : m.state.words) {
			CHECK(t.words[x.first] == x.second, "the register %02x of target %02x has %04x instead of %04x in the end", x.first, m.addr, t.words[x.first], x.second);
		}
		for (auto& x : m.state.blocks) {
			CHECK(t.blocks[x.first] == x.second, "the block %02x of target %02x is wrong in the end", x.first, m.addr);
		}
	}
}

static void c27(Src& src) {
	World w(src);
	dev::Bench b;
	b.ioctl_cost = src.range(50, 5000);
	Logs logs(src);
	int number = (int)(src.chance(1, 2) ? src.draw(3) : src.draw(1000000));
	b.buses.push_back(dev::Bus());
	dev::Bus& bus = b.buses.back();
	bus.path = "/dev/i2c-" + std::to_string(number);
	bus.funcs = (unsigned long)src.u64();

	std::size_t bad = src.len(3);
	for (std::size_t i = 0; i < bad; i++) {
		// A bus that can't be had.
		unsigned how = (unsigned)src.draw(5);
		std::string path = how == 0 ? "/dev/i2c-none" : how == 1 ? "/dev/i2c-" + std::string(src.range(23, 40), 'x') : bus.path;
		b.fail_open = how == 3;
		b.fail_ioctl = how == 4;
		std::unique_ptr<Smbus> s;
		std::string ex = thrown([&] {
			s = make<Smbus>(how == 2 ? (const char*)nullptr : path.c_str(), logs.get());
		});
		b.fail_open = b.fail_ioctl = 0;
		b.check();
		CHECK(s == nullptr && !ex.empty(), "an SMBus was made although %s", how == 0 ? "the device doesn't exist" : how <= 2 ? "the path is invalid" : "the system refused");
		CHECK(b.open.empty(), "a descriptor is left open after an SMBus couldn't be made");
		src.label("no bus");
	}

	{
		std::unique_ptr<Smbus> smbus = src.chance(1, 2) ? make<Smbus>(number, logs.get()) : make<Smbus>(bus.path.c_str(), logs.get());
		CHECK(smbus->path() == bus.path, "path() is %s instead of %s", smbus->path(), bus.path.c_str());
		CHECK(smbus->functionality() == bus.funcs, "functionality() is %lx instead of %lx", smbus->functionality(), bus.funcs);
		CHECK(b.open.size() == 1, "%zu descriptors are open for one SMBus", b.open.size());

		std::size_t count = 1 + src.draw(4);
		std::vector<SmModel> models(count);
		for (std::size_t i = 0; i < count; i++) {
			models[i].addr = (unsigned)(3 + i * 20 + src.draw(20));
			models[i].swap = src.chance(1, 2);
			models[i].present = false;
			if (!src.chance(1, 8)) {
				add_target(src, bus, models[i]);
			}
		}
		if (src.chance(1, 2)) {
			// One thread, and failures of the system.
			std::size_t steps = 1 + src.len(40);
			std::set<unsigned> used;
			for (std::size_t i = 0; i < steps; i++) {
				unsigned fault = src.chance(1, 5) ? 1 + (unsigned)src.draw(3) : 0;
				SmModel& m = models[src.draw(count)];
				smbus_op(src, b, bus, *smbus, m, fault, true);
				used.insert(m.addr);
			}
			if (steps >= 8 && used.size() >= 2) {
				src.nontrivial();
			}
		}
		else {
			// Several threads, each with its own target.
			w.preempt = 1 + (unsigned)src.draw(6);
			std::size_t threads = std::max<std::size_t>(2, count);
			while (models.size() < threads) {
				SmModel m;
				m.addr = 0x70;
				add_target(src, bus, m);
				models.push_back(m);
			}
			std::size_t steps = 1 + src.len(10);
			std::vector<std::function<void()>> bodies;
			// Two threads that read pairs of one target, which counts.
			bool pairs = src.chance(1, 3);
			SmModel common;
			common.addr = 0x77;
			common.swap = src.chance(1, 2);
			common.present = true;
			std::size_t taken = 0;
			if (pairs) {
				for (unsigned i = 0; i < 256; i++) {
					bus.targets[common.addr].queue.push_back((std::uint8_t)i);
				}
			}
			for (std::size_t i = 0; i < threads; i++) {
				bodies.push_back([&, i] {
					for (std::size_t k = 0; k < steps; k++) {
						if (pairs && src.chance(1, 2)) {
							SmTarget t(common.addr, 1000, common.swap);
							std::uint16_t v = 0;
							bool ok = smbus->get_noreg_2(t, v);
							CHECK(ok, "get_noreg_2() failed");
							unsigned first = common.swap ? v >> 8 : v & 0xff, second = common.swap ? v & 0xff : v >> 8;
							CHECK(first % 2 == 0 && second == first + 1, "get_noreg_2() returned the bytes %u and %u, which the target didn't send together", first, second);
							taken++;
						}
						else {
							smbus_op(src, b, bus, *smbus, models[i], 0, false);
						}
					}
				});
			}
			run_threads(bodies);
			CHECK(bus.targets[common.addr].queue.size() == (pairs ? 256 - 2 * taken : 0), "bytes of the target were lost");
			src.label("threads share a bus");
			if (w.switches > 20) {
				src.nontrivial();
			}
		}
		check_targets(bus, models);
	}
	b.check();
	CHECK(b.open.empty(), "%zu descriptors are still open in the end", b.open.size());
}
static pbt::Reg r27("C27", 0, 0, "at least 8 operations on at least 2 targets, or at least 2 threads that share a bus with more than 20 switches", c27);

// ---------------------------------------------------------------- C28

static const unsigned MAX_DUTY = 100;

// A bus with one target.
struct OneTarget {
	dev::Bench& b;
	dev::Bus& bus;
	unsigned addr;
	bool swap;
	std::uint64_t clock;
	std::unique_ptr<Smbus> smbus;
	OneTarget(Src& src, dev::Bench& bench, Log* log)
		: b(bench)
		, bus((bench.buses.push_back(dev::Bus()), bench.buses.back())) {
		bus.path = "/dev/i2c-1";
		addr = (unsigned)src.range(3, 0x77);
		swap = src.chance(1, 2);
		static const std::uint64_t clocks[] = { 72000000, 16000000, 8000000, 1000000, 168000000, 32768, 100000 };
		clock = src.chance(1, 2) ? clocks[src.draw(7)] : (std::uint64_t)src.range(16, 2000000000);
		bus.targets[addr];
		smbus = make<Smbus>(1, log);
	}
	dev::Target& target() {
		return bus.targets[addr];
	}
	SmTarget sm() const {
		return SmTarget(addr, clock, swap);
	}
	unsigned reg(unsigned r) {
		std::uint16_t w = target().words[r];
		return swap ? swapped(w) : w;
	}
	std::uint16_t wire(std::uint16_t w) const {
		return swap ? swapped(w) : w;
	}
};

struct Pwm {
	unsigned reg_pwm, reg_ar, reg_ps;
	std::uint64_t period, ar = 0, ps = 0;
	double min_us = 0, max_us = 0;		// pulse widths, when restricted

	Pwm(Src& src, OneTarget& t, unsigned frequency) {
		reg_pwm = (unsigned)src.draw(80);
		reg_ar = 80 + (unsigned)src.draw(80);
		reg_ps = 160 + (unsigned)src.draw(80);
		period = t.clock / frequency;
	}
	// After the construction.
	void configured(OneTarget& t) {
		for (auto& x : t.bus.log) {
			CHECK(x.addr == t.addr && !x.read && x.size == I2C_SMBUS_WORD_DATA && (x.command == reg_pwm || x.command == reg_ar || x.command == reg_ps), "the PWM was set up with the transfer [%s]", x.str().c_str());
		}
		CHECK(t.target().words.count(reg_ar) != 0 && t.target().words.count(reg_ps) != 0, "the autoreload and the prescaler aren't both set");
		ar = t.reg(reg_ar) + 1ull;
		ps = t.reg(reg_ps) + 1ull;
		std::uint64_t product = ar * ps;
		std::uint64_t off = product > period ? product - period : period - product;
		CHECK(off < std::max(ar, ps), "autoreload %llu and prescaler %llu make a period of %llu clock ticks instead of %llu", (unsigned long long)ar, (unsigned long long)ps, (unsigned long long)product, (unsigned long long)period);
	}
	void duty(OneTarget& t, unsigned d, const char* what) {
		unsigned ccr = t.reg(reg_pwm);
		d = std::min(d, MAX_DUTY);
		if (d == 0) {
			CHECK(ccr == 0, "%s: duty cycle 0 set the compare register to %u", what, ccr);
		}
		else if (d == MAX_DUTY) {
			CHECK(ccr == ar, "%s: duty cycle 100 set the compare register to %u instead of the autoreload %llu", what, ccr, (unsigned long long)ar);
		}
		else if (max_us == 0) {
			double e = (double)ar * d / MAX_DUTY;
			CHECK(std::fabs(ccr - e) <= 1, "%s: duty cycle %u set the compare register to %u instead of %.2f", what, d, ccr, e);
		}
		else {
			double us = min_us + (max_us - min_us) * d / MAX_DUTY;
			double e = us * (double)t.clock / 1e6 / (double)ps;
			CHECK(std::fabs(ccr - e) <= 3, "%s: duty cycle %u set the compare register to %u instead of %.2f", what, d, ccr, e);
		}
	}
};

static unsigned gen_duty(Src& src) {
	return src.chance(1, 6) ? (src.chance(1, 2) ? 0 : MAX_DUTY) : src.chance(1, 8) ? (unsigned)src.range(101, 65535) : (unsigned)src.range(1, 99);
}

template <typename Device, typename Duration>
static void timed_duty(Src& src, World& w, OneTarget& t, Pwm& p, Device& device, Duration duration, bool by_device, unsigned d) {
	std::size_t before = t.bus.log.size();
	sim::ns_t ns = std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count();
	std::uint16_t first = 0;
	device();
	src.note(pbt::fmt("duty cycle %u for %lld ns%s", d, (long long)ns, by_device ? " of the servo" : ""));
	CHECK(t.bus.log.size() == before + 2, "a timed duty cycle made %zu transfers", t.bus.log.size() - before);
	auto& on = t.bus.log[before];
	auto& off = t.bus.log[before + 1];
	CHECK(on.command == p.reg_pwm && off.command == p.reg_pwm && !on.read && !off.read && on.data.size() == 2, "a timed duty cycle made the transfers [%s] and [%s]", on.str().c_str(), off.str().c_str());
	first = (std::uint16_t)((unsigned char)on.data[0] | (unsigned char)on.data[1] << 8);
	CHECK(t.reg(p.reg_pwm) == 0, "a timed duty cycle left the compare register at %u", t.reg(p.reg_pwm));
	// Look at the first value as if it were still there.
	t.target().words[p.reg_pwm] = first;
	p.duty(t, d, "timed");
	t.target().words[p.reg_pwm] = 0;
	sim::ns_t took = off.when - on.when;
	CHECK(took >= ns && took <= ns + w.oversleep + 40 * (w.mutex_cost + w.clock_cost + t.b.ioctl_cost), "a duty cycle for %lld ns lasted %lld ns", (long long)ns, (long long)took);
}

static void pwm_case(Src& src) {
	World w(src);
	w.oversleep = src.chance(1, 2) ? 0 : src.range(1, MS);
	dev::Bench b;
	b.ioctl_cost = src.range(50, 5000);
	Logs logs(src);
	Log* log = logs.get();
	OneTarget t(src, b, log);
	unsigned frequency = src.chance(1, 2) ? 50 : (unsigned)(src.chance(1, 2) ? src.range(1, 65535) : src.range(1, 1000));
	Pwm p(src, t, frequency);
	if (p.period < 16 || p.period > (1ull << 31)) {
		throw pbt::Discard{};
	}
	unsigned kind = (unsigned)src.draw(4);		// plain, with pulse widths, servo, motor
	std::int64_t period_us = 1000000 / frequency;
	std::int64_t max_us = period_us < 2 ? 0 : src.range(1, period_us);
	std::int64_t min_us = max_us == 0 ? 0 : src.range(0, max_us);
	if ((kind == 1 || kind == 2) && max_us == 0) {
		throw pbt::Discard{};
	}
	bool in_ms = max_us >= 1000 && src.chance(1, 4);
	if (in_ms) {
		max_us -= max_us % 1000;
		min_us -= min_us % 1000;
	}
	std::size_t steps = 1 + src.len(20);
	src.note(pbt::fmt("kind %u clock %llu frequency %u pulses %lld..%lld us", kind, (unsigned long long)t.clock, frequency, (long long)min_us, (long long)max_us));
	SmTarget sm = t.sm();

	if (src.chance(1, 6)) {
		std::string ex = thrown([&] {
			abc::gpio_smbus_pwm<Log> none((Smbus*)nullptr, sm, frequency, p.reg_pwm, p.reg_ar, p.reg_ps, log);
		});
		CHECK(!ex.empty() && t.bus.log.empty(), "a PWM without a bus was made");
	}

	if (kind <= 1) {
		std::unique_ptr<abc::gpio_smbus_pwm<Log>> pwm;
		if (kind == 0) {
			pwm = make<abc::gpio_smbus_pwm<Log>>(t.smbus.get(), sm, frequency, p.reg_pwm, p.reg_ar, p.reg_ps, log);
		}
		else {
			p.min_us = (double)min_us;
			p.max_us = (double)max_us;
			pwm = in_ms ? make<abc::gpio_smbus_pwm<Log>>(t.smbus.get(), sm, std::chrono::milliseconds(min_us / 1000), std::chrono::milliseconds(max_us / 1000), frequency, p.reg_pwm, p.reg_ar, p.reg_ps, log)
				: make<abc::gpio_smbus_pwm<Log>>(t.smbus.get(), sm, std::chrono::microseconds(min_us), std::chrono::microseconds(max_us), frequency, p.reg_pwm, p.reg_ar, p.reg_ps, log);
		}
		p.configured(t);
		for (std::size_t i = 0; i < steps; i++) {
			unsigned d = gen_duty(src);
			if (src.chance(1, 4)) {
				auto duration = std::chrono::microseconds(src.range(0, 3000000));
				timed_duty(src, w, t, p, *std::unique_ptr<std::function<void()>>(new std::function<void()>([&] { pwm->set_duty_cycle((abc::gpio_pwm_duty_cycle_t)d, duration); })), duration, false, d);
			}
			else {
				std::size_t before = t.bus.log.size();
				pwm->set_duty_cycle((abc::gpio_pwm_duty_cycle_t)d);
				src.note(pbt::fmt("duty cycle %u: %u of %llu", d, t.reg(p.reg_pwm), (unsigned long long)p.ar));
				CHECK(t.bus.log.size() > before, "set_duty_cycle() set nothing");
				p.duty(t, d, "pwm");
			}
		}
		src.label(kind == 0 ? "pwm" : "pwm with pulse widths");
	}
	else if (kind == 2) {
		p.min_us = (double)min_us;
		p.max_us = (double)max_us;
		auto duration = std::chrono::milliseconds(src.range(0, 2000));
		abc::gpio_smbus_servo<std::chrono::milliseconds, Log> servo(t.smbus.get(), sm, std::chrono::microseconds(min_us), std::chrono::microseconds(max_us), duration, frequency, p.reg_pwm, p.reg_ar, p.reg_ps, log);
		p.configured(t);
		for (std::size_t i = 0; i < steps; i++) {
			unsigned d = gen_duty(src);
			std::function<void()> f = [&] { servo.set_duty_cycle((abc::gpio_pwm_duty_cycle_t)d); };
			timed_duty(src, w, t, p, f, duration, true, d);
		}
		src.label("servo");
	}
	else {
		b.chips.push_back(make_chip(src, "/dev/gpiochip0"));
		dev::Chip& real = b.chips.back();
		unsigned pos = (unsigned)src.draw(real.lines.size());
		abc::gpio_chip<Log> chip(0, "vp", log);
		std::unique_ptr<abc::gpio_smbus_motor<Log>> motor = make<abc::gpio_smbus_motor<Log>>(&chip, pos, t.smbus.get(), sm, frequency, p.reg_pwm, p.reg_ar, p.reg_ps, log);
		p.configured(t);
		CHECK(motor->is_forward(), "a new motor isn't set to turn forward");
		CHECK(real.lines[pos].level == 0, "a new motor doesn't turn forward");
		CHECK(motor->get_duty_cycle() == 0, "a new motor has the duty cycle %u", motor->get_duty_cycle());
		bool forward = true;
		unsigned duty = 0;
		for (std::size_t i = 0; i < steps; i++) {
			if (src.chance(1, 2)) {
				forward = src.chance(1, 2);
				std::size_t before = t.bus.log.size();
				motor->set_forward(forward);
				src.note(pbt::fmt("set_forward(%d)", forward));
				CHECK(t.bus.log.size() == before, "set_forward() changed the duty cycle");
			}
			else {
				unsigned d = gen_duty(src);
				motor->set_duty_cycle((abc::gpio_pwm_duty_cycle_t)d);
				duty = std::min(d, MAX_DUTY);
				src.note(pbt::fmt("duty cycle %u", d));
				p.duty(t, d, "motor");
			}
			CHECK(motor->is_forward() == forward, "is_forward() is %d after set_forward(%d)", motor->is_forward(), forward);
			CHECK(real.lines[pos].level == (forward ? 0 : 1), "the direction line has level %u although the motor is set to turn %s", real.lines[pos].level, forward ? "forward" : "backward");
			CHECK(motor->get_duty_cycle() == duty, "get_duty_cycle() is %u instead of %u", motor->get_duty_cycle(), duty);
		}
		motor.reset();
		CHECK(real.lines[pos].fd < 0, "the direction line is held after the motor is gone");
		src.label("motor");
	}
	b.check();
	if (steps >= 3) {
		src.nontrivial();
	}
}

static void grayscale_case(Src& src) {
	World w(src);
	dev::Bench b;
	Logs logs(src);
	Log* log = logs.get();
	OneTarget t(src, b, log);
	unsigned regs[3];
	regs[0] = (unsigned)src.draw(256);
	regs[1] = (regs[0] + 1 + (unsigned)src.draw(100)) & 0xff;
	regs[2] = (regs[1] + 1 + (unsigned)src.draw(100)) & 0xff;
	std::map<unsigned, std::uint16_t> adc;
	dev::Target& d = t.target();
	// A conversion starts when the channel is written; its result is read afterwards.
	d.on_word = [&](unsigned reg, std::uint16_t) {
		std::uint16_t v = adc[reg];
		d.queue.clear();
		d.queue.push_back((std::uint8_t)(t.swap ? v >> 8 : v & 0xff));
		d.queue.push_back((std::uint8_t)(t.swap ? v & 0xff : v >> 8));
	};
	SmTarget sm = t.sm();
	if (src.chance(1, 6)) {
		std::string ex = thrown([&] { abc::gpio_smbus_grayscale<Log> none((Smbus*)nullptr, sm, regs[0], regs[1], regs[2], log); });
		CHECK(!ex.empty(), "a grayscale sensor without a bus was made");
	}
	abc::gpio_smbus_grayscale<Log> g(t.smbus.get(), sm, (std::uint8_t)regs[0], (std::uint8_t)regs[1], (std::uint8_t)regs[2], log);
	std::size_t steps = 1 + src.len(10);
	for (std::size_t i = 0; i < steps; i++) {
		for (unsigned r : regs) {
			adc[r] = (std::uint16_t)src.draw(65536);
		}
		std::uint16_t v[3] = {};
		g.get_values(v[0], v[1], v[2]);
		src.note(pbt::fmt("get_values() = %04x %04x %04x", v[0], v[1], v[2]));
		static const char* names[] = { "left", "center", "right" };
		for (int k = 0; k < 3; k++) {
			CHECK(v[k] == adc[regs[k]], "the %s value is %04x instead of %04x", names[k], v[k], adc[regs[k]]);
		}
	}
	b.check();
	if (steps >= 3) {
		src.nontrivial();
	}
	src.label("grayscale");
}

using Motion = abc::gpio_smbus_motion<Log>;
static const unsigned MOTION_REGS[7] = { 0x3b, 0x3d, 0x3f, 0x43, 0x45, 0x47, 0x41 };

static std::int16_t* motion_channel(abc::gpio_smbus_motion_measurements& m, int i) {
	std::int16_t* c[] = { &m.accel_x, &m.accel_y, &m.accel_z, &m.gyro_x, &m.gyro_y, &m.gyro_z, &m.temperature };
	return c[i];
}
static double motion_value(const abc::gpio_smbus_motion_values& v, int i) {
	const double c[] = { v.accel_x, v.accel_y, v.accel_z, v.gyro_x, v.gyro_y, v.gyro_z, v.temperature };
	return c[i];
}
static const char* MOTION_NAMES[7] = { "accel_x", "accel_y", "accel_z", "gyro_x", "gyro_y", "gyro_z", "temperature" };

static double motion_expected(int i, int measurement, int calibration) {
	return i == 6 ? measurement / 340.0 + 36.53 : (i < 3 ? 16.0 : 2000.0) * (measurement - calibration) / 32767.0;
}

static std::int16_t gen_measurement(Src& src) {
	switch (src.draw(4)) {
		case 0: return (std::int16_t)src.range(-100, 100);
		case 1: { static const std::int16_t e[] = { 32767, -32768, 0, -1, 16384, -16384 }; return e[src.draw(6)]; }
		default: return (std::int16_t)src.draw(65536);
	}
}

static void motion_case(Src& src) {
	World w(src);
	w.oversleep = src.chance(1, 2) ? 0 : src.range(1, MS);
	dev::Bench b;
	Logs logs(src);
	Log* log = logs.get();
	OneTarget t(src, b, log);
	bool standard = src.chance(1, 2);
	if (standard) {
		t.bus.targets.clear();
		t.addr = 0x68;
		t.swap = true;
		t.bus.targets[t.addr];
	}
	std::int16_t level[7];
	int noise = src.chance(1, 2) ? 0 : (int)src.draw(2000);
	for (auto& l : level) {
		l = gen_measurement(src);
	}
	// What the sensor answered since it was cleared.
	std::vector<std::int16_t> answered[7];
	t.target().word = [&](unsigned reg) -> std::uint16_t {
		for (int i = 0; i < 7; i++) {
			if (MOTION_REGS[i] == reg) {
				int v = level[i] + (noise == 0 ? 0 : (int)src.draw(2 * noise + 1) - noise);
				v = std::max(-32768, std::min(32767, v));
				answered[i].push_back((std::int16_t)v);
				return t.wire((std::uint16_t)v);
			}
		}
		b.wrong(pbt::fmt("the register %02x of the motion sensor is read as a word", reg));
		return 0;
	};
	if (src.chance(1, 6)) {
		std::string ex = thrown([&] { Motion none((Smbus*)nullptr, log); });
		CHECK(!ex.empty(), "a motion sensor without a bus was made");
	}
	Motion motion = standard ? Motion(t.smbus.get(), log) : Motion(t.smbus.get(), t.sm(), log);
	static const std::pair<unsigned, unsigned> config[] = { { 0x6b, 0 }, { 0x1a, 3 }, { 0x1c, 3 << 3 }, { 0x1b, 3 << 3 } };
	for (auto& c : config) {
		CHECK(t.target().bytes.count(c.first) != 0 && t.target().bytes[c.first] == c.second, "the register %02x of the motion sensor is set to %02x instead of %02x", c.first, t.target().bytes[c.first], c.second);
	}
	CHECK(t.target().bytes.size() == 4 && t.target().words.empty(), "more than the configuration of the motion sensor is set");

	std::size_t steps = 1 + src.len(12);
	bool calibrated = false;
	abc::gpio_smbus_motion_measurements zero{};
	for (std::size_t s = 0; s < steps; s++) {
		for (auto& a : answered) {
			a.clear();
		}
		std::uint64_t op = src.draw(6);
		unsigned mask = src.chance(1, 3) ? 0x7f : (unsigned)src.draw(0x80);
		if (op == 0) {
			for (auto& l : level) {
				l = gen_measurement(src);
			}
		}
		else if (op == 1) {
			sim::ns_t t0 = w.now;
			motion.calibrate((abc::gpio_smbus_motion_channel_t)mask);
			abc::gpio_smbus_motion_measurements c = motion.calibration();
			src.note(pbt::fmt("calibrate(%02x) took %lld ns", mask, (long long)(w.now - t0)));
			for (int i = 0; i < 6; i++) {
				int v = *motion_channel(c, i);
				if ((mask & (1u << i)) == 0) {
					CHECK(v == 0, "calibrate(%02x) left %d in %s, which isn't in the mask", mask, v, MOTION_NAMES[i]);
					continue;
				}
				auto& a = answered[i];
				CHECK(a.size() >= 10, "calibrate() took only %zu samples of %s", a.size(), MOTION_NAMES[i]);
				auto mm = std::minmax_element(a.begin(), a.end());
				CHECK(v >= *mm.first && v <= *mm.second, "the calibration of %s is %d although the sensor answered %d to %d", MOTION_NAMES[i], v, *mm.first, *mm.second);
				if (noise > 100) {
					// An average of many samples, not just one of them.
					double mean = 0, half = a.size() - a.size() / 2;
					for (std::size_t k = a.size() / 2; k < a.size(); k++) {
						mean += a[k] / half;
					}
					CHECK(std::fabs(v - mean) < noise * 0.75 + 2, "the calibration of %s is %d although the average of the samples is %.0f", MOTION_NAMES[i], v, mean);
				}
			}
			calibrated = true;
		}
		else if (op <= 3) {
			abc::gpio_smbus_motion_measurements m;
			int fault = src.chance(1, 3) ? 1 + (int)src.draw(14) : 0;
			std::size_t before = t.bus.log.size();
			b.fail_ioctl = fault;
			motion.get_measurements((abc::gpio_smbus_motion_channel_t)mask, m);
			b.fail_ioctl = 0;
			std::set<unsigned> failed;
			for (std::size_t k = before; k < t.bus.log.size(); k++) {
				if (t.bus.log[k].failed) {
					failed.insert(t.bus.log[k].command);
				}
			}
			src.note(pbt::fmt("get_measurements(%02x)%s", mask, failed.empty() ? "" : ", one failed"));
			for (int i = 0; i < 7; i++) {
				int v = *motion_channel(m, i);
				if ((mask & (1u << i)) == 0) {
					CHECK(v == 0, "get_measurements(%02x) returned %d for %s, which isn't in the mask", mask, v, MOTION_NAMES[i]);
				}
				else if (answered[i].empty()) {
					CHECK(v == 0 && fault > 0, "get_measurements(%02x) returned %d for %s, which couldn't be read", mask, v, MOTION_NAMES[i]);
					src.label("channel can't be read");
				}
				else {
					CHECK(v == answered[i].back(), "get_measurements(%02x) returned %d for %s instead of %d", mask, v, MOTION_NAMES[i], answered[i].back());
				}
			}
		}
		else if (op == 4) {
			abc::gpio_smbus_motion_values v;
			motion.get_values((abc::gpio_smbus_motion_channel_t)mask, v);
			abc::gpio_smbus_motion_measurements c = motion.calibration();
			src.note(pbt::fmt("get_values(%02x)%s", mask, calibrated ? " after a calibration" : ""));
			for (int i = 0; i < 7; i++) {
				double got = motion_value(v, i);
				double e = (mask & (1u << i)) == 0 ? 0 : motion_expected(i, answered[i].empty() ? 0 : answered[i].back(), calibrated ? *motion_channel(c, i) : 0);
				CHECK(std::fabs(got - e) < 1e-9 * (1 + std::fabs(e)), "get_values(%02x) returned %s = %.12g instead of %.12g", mask, MOTION_NAMES[i], got, e);
			}
		}
		else {
			abc::gpio_smbus_motion_measurements m, c;
			for (int i = 0; i < 7; i++) {
				*motion_channel(m, i) = gen_measurement(src);
				*motion_channel(c, i) = gen_measurement(src);
			}
			abc::gpio_smbus_motion_values v;
			motion.get_values_from_measurements((abc::gpio_smbus_motion_channel_t)mask, m, c, v);
			src.note(pbt::fmt("get_values_from_measurements(%02x)", mask));
			for (int i = 0; i < 7; i++) {
				double got = motion_value(v, i);
				double e = (mask & (1u << i)) == 0 ? 0 : motion_expected(i, *motion_channel(m, i), *motion_channel(c, i));
				CHECK(std::fabs(got - e) < 1e-9 * (1 + std::fabs(e)), "get_values_from_measurements(%02x) returned %s = %.12g instead of %.12g for %d with calibration %d", mask, MOTION_NAMES[i], got, e, *motion_channel(m, i), *motion_channel(c, i));
			}
		}
		b.check();
	}
	if (steps >= 4) {
		src.nontrivial();
	}
	src.label("motion");
}

static void c28(Src& src) {
	switch (src.draw(6)) {
		case 4: grayscale_case(src); break;
		case 5: motion_case(src); break;
		default: pwm_case(src); break;
	}
}
static pbt::Reg r28("C28", 0, 0, "at least 3 duty cycles or readings (4 operations on a motion sensor) on one configured device", c28);

// ---------------------------------------------------------------- C29

static void emulator_case(Src& src) {
	World w(src);
	w.preempt = src.chance(1, 4) ? 0 : 1 + (unsigned)src.draw(8);
	w.oversleep = src.chance(1, 2) ? 0 : src.range(1, 100 * US);
	dev::Bench b;
	b.ioctl_cost = src.range(20, 200);
	const sim::ns_t slack = 2 * US + 30 * (b.ioctl_cost + w.clock_cost + w.mutex_cost);
	Logs logs(src);
	Log* log = logs.get();
	b.chips.push_back(make_chip(src, "/dev/gpiochip0"));
	dev::Chip& real = b.chips[0];
	real.lines.resize(8);
	abc::gpio_chip<Log> chip(0, "vp", log);

	// What can't be made throws and leaves nothing behind.
	for (std::size_t i = 0, n = src.len(2); i < n; i++) {
		unsigned f = (unsigned)src.range(1, 5000);
		std::int64_t period = 1000000 / f;
		unsigned how = (unsigned)src.draw(4);
		std::int64_t min = how == 0 ? src.range(1, period) : 0, max = how == 0 ? src.draw(min) : how == 1 ? src.range(period + 1, 3 * period + 1) : period;
		b.fail_ioctl = how == 3;
		std::string ex = thrown([&] { abc::gpio_pwm_emulator<Log> e(how == 2 ? nullptr : &chip, 0, std::chrono::microseconds(min), std::chrono::microseconds(max), (abc::gpio_pwm_pulse_frequency_t)f, log); });
		b.fail_ioctl = 0;
		b.check();
		CHECK(!ex.empty(), "a PWM emulator was made although %s", how == 0 ? "the minimum pulse is longer than the maximum" : how == 1 ? "the maximum pulse is longer than the period" : how == 2 ? "there is no chip" : "the line can't be had");
		CHECK(b.open.empty() && w.all_done(), "a PWM emulator that couldn't be made left %s behind", b.open.empty() ? "a thread" : "a descriptor");
		src.label("invalid emulator");
	}

	struct Cmd {
		sim::ns_t called, done;
		unsigned duty;
	};
	struct Emu {
		std::unique_ptr<abc::gpio_pwm_emulator<Log>> e;
		unsigned line;
		sim::ns_t period;
		double min, max;		// us
		std::vector<Cmd> cmds;
		sim::ns_t gone = -1;
	};
	std::size_t count = 1 + src.draw(2);
	std::vector<Emu> emus(count);
	std::size_t base = 0;
	for (std::size_t i = 0; i < count; i++) {
		Emu& m = emus[i];
		m.line = (unsigned)(i * 4 + src.draw(4));
		unsigned f = src.chance(1, 3) ? 50 : src.chance(1, 2) ? (unsigned)src.range(5, 200) : (unsigned)src.range(200, 3000);
		m.period = 1000000 / f * US;
		sim::ns_t t0 = w.now;
		if (src.chance(1, 2)) {
			m.min = 0;
			m.max = 1000000 / f;
			m.e = make<abc::gpio_pwm_emulator<Log>>(&chip, m.line, (abc::gpio_pwm_pulse_frequency_t)f, log);
		}
		else {
			std::int64_t max = src.range(1, 1000000 / f), min = src.range(0, max);
			m.min = (double)min;
			m.max = (double)max;
			m.e = make<abc::gpio_pwm_emulator<Log>>(&chip, m.line, std::chrono::microseconds(min), std::chrono::microseconds(max), (abc::gpio_pwm_pulse_frequency_t)f, log);
		}
		src.note(pbt::fmt("emulator on line %u, %u Hz, pulses %.0f..%.0f us", m.line, f, m.min, m.max));
		m.cmds.push_back({ t0, w.now, 0 });
	}
	base = b.open.size();
	CHECK(base == count, "%zu descriptors are open for %zu emulators", base, count);

	std::size_t steps = 1 + src.len(8);
	sim::ns_t longest = 0;
	for (auto& m : emus) {
		longest = std::max(longest, m.period);
	}
	for (std::size_t s = 0; s < steps; s++) {
		Emu& m = emus[src.draw(count)];
		unsigned d = gen_duty(src);
		Cmd c;
		c.duty = std::min(d, MAX_DUTY);
		c.called = w.now;
		if (src.chance(1, 4)) {
			std::int64_t us = src.chance(1, 2) ? src.range(0, 20000) : src.range(20000, 700000);
			m.e->set_duty_cycle((abc::gpio_pwm_duty_cycle_t)d, std::chrono::microseconds(us));
			src.note(pbt::fmt("line %u: duty cycle %u for %lld us", m.line, d, (long long)us));
			c.done = c.called + slack;
			CHECK(w.now - c.called >= us * US && w.now - c.called <= us * US + w.oversleep + slack, "a duty cycle for %lld us lasted %lld us", (long long)us, (long long)((w.now - c.called) / US));
			m.cmds.push_back(c);
			c.duty = 0;
			c.called = c.called + us * US;
			c.done = w.now;
			m.cmds.push_back(c);
		}
		else {
			m.e->set_duty_cycle((abc::gpio_pwm_duty_cycle_t)d);
			c.done = w.now;
			src.note(pbt::fmt("line %u: duty cycle %u", m.line, d));
			CHECK(c.done - c.called <= slack + 2 * longest || w.preempt != 0, "set_duty_cycle() took %lld us", (long long)((c.done - c.called) / US));
			m.cmds.push_back(c);
		}
		switch (src.draw(4)) {
			case 0: break;
			case 1: sim::sleep_ns(src.range(1, 3 * longest)); break;
			default: sim::sleep_ns(200 * MS + src.range(1, 400 * MS) + 8 * longest); break;
		}
	}
	// They go, in some order.
	while (!emus.empty()) {
		std::size_t i = src.draw(emus.size());
		Emu m = std::move(emus[i]);
		emus.erase(emus.begin() + i);
		sim::ns_t t0 = w.now;
		m.e.reset();
		m.gone = w.now;
		b.check();
		src.note(pbt::fmt("line %u: gone after %lld us", m.line, (long long)((m.gone - t0) / US)));
		const sim::ns_t latency = 200 * MS + 2 * (m.period + 2 * w.oversleep) + 4 * slack;
		CHECK(m.gone - t0 <= latency, "the emulator took %lld us to stop", (long long)((m.gone - t0) / US));
		dev::Line& l = real.lines[m.line];
		CHECK(l.fd < 0, "the line %u is held after its emulator is gone", m.line);
		CHECK(l.level == 0, "the line %u is left high after its emulator is gone", m.line);
		CHECK(b.open.size() == emus.size(), "%zu descriptors are open for %zu emulators", b.open.size(), emus.size());
		// The wave.
		m.cmds.push_back({ t0, t0, 0 });
		for (std::size_t k = 0; k + 1 < m.cmds.size(); k++) {
			unsigned d = m.cmds[k].duty;
			sim::ns_t from = m.cmds[k].done + latency, to = m.cmds[k + 1].called;
			if (to <= from) {
				continue;
			}
			// The level when the time begins, and the changes until it ends.
			unsigned level = 0;
			std::vector<std::pair<sim::ns_t, unsigned>> e;
			for (auto& p : l.trace) {
				if (p.first < from) {
					level = p.second;
				}
				else if (p.first <= to) {
					e.push_back(p);
				}
			}
			if (d == 0 || d == MAX_DUTY) {
				unsigned want = d == 0 ? 0 : 1;
				CHECK(level == want, "the line %u has level %u %lld us after duty cycle %u was set", m.line, level, (long long)((from - m.cmds[k].done) / US), d);
				for (auto& p : e) {
					CHECK(p.second == want, "the line %u has level %u while the duty cycle is %u", m.line, p.second, d);
				}
				src.label("constant level");
				continue;
			}
			double high_us = m.min + (m.max - m.min) * d / MAX_DUTY;
			sim::ns_t high = (sim::ns_t)(high_us * 1000);
			sim::ns_t tol = slack + w.oversleep + US;
			sim::ns_t rise = -1, fall = -1;
			std::size_t pulses = 0;
			for (auto& p : e) {
				if (p.second == 1) {
					if (rise >= 0) {
						sim::ns_t got = p.first - rise;
						CHECK(fall > rise, "the line %u isn't low between two pulses at duty cycle %u", m.line, d);
						CHECK(got >= m.period - tol && got <= m.period + 2 * tol, "the period on line %u is %lld us instead of %lld us", m.line, (long long)(got / US), (long long)(m.period / US));
						pulses++;
					}
					rise = p.first;
				}
				else {
					if (rise >= 0) {
						sim::ns_t got = p.first - rise;
						CHECK(got >= high - tol && got <= high + tol, "a pulse on line %u lasts %lld ns instead of %lld ns at duty cycle %u", m.line, (long long)got, (long long)high, d);
					}
					fall = p.first;
				}
			}
			std::size_t least = (std::size_t)((to - from) / (m.period + 2 * tol));
			CHECK(pulses + 2 >= least, "the line %u has %zu pulses in %lld us at duty cycle %u with a period of %lld us", m.line, pulses, (long long)((to - from) / US), d, (long long)(m.period / US));
			if (pulses >= 3) {
				src.label("wave");
				src.nontrivial();
			}
		}
	}
	CHECK(w.all_done(), "a thread is left behind");
}

// What an ideal tracker would say.
struct Track {
	double depth = 0, width = 0, direction = 0, speed = 0;
	// Bounds, for the tolerances.
	double max_speed = 0, path = 0, turn = 0, max_step = 0, wobble = 0;
	std::size_t count = 0;
	double tol_direction() const { return 0.004 * turn + 1e-6 * (count + 1); }
	double tol_position() const { return path * (0.006 + max_step * max_step + 2 * tol_direction() * 3.14159265 / 180) + wobble + 1e-6 * (count + 1); }
	double tol_speed() const { return 0.004 * max_speed + 1e-6; }
	// The acceleration and the rotation change linearly from 0 to 1 within s seconds.
	void step(double s, double a0, double a1, double g0, double g1) {
		const double rad = 3.14159265 / 180;
		const int n = 8;
		double v0 = speed, d0 = direction;
		for (int i = 0; i < n; i++) {
			double u = (i + 0.5) / n * s;
			double v = v0 + a0 * u + (a1 - a0) / s * u * u / 2;
			double dir = d0 + g0 * u + (g1 - g0) / s * u * u / 2;
			depth += v * std::cos(dir * rad) * s / n;
			width += v * std::sin(dir * rad) * s / n;
		}
		speed = v0 + (a0 + a1) / 2 * s;
		direction = d0 + (g0 + g1) / 2 * s;
		max_speed += std::max(std::fabs(a0), std::fabs(a1)) * s;
		path += max_speed * s;
		double t = std::max(std::fabs(g0), std::fabs(g1)) * s;
		turn += t;
		max_step = std::max(max_step, t * rad);
		// Within a step, the speed needn't be seen to change.
		wobble += std::max(std::fabs(a0), std::fabs(a1)) * s * s * t * rad / 4;
		count++;
	}
};

template <typename Scale>
static void tracker_case(Src& src) {
	World w(src);
	w.preempt = src.chance(1, 4) ? 0 : 1 + (unsigned)src.draw(8);
	w.oversleep = src.chance(1, 2) ? 0 : src.range(1, src.chance(1, 2) ? 100 * US : 20 * MS);
	dev::Bench b;
	b.ioctl_cost = src.range(20, 1000);
	const sim::ns_t slack = 5 * US + 60 * (b.ioctl_cost + w.clock_cost + w.mutex_cost);
	Logs logs(src);
	Log* log = logs.get();
	OneTarget t(src, b, log);
	t.bus.targets.clear();
	t.addr = 0x68;
	t.swap = true;
	t.bus.targets[t.addr];

	if (src.chance(1, 6)) {
		std::string ex = thrown([&] { abc::gpio_smbus_motion_tracker<Scale, Log> none(nullptr, log); });
		CHECK(!ex.empty(), "a tracker without a motion sensor was made");
		CHECK(w.all_done(), "a tracker that couldn't be made left a thread behind");
		src.label("invalid tracker");
	}

	// The signals of the sensor.
	struct Signal {
		unsigned kind = 0;		// constant, random, wave
		int level = 0, spread = 0;
		sim::ns_t period = SEC;
	} accel, gyro;
	auto sample = [&](const Signal& s) -> int {
		double v = s.level;
		if (s.kind == 1) {
			v += (double)src.draw(2 * s.spread + 1) - s.spread;
		}
		else if (s.kind == 2) {
			v += s.spread * std::sin(6.2831853 * (double)(w.now % s.period) / (double)s.period);
		}
		return std::max(-32768, std::min(32767, (int)v));
	};
	auto gen_signal = [&](Signal& s, int limit) {
		s.kind = (unsigned)src.draw(3);
		s.level = src.chance(1, 3) ? 0 : (int)src.range(-limit, limit);
		s.spread = (int)src.draw((std::uint64_t)limit + 1);
		s.period = src.range(5, 500) * MS;
	};
	struct Sample {
		sim::ns_t when;
		double a, g;
	};
	std::vector<Sample> samples;
	int last_a = 0;
	const double unit = 9.80665 * Scale::den / Scale::num;
	abc::gpio_smbus_motion_measurements cal{};
	bool tracking = false;
	t.target().word = [&](unsigned reg) -> std::uint16_t {
		int v = 0;
		if (reg == 0x3b) {
			v = last_a = sample(accel);
		}
		else if (reg == 0x47) {
			v = sample(gyro);
			if (tracking) {
				samples.push_back({ w.now, motion_expected(0, last_a, cal.accel_x) * unit, motion_expected(5, v, cal.gyro_z) });
			}
		}
		return t.wire((std::uint16_t)v);
	};
	gen_signal(accel, 3000);
	gen_signal(gyro, 5000);
	Motion motion(t.smbus.get(), log);
	if (src.chance(1, 3)) {
		motion.calibrate(abc::gpio_smbus_motion_channel::all);
		cal = motion.calibration();
	}
	tracking = true;

	typedef abc::gpio_smbus_motion_tracker<Scale, Log> Tracker;
	sim::ns_t t0 = w.now;
	std::unique_ptr<Tracker> tracker = make<Tracker>(&motion, log);
	CHECK(!tracker->is_running(), "a new tracker is running");
	bool run = false;
	sim::ns_t since = w.now;			// when it was started or stopped
	bool certain = false;				// it has had the time to stop
	sim::ns_t stopped_at = -1;
	Track ideal, before;
	std::size_t used = 0;				// samples in the model
	sim::ns_t previous = -1;
	std::size_t segments = 0, integrated = 0;
	auto advance = [&] {
		for (; used < samples.size(); used++) {
			const Sample& s = samples[used];
			before = ideal;
			if (used > 0 && s.when - samples[used - 1].when < 150 * MS && previous >= 0) {
				const Sample& p = samples[used - 1];
				double sec = (double)(s.when - p.when) / 1e9;
				ideal.step(sec, p.a, s.a, p.g, s.g);
				integrated++;
			}
			else {
				if (used > 0 && previous >= 0) {
					ideal.speed = 0;
				}
				segments++;
			}
			previous = s.when;
		}
	};
	auto close = [](double got, double a, double b, double tol) {
		double lo = std::min(a, b) - tol, hi = std::max(a, b) + tol;
		return got >= lo && got <= hi;
	};
	auto look = [&](const char* when) {
		double depth = tracker->depth(), width = tracker->width(), direction = tracker->direction(), speed = tracker->speed();
		advance();
		src.note(pbt::fmt("%s: %zu samples, depth %.6g width %.6g direction %.6g speed %.6g", when, samples.size(), depth, width, direction, speed));
		// While it's running, the last sample may or may not be in already.
		const Track& other = run || !certain ? before : ideal;
		CHECK(close(depth, ideal.depth, other.depth, ideal.tol_position()), "%s, the depth is %.9g instead of %.9g after %zu samples (tolerance %.3g)", when, depth, ideal.depth, samples.size(), ideal.tol_position());
		CHECK(close(width, ideal.width, other.width, ideal.tol_position()), "%s, the width is %.9g instead of %.9g after %zu samples (tolerance %.3g)", when, width, ideal.width, samples.size(), ideal.tol_position());
		CHECK(close(direction, ideal.direction, other.direction, ideal.tol_direction()), "%s, the direction is %.9g instead of %.9g after %zu samples (tolerance %.3g)", when, direction, ideal.direction, samples.size(), ideal.tol_direction());
		if (run) {
			// A tracker that stopped has the speed 0 until it measures again.
			bool resting = previous >= 0 && stopped_at >= 0 && previous <= stopped_at + MS + w.oversleep + slack && speed == 0;
			CHECK(resting || close(speed, ideal.speed, other.speed, ideal.tol_speed()), "%s, the speed is %.9g instead of %.9g after %zu samples (tolerance %.3g)", when, speed, ideal.speed, samples.size(), ideal.tol_speed());
		}
	};
	std::size_t steps = 2 + src.len(14);
	std::size_t set_at = 0;				// samples when the speed was set
	for (std::size_t s = 0; s < steps; s++) {
		switch (src.draw(9)) {
			case 8:
				// A full stop first.
				if (run) {
					src.note("stop, and start again later");
					tracker->stop();
					sim::sleep_ns(MS * src.range(10, 260));
					since = stopped_at = w.now;
					run = false;
				}
				// fall through
			case 0:
			case 1: {
				src.note("start");
				tracker->start();
				if (!run) {
					since = w.now;
				}
				run = true;
				break;
			}
			case 2: {
				src.note("stop");
				tracker->stop();
				if (run) {
					stopped_at = w.now;
					since = w.now;
					certain = false;
				}
				run = false;
				break;
			}
			case 3: {
				gen_signal(src.chance(1, 2) ? accel : gyro, 3000);
				break;
			}
			case 4: {
				// An adjustment while the tracker is certainly idle.
				if (run || w.now - since < 10 * MS + 2 * w.oversleep) {
					break;
				}
				advance();
				if (certain && previous >= 0) {
					// It has stopped, so the speed is 0 and the next sample starts anew.
					previous = -1;
					ideal.speed = 0;
				}
				double v = (double)src.range(-1000000, 1000000) / 1000;
				switch (src.draw(4)) {
					case 0: tracker->set_depth(v); ideal.depth = v; CHECK(tracker->depth() == v, "the depth is %g after set_depth(%g)", tracker->depth(), v); break;
					case 1: tracker->set_width(v); ideal.width = v; CHECK(tracker->width() == v, "the width is %g after set_width(%g)", tracker->width(), v); break;
					case 2: tracker->set_direction(v); ideal.direction = v; CHECK(tracker->direction() == v, "the direction is %g after set_direction(%g)", tracker->direction(), v); break;
					default:
						tracker->set_speed(v);
						ideal.speed = v;
						ideal.max_speed += std::fabs(v);
						set_at = samples.size();
						CHECK(tracker->speed() == v, "the speed is %g after set_speed(%g)", tracker->speed(), v);
						break;
				}
				src.note(pbt::fmt("adjusted to %g", v));
				before = ideal;
				src.label("adjusted");
				break;
			}
			default: {
				sim::ns_t d = src.chance(1, 3) ? src.range(1, 6 * MS) : src.chance(1, 2) ? src.range(1, 250 * MS) : 200 * MS + src.range(1, 300 * MS);
				src.note(pbt::fmt("%lld us pass", (long long)(d / US)));
				sim::sleep_ns(d);
				break;
			}
		}
		if (!run && w.now - since >= 10 * MS + 2 * w.oversleep && !certain) {
			certain = true;
		}
		b.check();
		CHECK(tracker->is_running() == run, "is_running() is %d although the tracker was %s", tracker->is_running(), run ? "started" : "stopped");
		std::size_t known = samples.size();
		look(run ? "while it's running" : "while it's stopped");
		if (!run && certain && known == samples.size() && samples.size() > set_at) {
			CHECK(tracker->speed() == 0, "the speed is %g although the tracker is stopped", tracker->speed());
		}
		// It measures when it's to measure.
		if (run && w.now - since > 210 * MS + 2 * w.oversleep + slack) {
			CHECK(!samples.empty() && w.now - samples.back().when <= MS + w.oversleep + slack, "a running tracker hasn't measured for %lld us", (long long)((w.now - (samples.empty() ? t0 : samples.back().when)) / US));
		}
		if (!run && !samples.empty()) {
			CHECK(samples.back().when <= since + MS + w.oversleep + slack, "a tracker measured %lld us after it was stopped", (long long)((samples.back().when - since) / US));
		}
	}
	for (std::size_t i = 1; i < samples.size(); i++) {
		sim::ns_t d = samples[i].when - samples[i - 1].when;
		CHECK(d >= 200 * MS || (d >= MS && d <= MS + w.oversleep + slack), "%lld us passed between two measurements", (long long)(d / US));
	}
	sim::ns_t end = w.now;
	tracker.reset();
	src.note(pbt::fmt("gone after %lld us", (long long)((w.now - end) / US)));
	CHECK(w.now - end <= 201 * MS + 2 * w.oversleep + 2 * slack, "the tracker took %lld us to stop", (long long)((w.now - end) / US));
	CHECK(w.all_done(), "a thread is left behind");
	b.check();
	if (integrated >= 2) {
		src.nontrivial();
		src.label(segments > 1 ? "tracked in several parts" : "tracked");
	}
}

static void c29(Src& src) {
	switch (src.draw(4)) {
		case 0: tracker_case<std::centi>(src); break;
		case 1: tracker_case<std::ratio<1>>(src); break;
		default: emulator_case(src); break;
	}
}
static pbt::Reg r29("C29", 0, 0, "a PWM wave of at least 3 pulses, or a track over at least 2 intervals between measurements", c29);
