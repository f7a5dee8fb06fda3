// Timestamps, lines, logs, buffer_streambuf and the ASCII predicates.
#include "pbt.h"
#include "streams.h"
#include "log.h"
#include "ascii.h"
#include <climits>
#include <ctime>
#include <sstream>
#include <thread>

using pbt::Src;
using pbt::fmt;

// A clock under the control of the case.
template <typename Duration>
struct SimClock {
	using duration = Duration;
	using rep = typename Duration::rep;
	using period = typename Duration::period;
	using time_point = std::chrono::time_point<SimClock>;
	static constexpr bool is_steady = false;
	static rep& value() {
		static rep v = 0;
		return v;
	}
	static time_point now() noexcept {
		return time_point(duration(value()));
	}
};
using NanoClock = SimClock<std::chrono::nanoseconds>;
using MicroClock = SimClock<std::chrono::microseconds>;
using SecClock = SimClock<std::chrono::duration<std::int64_t>>;

struct Civil {
	int y, mo, d, h, mi, s;
	std::int64_t ns;
};

// The oracle for the calendar: the C library.
static Civil civil(std::int64_t days, std::int64_t ns_of_day) {
	time_t t = (time_t)days * 86400 + ns_of_day / 1000000000;
	struct tm tm;
	gmtime_r(&t, &tm);
	return Civil{ tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, ns_of_day % 1000000000 };
}

template <typename Clock>
static void check_ts(const abc::timestamp<Clock>& ts, std::int64_t days, std::int64_t nsd) {
	Civil c = civil(days, nsd);
	CHECK(ts.year() == c.y && ts.month() == c.mo && ts.day() == c.d, "day %lld: %d-%d-%d, expected %d-%d-%d", (long long)days, (int)ts.year(), (int)ts.month(), (int)ts.day(), c.y, c.mo, c.d);
	CHECK(ts.hours() == c.h && ts.minutes() == c.mi && ts.seconds() == c.s, "%lld ns after midnight: %d:%d:%d, expected %d:%d:%d", (long long)nsd, (int)ts.hours(), (int)ts.minutes(), (int)ts.seconds(), c.h, c.mi, c.s);
	CHECK(ts.milliseconds() == c.ns / 1000000 && ts.microseconds() == c.ns / 1000 && ts.nanoseconds() == c.ns, "%lld ns of a second: %d ms, %d us, %d ns", (long long)c.ns, (int)ts.milliseconds(), (int)ts.microseconds(), (int)ts.nanoseconds());
}

static constexpr std::int64_t NS_DAY = 86400ll * 1000000000ll;

static std::int64_t gen_day(Src& src, std::int64_t max_day) {
	std::int64_t d;
	switch (src.draw(6)) {
		case 0: d = src.draw(1000); break;
		case 1: d = src.draw(max_day + 1); break;
		case 2: {
			// Around the end of February and the end of a year of any year.
			std::int64_t y = 1970 + src.draw(max_day / 366 + 1);
			struct tm tm {};
			tm.tm_year = (int)(y - 1900);
			tm.tm_mon = src.draw(2) ? 1 : 11;
			tm.tm_mday = tm.tm_mon == 1 ? 28 : 31;
			d = timegm(&tm) / 86400 + src.range(-1, 2);
			break;
		}
		case 3: {
			// Around the turn of a century.
			std::int64_t c = 2000 + 100 * (std::int64_t)src.draw(max_day / 36525 + 1);
			struct tm tm {};
			tm.tm_year = (int)(c - 1900);
			tm.tm_mon = src.draw(3);
			tm.tm_mday = 1;
			d = timegm(&tm) / 86400 + src.range(-35, 35);
			break;
		}
		case 4: d = 146097ll * src.draw(max_day / 146097 + 1) + src.range(-800, 800); break;
		default: d = src.draw(100000); break;
	}
	return d < 0 ? 0 : d > max_day ? max_day : d;
}

static std::int64_t gen_ns(Src& src) {
	switch (src.draw(4)) {
		case 0: return src.draw(NS_DAY);
		case 1: return src.draw(86400) * 1000000000ll + (src.draw(2) ? 999999999 : 0);
		case 2: return src.draw(2) ? NS_DAY - 1 - src.draw(3) : src.draw(3);
		default: return (src.draw(1440) * 60 + (src.draw(2) ? 59 : 0)) * 1000000000ll + src.draw(1000) * 1000000ll;
	}
}

static void ts_case(Src& src) {
	std::int64_t max_ns_day = INT64_MAX / NS_DAY - 1;		// 2262
	std::int64_t d1 = gen_day(src, max_ns_day), n1 = gen_ns(src);
	std::int64_t d2 = src.draw(3) ? gen_day(src, max_ns_day) : d1, n2 = src.draw(3) ? gen_ns(src) : n1;
	src.note(fmt("day %lld ns %lld; day %lld ns %lld", (long long)d1, (long long)n1, (long long)d2, (long long)n2));
	using TP = std::chrono::time_point<NanoClock>;
	TP p1(std::chrono::nanoseconds(d1 * NS_DAY + n1)), p2(std::chrono::nanoseconds(d2 * NS_DAY + n2));
	abc::timestamp<NanoClock> t1(p1), t2(p2);
	check_ts(t1, d1, n1);
	check_ts(t2, d2, n2);
	CHECK(t1.time_since_epoch() == p1.time_since_epoch(), "the time point has changed");
	CHECK((t1 == t2) == (p1 == p2), "== of %lld and %lld ns", (long long)p1.time_since_epoch().count(), (long long)p2.time_since_epoch().count());
	CHECK((t1 != t2) == (p1 != p2) && (t1 < t2) == (p1 < p2) && (t1 <= t2) == (p1 <= p2) && (t1 > t2) == (p1 > p2) && (t1 >= t2) == (p1 >= p2),
		"order of %lld and %lld ns", (long long)p1.time_since_epoch().count(), (long long)p2.time_since_epoch().count());
	// Now, and resets.
	NanoClock::value() = d2 * NS_DAY + n2;
	abc::timestamp<NanoClock> now;
	check_ts(now, d2, n2);
	abc::timestamp<NanoClock> copy(now);
	CHECK(copy == now && copy == t2, "a copy differs");
	now.reset(p1);
	check_ts(now, d1, n1);
	CHECK(now == t1, "after a reset to the same time point, two timestamps differ");
	now.reset(d2 * NS_DAY + n2);
	check_ts(now, d2, n2);
	abc::timestamp<NanoClock> zero(nullptr);
	check_ts(zero, 0, 0);
	zero.reset_time(n2);
	check_ts(zero, 0, n2);
	std::int64_t far = gen_day(src, 146097ll * 74);		// up to year 31570
	src.note(fmt("reset_date(%lld)", (long long)far));
	zero.reset_date((abc::date_count_t)far);
	check_ts(zero, far, n2);
	// Coarser clocks.
	MicroClock::value() = (d1 * NS_DAY + n1) / 1000;
	check_ts(abc::timestamp<MicroClock>(), d1, n1 / 1000 * 1000);
	SecClock::value() = (d1 * NS_DAY + n1) / 1000000000;
	check_ts(abc::timestamp<SecClock>(), d1, n1 / 1000000000 * 1000000000);
	std::chrono::system_clock::time_point sp{ std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds(d1 * NS_DAY + n1)) };
	check_ts(abc::timestamp<>(sp), d1, n1);
	Civil c = civil(d1, n1);
	if (d1 > 800) {
		src.nontrivial();
	}
	if (c.y >= 2100) src.label("2100 or later");
	if ((c.mo == 2 && c.d >= 28) || (c.mo == 3 && c.d == 1)) src.label("end of February");
}

// ---------------------------------------------------------------- formatted values

struct Formatted {
	std::string text;
	std::function<void(const char*, const std::function<void(const char*, ...)>&)> put;
};

static std::string gen_text(Src& src, std::size_t max, bool newlines) {
	std::size_t n = src.len(max);
	std::string r;
	for (std::size_t i = 0; i < n; i++) {
		char c = src.draw(8) == 7 ? (char)(1 + src.draw(255)) : (char)(32 + src.draw(95));
		if (c == '\n' && !newlines) {
			c = ' ';
		}
		r += c;
	}
	return r;
}

// Puts one formatted value through put(format, args...), and returns the text it stands for.
template <typename Put>
static std::string gen_put(Src& src, std::size_t max, bool newlines, Put&& put) {
	switch (src.draw(8)) {
		case 0: {
			std::string s = gen_text(src, max, newlines);
			put("%s", s.c_str());
			return s;
		}
		case 1: {
			int v = (int)src.range(-100000, 100000);
			put("%d", v);
			return fmt("%d", v);
		}
		case 2: {
			unsigned long long v = src.u64();
			unsigned u = (unsigned)src.draw(1000);
			put("<%llu %4.4x>", v, u);
			return fmt("<%llu %4.4x>", v, u);
		}
		case 3: {
			std::string s = gen_text(src, 20, newlines), t = gen_text(src, 20, newlines);
			std::size_t z = src.u64();
			put("%s=%zu, '%s'", s.c_str(), z, t.c_str());
			return s + fmt("=%zu, '", z) + t + "'";
		}
		case 4: {
			int w = (int)src.draw(max + 1);
			put("%*d", w, 7);
			std::string r = "7";
			return std::string((std::size_t)w > r.size() ? w - r.size() : 0, ' ') + r;
		}
		case 5: {
			put("");
			return "";
		}
		case 6: {
			double d = (double)src.range(-1000000, 1000000) / 7;
			put("%.3f%%", d);
			return fmt("%.3f%%", d);
		}
		default: {
			std::string s = gen_text(src, max, newlines);
			int n = (int)src.draw(s.size() + 1);
			put("%.*s", n, s.c_str());
			return s.substr(0, n);
		}
	}
}

static std::string dump_line(const std::string& data, std::size_t off) {
	std::string r = fmt("%04x:", (unsigned)(off & 0xffff));
	for (std::size_t i = 0; i < 16; i++) {
		if (i % 8 == 0) {
			r += ' ';
		}
		r += off + i < data.size() ? fmt("%02x ", (unsigned)(unsigned char)data[off + i]) : std::string("   ");
	}
	r += ' ';
	for (std::size_t i = 0; i < 16; i++) {
		unsigned char c = off + i < data.size() ? data[off + i] : ' ';
		r += c >= 0x20 && c < 0x7f ? (char)c : '.';
	}
	return r;
}

static std::string my_thread_id() {
	std::ostringstream s;
	s << std::hex << std::this_thread::get_id();
	return s.str();
}

// Collects puts and remembers the boundaries of the flushes.
class LineSink : public SinkBuf {
};

// ---------------------------------------------------------------- a line

template <std::size_t Size>
static void line_case(Src& src) {
	SinkBuf sink;
	abc::table_ostream table(&sink);
	using L = abc::line_ostream<Size>;
	bool has_table = src.draw(6) != 5;
	// On the heap with an exact size, so that accesses outside of the line are seen.
	std::unique_ptr<L> line(has_table ? new L(&table) : src.draw(2) ? new L(nullptr) : new L());
	std::string cur, out;
	std::size_t over = 0, flushes = 0, dumps = 0, moves = 0;
	std::size_t n = src.len(40);
	auto add = [&](const std::string& s) {
		// A line keeps the chars that fit.
		std::size_t room = Size > 0 ? Size - 1 : 0;
		if (cur.size() + s.size() > room) {
			over++;
		}
		cur += s;
		if (cur.size() > room) {
			cur.resize(room);
		}
	};
	for (std::size_t i = 0; i < n; i++) {
		switch (src.draw(9)) {
			case 0:
			case 1:
			case 2: {
				std::string s = gen_put(src, src.draw(4) == 3 ? Size + 10 : 20, true, [&](const char* f, auto... args) {
					line->put_any(f, args...);
				});
				src.note("put_any " + pbt::quote(s));
				add(s);
				break;
			}
			case 3: {
				std::int64_t d = gen_day(src, 100000), ns = gen_ns(src);
				Civil c = civil(d, ns);
				src.note("put_timestamp");
				line->put_timestamp(abc::timestamp<NanoClock>(std::chrono::time_point<NanoClock>(std::chrono::nanoseconds(d * NS_DAY + ns))), "%4.4u-%2.2u-%2.2u %2.2u:%2.2u:%2.2u.%3.3u");
				add(fmt("%4.4u-%2.2u-%2.2u %2.2u:%2.2u:%2.2u.%3.3u", c.y, c.mo, c.d, c.h, c.mi, c.s, (unsigned)(c.ns / 1000000)));
				break;
			}
			case 4:
				src.note("put_thread_id");
				if (src.draw(2)) {
					line->put_thread_id(std::this_thread::get_id());
					add(my_thread_id());
				}
				else {
					line->put_thread_id(std::this_thread::get_id(), "[%20s]");
					add(fmt("[%20s]", my_thread_id().c_str()));
				}
				break;
			case 5: {
				std::string data;
				std::size_t dn = src.draw(3) == 0 ? 16 * src.draw(5) : src.draw(70);
				for (std::size_t k = 0; k < dn; k++) {
					data += (char)src.draw(256);
				}
				std::size_t off = src.draw(3) == 2 ? src.draw(dn + 20) : 16 * src.draw(dn / 16 + 2);
				std::size_t off0 = off;
				std::unique_ptr<char[]> mem(new char[dn]);
				memcpy(mem.get(), data.data(), dn);
				bool more = line->put_binary(mem.get(), dn, off);
				src.note(fmt("put_binary(%zu bytes, offset %zu) -> %d, offset %zu", dn, off0, (int)more, off));
				bool fits = Size >= cur.size() + 73;
				bool put = off0 < dn && off0 % 16 == 0 && fits;
				if (put) {
					CHECK(off == off0 + 16, "the offset after the line is %zu", off);
					CHECK(more == (off < dn), "put_binary() of %zu bytes at %zu says %s", dn, off0, more ? "more" : "no more");
					add(dump_line(data, off0));
					dumps++;
				}
				else {
					CHECK(off == off0 && !more, "nothing could be put, but the offset is %zu of %zu", off, off0);
				}
				break;
			}
			case 6:
				src.note("flush");
				line->flush();
				flushes++;
				if (has_table) {
					out += cur + "\n";
				}
				cur.clear();
				break;
			case 7:
				if (src.draw(3) == 0) {
					src.note("move the line");
					std::unique_ptr<L> other(new L(std::move(*line)));
					line = std::move(other);
					moves++;
				}
				else {
					src.note("put_any with an invalid wide char");
					static const wchar_t wide[] = { 0x1234, 0 };
					line->put_any("%ls", wide);
				}
				break;
			default: {
				const char* g = line->get();
				CHECK(strcmp(g, cur.c_str()) == 0, "the line is %s, expected %s", pbt::quote(g).c_str(), pbt::quote(cur).c_str());
				break;
			}
		}
		CHECK(sink.synced == sink.data.size(), "a line has reached the table, which has not flushed it to its buffer");
		CHECK(sink.data == out, "the table has %s, expected %s", pbt::quote(sink.data, 2000).c_str(), pbt::quote(out, 2000).c_str());
	}
	line.reset();
	if (has_table) {
		out += cur + "\n";
	}
	CHECK(sink.synced == sink.data.size(), "the table has not flushed its last line to its buffer");
	CHECK(sink.data == out, "at the end the table has %s, expected %s", pbt::quote(sink.data, 2000).c_str(), pbt::quote(out, 2000).c_str());
	if (over) src.label("did not fit");
	if (dumps) src.label("binary dump");
	if (moves) src.label("line moved");
	if (has_table && flushes && out.size() > 20) {
		src.nontrivial();
	}
}

// ---------------------------------------------------------------- a log

struct CategoryFilter {
	std::uint16_t mask = 0;
	bool is_enabled(abc::category_t category, abc::severity_t severity) const noexcept {
		return (category & mask) == 0 && severity % 3 != 1;
	}
};

enum Kind { DEBUG, DIAG, TEST };

static std::string props_text(Kind k, const Civil& c, unsigned cat, unsigned sev, unsigned long long tag) {
	unsigned ms = (unsigned)(c.ns / 1000000);
	switch (k) {
		case DEBUG: {
			std::string id = my_thread_id();
			if (id.size() < 16) {
				id.insert(0, 16 - id.size(), ' ');
			}
			return fmt("%04d-%02d-%02d %02d:%02d:%02d.%03u | ", c.y, c.mo, c.d, c.h, c.mi, c.s, ms) + id + fmt(" | %04x | %x | %16llx | ", cat, sev, tag);
		}
		case DIAG:
			return fmt("%04d-%02d-%02dT%02d:%02d:%02d.%03uZ,", c.y, c.mo, c.d, c.h, c.mi, c.s, ms) + my_thread_id() + fmt(",%04x,%x,%llx,", cat, sev, tag);
		default: {
			unsigned ind = sev == 0 ? 0 : sev > 8 ? 7 : sev - 1;
			return fmt("%04d-%02d-%02d %02d:%02d:%02d.%03u ", c.y, c.mo, c.d, c.h, c.mi, c.s, ms) + std::string(2 * ind, ' ');
		}
	}
}

template <typename Line, Kind K, std::size_t Size, typename Filter>
static void log_case_f(Src& src, Filter* filter, std::function<bool(unsigned, unsigned)> enabled, std::function<void()> change) {
	SinkBuf sink;
	using Log = abc::log_ostream<Line, Filter>;
	std::unique_ptr<Log> log(new Log(&sink, filter));
	std::string out;
	std::size_t n = 1 + src.len(30), passed = 0, skipped = 0, over = 0;
	std::int64_t d = gen_day(src, 100000), ns = gen_ns(src);
	auto fit = [&](std::string s) {
		if (s.size() > Size - 1) {
			s.resize(Size - 1);
			over++;
		}
		return s + "\n";
	};
	for (std::size_t i = 0; i < n; i++) {
		if (src.draw(4) == 3) {
			d = gen_day(src, 100000);
			ns = gen_ns(src);
		}
		NanoClock::value() = d * NS_DAY + ns;
		Civil c = civil(d, ns);
		unsigned cat = (unsigned)(src.draw(2) ? 0x8000 + src.draw(12) : src.draw(0x10000));
		unsigned sev = (unsigned)src.draw(src.draw(10) == 9 ? 16 : 10);
		unsigned long long tag = src.draw(2) ? src.u64() : src.draw(0x20000);
		bool on = filter == nullptr || enabled(cat, sev);
		on ? passed++ : skipped++;
		switch (src.draw(8)) {
			case 0: {
				std::string data;
				std::size_t dn = src.draw(3) == 0 ? 16 * src.draw(5) : src.draw(70);
				if (src.draw(400) == 399) {
					dn = 65530 + src.draw(40);
				}
				for (std::size_t k = 0; k < dn; k++) {
					data += (char)(dn > 1000 ? k * 7 : src.draw(256));
				}
				src.note(fmt("put_binary(cat %x sev %u, %zu bytes)%s", cat, sev, dn, on ? "" : " filtered"));
				std::unique_ptr<char[]> mem(new char[dn]);
				memcpy(mem.get(), data.data(), dn);
				log->put_binary(cat, sev, tag, mem.get(), dn);
				if (on) {
					std::string p = props_text(K, c, cat, sev, tag);
					if (dn == 0 || p.size() + 73 > Size) {
						out += fit(p);
					}
					else {
						for (std::size_t o = 0; o < dn; o += 16) {
							out += fit(p + dump_line(data, o));
						}
					}
				}
				break;
			}
			case 1:
				src.note(fmt("put_blank_line(cat %x sev %u)%s", cat, sev, on ? "" : " filtered"));
				log->put_blank_line(cat, sev);
				if (on) {
					out += "\n";
				}
				break;
			case 2: {
				change();
				if (src.draw(3) == 2) {
					src.note("move the log");
					std::unique_ptr<Log> other(new Log(std::move(*log)));
					log = std::move(other);
					CHECK(log->filter() == filter, "the filter is lost on move");
				}
				on ? passed-- : skipped--;
				break;
			}
			case 3: {
				// A line of its own over the log.
				src.note(fmt("line.put_any(cat %x sev %u)", cat, sev));
				Line line(log.get());
				std::string s = gen_put(src, 20, false, [&](const char* f, auto... args) {
					line.put_any(cat, sev, tag, f, args...);
				});
				out += fit(props_text(K, c, cat, sev, tag) + s);
				if (src.draw(2)) {
					line.flush();
					s = gen_put(src, 20, false, [&](const char* f, auto... args) {
						line.put_any(cat, sev, tag, f, args...);
					});
					out += fit(props_text(K, c, cat, sev, tag) + s);
				}
				break;
			}
			default: {
				std::string s = gen_put(src, src.draw(6) == 5 ? Size + 50 : 30, true, [&](const char* f, auto... args) {
					log->put_any(cat, sev, tag, f, args...);
				});
				src.note(fmt("put_any(cat %x sev %u tag %llx) ", cat, sev, tag) + pbt::quote(s) + (on ? "" : " filtered"));
				if (on) {
					out += fit(props_text(K, c, cat, sev, tag) + s);
				}
				break;
			}
		}
		CHECK(sink.synced == sink.data.size(), "the log has not flushed a line to its buffer");
		if (sink.data != out) {
			std::size_t p = 0;
			while (p < out.size() && p < sink.data.size() && out[p] == sink.data[p]) {
				p++;
			}
			std::size_t b = p > 60 ? p - 60 : 0;
			pbt::fail(fmt("the log differs at byte %zu: %s, expected %s", p, pbt::quote(sink.data.substr(b, 200)).c_str(), pbt::quote(out.substr(b, 200)).c_str()));
		}
	}
	if (passed > 2 && skipped > 0) {
		src.nontrivial();
	}
	if (over) src.label("did not fit");
}

template <typename Line, Kind K, std::size_t Size>
static void log_case(Src& src) {
	{
		// The lower the number, the higher the severity.
		abc::severity_t a = (abc::severity_t)src.draw(12), b = (abc::severity_t)src.draw(12);
		CHECK(abc::severity::is_higher(a, b) == (a < b), "is_higher(%u, %u)", (unsigned)a, (unsigned)b);
		CHECK(abc::severity::is_higher_or_equal(a, b) == (a <= b), "is_higher_or_equal(%u, %u)", (unsigned)a, (unsigned)b);
	}
	if (src.draw(3) == 2) {
		CategoryFilter f;
		log_case_f<Line, K, Size, CategoryFilter>(src, src.draw(8) == 7 ? nullptr : &f,
			[&](unsigned cat, unsigned sev) { return (cat & f.mask) == 0 && sev % 3 != 1; },
			[&] { f.mask = (std::uint16_t)(1u << src.draw(16)); });
	}
	else {
		unsigned min = (unsigned)src.draw(10);
		abc::log_filter f((abc::severity_t)min);
		log_case_f<Line, K, Size, abc::log_filter>(src, src.draw(8) == 7 ? nullptr : &f,
			[&](unsigned, unsigned sev) { return sev <= min; },
			[&] {
				unsigned m = (unsigned)src.draw(10);
				CHECK(f.min_severity() == min, "min_severity() is %u, not %u", (unsigned)f.min_severity(), min);
				CHECK(f.min_severity((abc::severity_t)m) == min, "min_severity(%u) does not return the old one", m);
				min = m;
			});
	}
}

// ---------------------------------------------------------------- buffer_streambuf

template <typename Char>
static void buffer_case(Src& src) {
	using SB = abc::basic_buffer_streambuf<Char>;
	using Tr = std::char_traits<Char>;
	std::size_t gn = src.len(60), pn = src.len(60);
	std::size_t gb = src.draw(gn + 1), ge = gb + src.draw(gn - gb + 1);
	std::size_t pb = src.draw(pn + 1), pe = pb + src.draw(pn - pb + 1);
	bool same = src.draw(4) == 3;		// read back what is written
	bool has_get = same || src.draw(6) != 5, has_put = same || src.draw(6) != 5;
	if (same) {
		pn = gn;
		pb = gb;
		pe = ge;
		if (src.draw(2)) {
			// Ranges of one buffer that overlap in any way.
			pb = src.draw(pn + 1);
			pe = pb + src.draw(pn - pb + 1);
		}
	}
	std::unique_ptr<Char[]> g(new Char[gn]), p(new Char[pn]);
	std::vector<Char> get(gn), put(pn);
	for (std::size_t i = 0; i < gn; i++) {
		g[i] = get[i] = (Char)src.draw(src.draw(2) ? 256 : 128);
	}
	for (std::size_t i = 0; i < pn; i++) {
		p[i] = put[i] = (Char)src.draw(128);
	}
	if (!has_get) {
		gb = ge = 0;
	}
	if (!has_put) {
		pb = pe = 0;
	}
	Char* gp = has_get ? g.get() : nullptr;
	Char* pp = has_put ? (same ? g.get() : p.get()) : nullptr;
	std::vector<Char>& pm = same ? get : put;
	src.note(fmt("%zu-byte chars, get [%zu,%zu) of %zu, put [%zu,%zu) of %zu%s", sizeof(Char), gb, ge, gn, pb, pe, pn, same ? " (same buffer)" : ""));
	std::unique_ptr<SB> sb(src.draw(2) || !has_get || !has_put ? new SB(gp, gb, ge, pp, pb, pe) : new SB(gp + gb, gp + ge, pp + pb, pp + pe));
	std::size_t gi = gb, pi = pb, n = src.len(60), moves = 0, reads = 0, writes = 0;
	for (std::size_t i = 0; i < n; i++) {
		switch (src.draw(8)) {
			case 0: {
				auto c = sb->sgetc();
				CHECK(gi < ge ? c == Tr::to_int_type(get[gi]) : c == Tr::eof(), "sgetc() at %zu of %zu is %d", gi, ge, (int)c);
				break;
			}
			case 1:
			case 2: {
				auto c = sb->sbumpc();
				CHECK(gi < ge ? c == Tr::to_int_type(get[gi]) : c == Tr::eof(), "sbumpc() at %zu of %zu is %d", gi, ge, (int)c);
				if (gi < ge) {
					gi++;
					reads++;
				}
				break;
			}
			case 3: {
				std::size_t k = src.draw(20);
				std::vector<Char> buf(k + 1);
				std::size_t r = sb->sgetn(buf.data(), k);
				CHECK(r == std::min(k, ge - gi), "sgetn(%zu) at %zu of %zu returned %zu", k, gi, ge, r);
				for (std::size_t j = 0; j < r; j++) {
					CHECK(buf[j] == get[gi + j], "char %zu", gi + j);
				}
				gi += r;
				reads += r;
				break;
			}
			case 4: {
				Char c = (Char)src.draw(256);
				auto r = sb->sputc(c);
				CHECK(pi < pe ? r == Tr::to_int_type(c) : r == Tr::eof(), "sputc() at %zu of %zu returned %d", pi, pe, (int)r);
				if (pi < pe) {
					pm[pi++] = c;
					writes++;
				}
				break;
			}
			case 5: {
				std::size_t k = src.draw(20);
				std::vector<Char> buf(k + 1);
				for (std::size_t j = 0; j < k; j++) {
					buf[j] = (Char)src.draw(256);
				}
				std::size_t r = sb->sputn(buf.data(), k);
				CHECK(r == std::min(k, pe - pi), "sputn(%zu) at %zu of %zu returned %zu", k, pi, pe, r);
				for (std::size_t j = 0; j < r; j++) {
					pm[pi + j] = buf[j];
				}
				pi += r;
				writes += r;
				break;
			}
			case 6: {
				if (src.draw(2)) {
					auto r = sb->sungetc();
					if (gi > gb) {
						gi--;
						CHECK(r == Tr::to_int_type(get[gi]), "sungetc()");
					}
					else {
						CHECK(r == Tr::eof(), "sungetc() before the beginning");
					}
				}
				else {
					CHECK(sb->in_avail() == (ge > gi ? (std::streamsize)(ge - gi) : sb->in_avail()), "in_avail() is %lld of %zu", (long long)sb->in_avail(), ge - gi);
					CHECK(sb->pubsync() == 0, "sync");
				}
				break;
			}
			default:
				if (src.draw(2)) {
					src.note("move");
					std::unique_ptr<SB> other(new SB(std::move(*sb)));
					sb = std::move(other);
					moves++;
				}
				break;
		}
		for (std::size_t j = 0; j < gn; j++) {
			CHECK(g[j] == get[j], "the get buffer has changed at %zu (get range [%zu,%zu))", j, gb, ge);
		}
		for (std::size_t j = 0; !same && j < pn; j++) {
			CHECK(p[j] == put[j], "the put buffer is wrong at %zu (put range [%zu,%zu))", j, pb, pe);
		}
	}
	if (moves) src.label("moved");
	if (reads + writes > 3) {
		src.nontrivial();
	}
}

// ---------------------------------------------------------------- ASCII

static void ascii_case(Src& src) {
	namespace a = abc::ascii;
	int ci = (int)src.draw(256);
	char c = (char)ci;
	src.note(fmt("char 0x%02x", ci));
	auto in = [&](const char* s) {
		return c != 0 && strchr(s, c) != nullptr;
	};
	bool up = ci >= 65 && ci <= 90, lo = ci >= 97 && ci <= 122, dig = ci >= 48 && ci <= 57;
	bool sp = ci == 32 || ci == 9;
	bool sep = in("()<>@,;:\\\"/[]?={} \t");
	CHECK(a::is_ascii(c) == (ci < 128), "is_ascii(%02x)", ci);
	CHECK(a::is_digit(c) == dig, "is_digit(%02x)", ci);
	CHECK(a::is_hex(c) == in("0123456789abcdefABCDEF"), "is_hex(%02x)", ci);
	CHECK(a::is_upperalpha(c) == up && a::is_loweralpha(c) == lo && a::is_alpha(c) == (up || lo), "is_alpha(%02x)", ci);
	CHECK(a::to_upper(c) == (lo ? (char)(ci - 32) : c) && a::to_lower(c) == (up ? (char)(ci + 32) : c), "to_upper/to_lower(%02x)", ci);
	CHECK(a::is_space(c) == sp, "is_space(%02x)", ci);
	CHECK(a::is_control(c) == (ci < 32 || ci == 127), "is_control(%02x)", ci);
	CHECK(a::is_stdprint(c) == (ci >= 32 && ci < 127), "is_stdprint(%02x)", ci);
	CHECK(a::is_abcprint(c) == (ci > 32 && ci < 127), "is_abcprint(%02x)", ci);
	CHECK(a::is_abcprint_or_space(c) == ((ci > 32 && ci < 127) || sp), "is_abcprint_or_space(%02x)", ci);
	int h = dig ? ci - 48 : ci >= 65 && ci <= 70 ? ci - 55 : ci >= 97 && ci <= 102 ? ci - 87 : 0;
	CHECK(a::hex(c) == h, "hex(%02x)", ci);
	CHECK(a::http::is_separator(c) == sep, "http::is_separator(%02x)", ci);
	CHECK(a::http::is_token(c) == (ci > 32 && ci < 127 && !sep), "http::is_token(%02x)", ci);
	CHECK(a::json::is_space(c) == (sp || ci == 10 || ci == 13), "json::is_space(%02x)", ci);
	CHECK(a::json::is_string_content(c) == (c != '"' && c != '\\'), "json::is_string_content(%02x)", ci);
	// Comparisons.
	std::string s, t;
	std::size_t n = src.len(12);
	for (std::size_t i = 0; i < n; i++) {
		s += (char)(src.draw(2) ? 1 + src.draw(255) : "aAzZ@[`{09"[src.draw(10)]);
	}
	t = s;
	std::size_t e = src.draw(4);
	for (std::size_t i = 0; i < e && !t.empty(); i++) {
		std::size_t k = src.draw(t.size());
		switch (src.draw(4)) {
			case 0: t[k] ^= 0x20; break;
			case 1: t[k] = (char)(1 + src.draw(255)); break;
			case 2: t.resize(k); break;
			default: t += 'q'; break;
		}
		for (char& x : t) {
			if (x == 0) {
				x = ' ';
			}
		}
	}
	auto low = [](std::string x) {
		for (char& q : x) {
			if (q >= 'A' && q <= 'Z') {
				q += 32;
			}
		}
		return x;
	};
	std::size_t m = src.draw(16);
	// Exact allocations: with a limit, the strings need not be terminated within it.
	auto alloc = [](const std::string& x) {
		std::unique_ptr<char[]> r(new char[x.size() + 1]);
		memcpy(r.get(), x.c_str(), x.size() + 1);
		return r;
	};
	auto ps = alloc(s), pt = alloc(t);
	src.note("compare " + pbt::quote(s) + " and " + pbt::quote(t) + fmt(" up to %zu", m));
	CHECK(a::are_equal(ps.get(), pt.get()) == (s == t), "are_equal");
	CHECK(a::are_equal_i(ps.get(), pt.get()) == (low(s) == low(t)), "are_equal_i");
	CHECK(a::are_equal_n(ps.get(), pt.get(), m) == (s.substr(0, m) == t.substr(0, m)), "are_equal_n");
	CHECK(a::are_equal_i_n(ps.get(), pt.get(), m) == (low(s).substr(0, m) == low(t).substr(0, m)), "are_equal_i_n");
	CHECK(a::are_equal(ps.get(), nullptr) == false && a::are_equal(nullptr, pt.get()) == false && a::are_equal(nullptr, nullptr) == true, "are_equal with nullptr");
	if (s.size() >= m && t.size() >= m && m > 0) {
		std::unique_ptr<char[]> bs(new char[m]), bt(new char[m]);
		memcpy(bs.get(), s.data(), m);
		memcpy(bt.get(), t.data(), m);
		CHECK(a::are_equal_n(bs.get(), bt.get(), m) == (s.substr(0, m) == t.substr(0, m)), "are_equal_n of chars that are not terminated");
	}
	if (!s.empty() && s != t) {
		src.nontrivial();
	}
}

static pbt::Reg c12("C12", 0, 0,
	"a case is a pair of time points, a far date and several clocks; non-trivial when the date is past February 1972",
	ts_case);

static pbt::Reg c13("C13", 0, 0,
	"a case is a sequence of log entries of random categories, severities and messages under a changing filter; non-trivial when more than two entries pass and at least one is filtered out",
	[](Src& src) {
		using abc::debug_line_ostream;
		using abc::diag_line_ostream;
		using abc::test_line_ostream;
		switch (src.draw(7)) {
			case 0: log_case<debug_line_ostream<2048, NanoClock>, DEBUG, 2048>(src); break;
			case 1: log_case<diag_line_ostream<2048, NanoClock>, DIAG, 2048>(src); break;
			case 2: log_case<test_line_ostream<2048, NanoClock>, TEST, 2048>(src); break;
			case 3: log_case<debug_line_ostream<120, NanoClock>, DEBUG, 120>(src); break;
			case 4: log_case<diag_line_ostream<64, NanoClock>, DIAG, 64>(src); break;
			case 5: log_case<test_line_ostream<40, NanoClock>, TEST, 40>(src); break;
			default: log_case<test_line_ostream<104, NanoClock>, TEST, 104>(src); break;
		}
	});

static pbt::Reg c14("C14", 0, 0,
	"a case is a sequence of puts, dumps, flushes and moves of a line of one of several sizes; non-trivial when lines were flushed to a table",
	[](Src& src) {
		switch (src.draw(8)) {
			case 0: line_case<2048>(src); break;
			case 1: line_case<100>(src); break;
			case 2: line_case<73>(src); break;
			case 3: line_case<72>(src); break;
			case 4: line_case<17>(src); break;
			case 5: line_case<1>(src); break;
			case 6: line_case<0>(src); break;
			default: line_case<160>(src); break;
		}
	});

static pbt::Reg c15("C15", 0, 0,
	"a case is a sequence of reads and writes over random ranges of exact buffers; non-trivial when more than 3 chars went through",
	[](Src& src) {
		src.draw(3) == 2 ? buffer_case<wchar_t>(src) : buffer_case<char>(src);
	});

static pbt::Reg c16("C16", 0, 0,
	"a case is a char and a pair of similar strings; non-trivial when the strings are different and not empty",
	ascii_case);
