// The test framework (test.h): what a suite runs, what it returns, and what it writes.
#include "pbt.h"
#include "streams.h"
#include "test.h"
#include <memory>
#include <sstream>

using pbt::Src;
using pbt::fmt;

namespace {

	enum End { PASS, FAIL, THROW_STD, THROW_ABC, THROW_INT, THROW_TEXT };

	struct Check {
		int kind;				// 0 int, 1 unsigned 64, 2 double, 3 bool, 4 text, 5 memory
		std::int64_t a, b;
		std::string sa, sb;
		abc::tag_t tag;
		bool equal() const {
			switch (kind) {
				case 0: return (std::int32_t)a == (std::int32_t)b;
				case 1: return a == b;
				case 2: return a / 8.0 == b / 8.0;
				case 3: return (a & 1) == (b & 1);
				case 4: return std::string(sa.c_str()) == std::string(sb.c_str());
				default: return sa == sb;
			}
		}
	};

	struct Method {
		std::string name;
		End end;
		std::vector<Check> checks;
		unsigned rands = 0;
		std::string what;
		bool all = false;		// the method returns whether all its checks have passed
		bool passes() const {
			if (all) {
				for (const Check& c : checks) {
					if (!c.equal()) {
						return false;
					}
				}
				return true;
			}
			return end == PASS;
		}
	};

	struct Category {
		std::string name;
		std::vector<Method> methods;
	};

	std::string word(Src& src, std::size_t max) {
		// No letters of PASS and FAIL in upper case.
		static const char abc[] = "abcdefghijklmnopqrstuvwxyz_0123456789 %.-";
		std::string s;
		for (std::size_t n = src.len(max); n; n--) {
			s += abc[src.draw(sizeof abc - 1)];
		}
		return s;
	}

	Check gen_check(Src& src) {
		Check c;
		c.kind = (int)src.draw(6);
		c.tag = (abc::tag_t)(1 + src.draw(0xfffff));
		static const std::int64_t edge[] = { 0, 1, -1, INT32_MAX, INT32_MIN, 255, 256, 65536, 1ll << 32, INT64_MAX, INT64_MIN };
		c.a = src.draw(2) ? edge[src.draw(11)] : (std::int64_t)src.draw(1000);
		if (c.kind == 2) {
			c.a = (std::int64_t)src.draw(2000) - 1000;
		}
		c.b = c.a;
		if (src.draw(3) == 0) {
			c.b = c.kind == 2 ? c.a + (std::int64_t)src.draw(3) - 1 : c.a ^ (1ll << src.draw(64));
		}
		if (c.kind >= 4) {
			std::size_t n = src.len(src.draw(8) == 0 ? 5000 : 40);
			std::uint64_t k = src.draw(1000);
			for (std::size_t i = 0; i < n; i++) {
				c.sa += (char)(c.kind == 5 ? pbt::mix(k + i) : 'a' + pbt::mix(k + i) % 26);
			}
			c.sb = c.sa;
			if (!c.sb.empty() && src.draw(2)) {
				c.sb[src.draw(c.sb.size())] ^= (char)(1 << src.draw(5));
			}
			else if (c.kind == 4 && src.draw(3) == 0) {
				src.draw(2) || c.sb.empty() ? c.sb += 'z' : (c.sb.pop_back(), c.sb);
			}
		}
		return c;
	}

	// What has happened during a run.
	struct Trace {
		std::vector<std::string> calls;
		std::vector<int> rands;
		std::vector<std::string> errors;
		abc::seed_t seed = 0;
		bool any = false;
	};

	struct Odd : std::exception {
		const char* what() const noexcept override {
			return "an odd one";
		}
	};

	// What a line about a comparison shows of a value.
	std::string shown_value(const Check& c, std::int64_t v, const std::string& s, std::size_t row) {
		switch (c.kind) {
			case 0: return fmt("%d", (int)v);
			case 1: return fmt("%llu", (unsigned long long)v);
			case 2: return fmt("%g", v / 8.0);
			case 3: return fmt("%u", (unsigned)(v & 1));
			case 4: return std::string(s.c_str()).substr(0, 60);
			default: {
				// The first half of the row of a dump.
				std::string r = fmt("%04x: ", (unsigned)(16 * row));
				for (std::size_t i = 16 * row; i < s.size() && i < 16 * row + 8; i++) {
					r += fmt("%02x ", (unsigned char)s[i]);
				}
				return r;
			}
		}
	}

	template <typename Log>
	bool run_check(abc::test_context<Log>& context, const Check& c) {
		switch (c.kind) {
			case 0: return context.are_equal((std::int32_t)c.a, (std::int32_t)c.b, c.tag, "%d");
			case 1: return context.are_equal((unsigned long long)c.a, (unsigned long long)c.b, c.tag, "%llu");
			case 2: return context.are_equal(c.a / 8.0, c.b / 8.0, c.tag, "%g");
			case 3: return context.are_equal((c.a & 1) != 0, (c.b & 1) != 0, c.tag, "%u");
			case 4: return context.are_equal(c.sa.c_str(), c.sb.c_str(), c.tag);
			default: {
				// Exact allocations.
				std::unique_ptr<char[]> a(new char[c.sa.size()]), b(new char[c.sb.size()]);
				memcpy(a.get(), c.sa.data(), c.sa.size());
				memcpy(b.get(), c.sb.data(), c.sb.size());
				return context.are_equal((const void*)a.get(), (const void*)b.get(), c.sa.size(), c.tag);
			}
		}
	}

	const char* const PROCESS = "/the/process";

	template <typename Log>
	abc::named_test_category<Log> make_category(const Category& cat, Log* log, Trace& t) {
		abc::test_category<Log> methods;
		const Category* pc = &cat;
		for (const Method& m : cat.methods) {
			const Method* pm = &m;
			Trace* pt = &t;
			methods.push_back(abc::named_test_method<Log>(m.name, [pm, pc, pt, log](abc::test_context<Log>& context) -> bool {
				pt->calls.push_back(pm->name);
				if (pc->name != context.category_name || pm->name != context.method_name) {
					pt->errors.push_back(fmt("%s got the names %s, %s", pm->name.c_str(), context.category_name, context.method_name));
				}
				if (context.log != log || std::string(context.process_path) != PROCESS) {
					pt->errors.push_back("a context has another log or path");
				}
				if (pt->any && pt->seed != context.seed) {
					pt->errors.push_back("the seed has changed during the run");
				}
				pt->any = true;
				pt->seed = context.seed;
				bool all = true;
				for (const Check& c : pm->checks) {
					bool r = run_check(context, c);
					if (r != c.equal()) {
						pt->errors.push_back(fmt("are_equal() of kind %d returned %d", c.kind, (int)r));
					}
					all = r && all;
				}
				for (unsigned i = 0; i < pm->rands; i++) {
					pt->rands.push_back(std::rand());
				}
				if (pm->all) {
					return all;
				}
				switch (pm->end) {
					case THROW_STD: throw std::runtime_error(pm->what);
					case THROW_ABC: throw Odd();
					case THROW_INT: throw (int)pm->what.size();
					case THROW_TEXT: throw "text";
					default: return pm->end == PASS;
				}
			}));
		}
		return abc::named_test_category<Log>(cat.name, std::move(methods));
	}

	template <typename Log>
	bool run_suite(Src& src, const std::vector<Category>& cats, Log* log, abc::seed_t seed, Trace& t, abc::seed_t& used, unsigned runs) {
		std::vector<abc::named_test_category<Log>> v;
		for (const Category& c : cats) {
			v.push_back(make_category(c, log, t));
		}
		std::unique_ptr<abc::test_suite<Log>> s;
		unsigned how = (unsigned)src.draw(3);
		if (how == 0) {
			s.reset(new abc::test_suite<Log>(std::move(v), log, seed, PROCESS));
		}
		else if (how == 1 && cats.size() == 2) {
			s.reset(new abc::test_suite<Log>({ v[0], v[1] }, log, seed, PROCESS));
		}
		else if (how == 1 && cats.size() == 1) {
			s.reset(new abc::test_suite<Log>({ v[0] }, log, seed, PROCESS));
		}
		else {
			s.reset(new abc::test_suite<Log>());
			s->categories = v;
			s->log = log;
			s->seed = seed;
			s->process_path = PROCESS;
		}
		bool r = s->run();
		for (unsigned i = 1; i < runs; i++) {
			// Another run of the same suite, which has its seed by now, does the same.
			Trace before = t;
			t = Trace();
			bool again = s->run();
			CHECK(again == r, "a second run returned %d after %d", (int)again, (int)r);
			CHECK(t.rands == before.rands, "a second run of a suite got other random numbers");
			CHECK(t.calls == before.calls, "a second run called other methods");
		}
		used = s->seed;
		return r;
	}

	// Removes the escape sequences of colors.
	std::string plain(const std::string& s) {
		std::string r;
		for (std::size_t i = 0; i < s.size(); i++) {
			if (s[i] == '\x1b') {
				while (i < s.size() && s[i] != 'm') {
					i++;
				}
			}
			else {
				r += s[i];
			}
		}
		return r;
	}

	bool has_word(const std::string& line, const char* w) {
		return line.find(w) != std::string::npos;
	}

	template <typename Line>
	void suite_case(Src& src) {
		using Log = abc::log_ostream<Line, abc::log_filter>;
		std::vector<Category> cats;
		std::size_t nc = src.len(4), nm = 0;
		bool expected = true;
		bool wild = false;
		for (std::size_t i = 0; i < nc; i++) {
			Category c;
			c.name = fmt("category%zu ", i) + word(src, 20) + ";";
			std::size_t n = src.len(5);
			for (std::size_t j = 0; j < n; j++) {
				Method m;
				m.name = fmt("method%zu-%zu ", i, j) + word(src, src.draw(20) == 0 ? 1500 : 30) + ";";
				m.end = src.draw(2) ? PASS : (End)src.draw(6);
				m.all = src.draw(3) == 0;
				for (std::size_t k = src.len(3); k; k--) {
					m.checks.push_back(gen_check(src));
				}
				m.rands = (unsigned)src.len(4);
				m.what = word(src, 60) + "!";
				wild = wild || (!m.all && m.end >= THROW_STD);
				expected = expected && m.passes();
				c.methods.push_back(m);
				nm++;
			}
			cats.push_back(c);
		}
		abc::seed_t seed = src.draw(3) == 0 ? 0 : (abc::seed_t)(src.draw(2) ? src.draw(1000) : src.draw(0xffffffffu));
		abc::severity_t min = (abc::severity_t)src.draw(9);
		bool with_log = src.draw(5) != 0;
		unsigned runs = src.draw(6) == 0 ? 2 : 1;
		src.note(fmt("%zu categories, %zu methods, seed %u, %s severity %u, %u runs", nc, nm, (unsigned)seed, with_log ? "log of" : "no log,", (unsigned)min, runs));

		std::stringbuf sb;
		abc::log_filter filter(min);
		Log log(&sb, &filter);
		Trace t;
		abc::seed_t used = 0;
		bool result = run_suite<Log>(src, cats, with_log ? &log : nullptr, seed, t, used, runs);
		for (const std::string& e : t.errors) {
			pbt::fail(e);
		}
		CHECK(result == expected, "run() returned %d, expected %d", (int)result, (int)expected);
		// Every method once, in order.
		std::size_t i = 0;
		for (const Category& c : cats) {
			for (const Method& m : c.methods) {
				CHECK(i < t.calls.size() && t.calls[i] == m.name, "call %zu was %s, expected %s", i, i < t.calls.size() ? t.calls[i].c_str() : "missing", m.name.c_str());
				i++;
			}
		}
		CHECK(i == t.calls.size(), "%zu calls of %zu methods", t.calls.size(), i);
		// The seed.
		if (seed != 0) {
			CHECK(used == seed && (!t.any || t.seed == seed), "a suite with the seed %u used %u, methods saw %u", (unsigned)seed, (unsigned)used, (unsigned)t.seed);
		}
		else {
			CHECK(used != 0, "a suite without a seed has not picked one, so the run can't be repeated");
		}
		CHECK(!t.any || t.seed == used, "methods saw the seed %u, the suite has %u", (unsigned)t.seed, (unsigned)used);
		if (used != 0) {
			// A suite with this seed gets the same random numbers.
			for (std::uint64_t k = src.draw(20); k; k--) {
				std::rand();
			}
			Trace t2;
			abc::seed_t used2 = 0;
			run_suite<Log>(src, cats, nullptr, used, t2, used2, 1);
			CHECK(t2.rands == t.rands, "a suite with the same seed %u got other random numbers", (unsigned)used);
		}
		// The log.
		if (with_log) {
			std::vector<std::string> lines;
			{
				std::istringstream in(plain(sb.str()));
				std::string l;
				while (std::getline(in, l)) {
					lines.push_back(l);
				}
			}
			// The results, in order.
			struct Want {
				bool pass;
				std::string name;
			};
			std::vector<Want> want;
			for (unsigned run = 0; run < runs; run++) {
				bool all = true;
				for (const Category& c : cats) {
					bool cat = true;
					for (const Method& m : c.methods) {
						want.push_back(Want{ m.passes(), m.name });
						cat = cat && m.passes();
					}
					want.push_back(Want{ cat, c.name });
					all = all && cat;
				}
				want.push_back(Want{ all, "summary" });
			}
			std::size_t w = 0;
			bool visible = min >= abc::severity::critical;
			for (const std::string& l : lines) {
				bool p = has_word(l, "PASS"), f = has_word(l, "FAIL");
				if (!p && !f) {
					continue;
				}
				CHECK(!(p && f), "a line says both PASS and FAIL: %s", pbt::quote(l).c_str());
				CHECK(visible, "a line in spite of the filter: %s", pbt::quote(l).c_str());
				CHECK(w < want.size(), "one result too many: %s", pbt::quote(l).c_str());
				CHECK(p == want[w].pass && has_word(l, want[w].name.c_str()), "result %zu is %s, expected %s %s", w, pbt::quote(l).c_str(), want[w].pass ? "PASS" : "FAIL", pbt::quote(want[w].name).c_str());
				w++;
			}
			CHECK(!visible || w == want.size(), "%zu results in the log, expected %zu", w, want.size());
			// Exceptions are reported with their text.
			if (visible && runs == 1) {
				std::size_t at = 0;
				for (const Category& c : cats) {
					for (const Method& m : c.methods) {
						if (!m.all && (m.end == THROW_STD || m.end == THROW_ABC)) {
							std::string what = m.end == THROW_STD ? m.what : "an odd one";
							while (at < lines.size() && !(has_word(lines[at], "EXCEPTION") && has_word(lines[at], what.c_str()))) {
								at++;
							}
							CHECK(at < lines.size(), "no line about the exception %s", pbt::quote(what).c_str());
							at++;
						}
					}
				}
			}
			// Checks.
			if (runs == 1) {
				std::size_t fails = 0, passes = 0, want_fails = 0, want_passes = 0;
				std::size_t at = 0;
				for (const Category& c : cats) {
					for (const Method& m : c.methods) {
						for (const Check& k : m.checks) {
							std::size_t rows = k.kind == 5 ? (k.sa.size() + 15) / 16 : 1;
							(k.equal() ? want_passes : want_fails) += rows;
							if (min < (k.equal() ? abc::severity::optional : abc::severity::important)) {
								continue;
							}
							// Both values, in order.
							const char* verdict = k.equal() ? "Pass: " : "Fail: ";
							for (std::size_t row = 0; row < rows; row++) {
								std::string v = shown_value(k, k.a, k.sa, row), v2 = shown_value(k, k.b, k.sb, row);
								auto is_it = [&](const std::string& l) {
									std::size_t p = l.find(verdict);
									if (p == std::string::npos || (p = l.find(v, p)) == std::string::npos) {
										return false;
									}
									// A long text may leave no room for the other one.
									return k.sa.size() + m.name.size() > 300 || l.find(v2, p + v.size()) != std::string::npos;
								};
								while (at < lines.size() && !is_it(lines[at])) {
									at++;
								}
								CHECK(at < lines.size(), "no line %s%s, %s in %s", verdict, pbt::quote(v).c_str(), pbt::quote(v2).c_str(), pbt::quote(plain(sb.str()), 3000).c_str());
								at++;
							}
						}
					}
				}
				for (const std::string& l : lines) {
					fails += has_word(l, "Fail: ");
					passes += has_word(l, "Pass: ");
				}
				CHECK(fails == (min >= abc::severity::important ? want_fails : 0), "%zu lines of failed comparisons, expected %zu", fails, want_fails);
				CHECK(passes == (min >= abc::severity::optional ? want_passes : 0), "%zu lines of passed comparisons, expected %zu", passes, want_passes);
			}
			// The seed that repeats the run.
			if (min >= abc::severity::warning) {
				bool found = false;
				std::string s = fmt("seed = %u", (unsigned)used);
				for (const std::string& l : lines) {
					std::size_t p = l.find(s);
					found = found || (p != std::string::npos && (p + s.size() == l.size() || !isdigit((unsigned char)l[p + s.size()])));
				}
				CHECK(found, "the log doesn't tell the seed %u", (unsigned)used);
			}
		}
		if (wild) {
			src.label("throws");
		}
		if (seed == 0) {
			src.label("random seed");
		}
		if (!expected) {
			src.label("fails");
		}
		if (nm >= 3 && with_log) {
			src.nontrivial();
		}
	}

	void testfw(Src& src) {
		switch (src.draw(3)) {
			case 0: suite_case<abc::test_line_ostream<>>(src); break;
			case 1: suite_case<abc::debug_line_ostream<>>(src); break;
			default: suite_case<abc::diag_line_ostream<>>(src); break;
		}
	}

}

static pbt::Reg c30("C30", 0, 0, "a suite of at least 3 methods with a log", testfw);
