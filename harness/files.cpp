// Multi-file stream buffers, over a simulated clock.
#include "pbt.h"
#include "streams.h"
#include "timestamp.h"
#include "multifile.h"
#include <algorithm>
#include <chrono>
#include <ctime>
#include <ostream>

using pbt::Src;
using pbt::fmt;

struct Clk {
	using duration = std::chrono::nanoseconds;
	using rep = duration::rep;
	using period = duration::period;
	using time_point = std::chrono::time_point<Clk>;
	static constexpr bool is_steady = false;
	static std::int64_t& value() {
		static std::int64_t v = 0;
		return v;
	}
	static time_point now() noexcept {
		return time_point(duration(value()));
	}
};

static constexpr std::size_t max_path = 200;
static constexpr std::int64_t sec = 1000000000ll;

static std::string name_now() {
	time_t t = Clk::value() / sec;
	struct tm tm;
	gmtime_r(&t, &tm);
	return fmt("%04d%02d%02d_%02d%02d%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
}

static std::string slurp(const std::string& p) {
	std::ifstream f(p, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

static std::vector<std::string> list_dir(const std::string& d) {
	std::vector<std::string> v;
	DIR* p = opendir(d.c_str());
	if (p != nullptr) {
		while (struct dirent* e = readdir(p)) {
			if (e->d_name[0] != '.') {
				v.push_back(e->d_name);
			}
		}
		closedir(p);
	}
	std::sort(v.begin(), v.end());
	return v;
}

template <typename Log>
using Plain = abc::multifile_streambuf<max_path, Clk, Log>;
template <typename Log>
using ByTime = abc::duration_multifile_streambuf<max_path, Clk, Log>;
template <typename Log>
using BySize = abc::size_multifile_streambuf<max_path, Clk, Log>;

enum Kind { PLAIN, BY_TIME, BY_SIZE };

struct Cfg {
	Kind kind;
	std::int64_t duration = 0;
	std::size_t size = 0;
};

template <typename Log>
static Plain<Log>* make(const Cfg&, Plain<Log>*, const char* path, std::ios_base::openmode mode, Log* log) {
	return new Plain<Log>(path, mode, log);
}
template <typename Log>
static ByTime<Log>* make(const Cfg& c, ByTime<Log>*, const char* path, std::ios_base::openmode mode, Log* log) {
	return new ByTime<Log>(std::chrono::nanoseconds(c.duration), path, mode, log);
}
template <typename Log>
static BySize<Log>* make(const Cfg& c, BySize<Log>*, const char* path, std::ios_base::openmode mode, Log* log) {
	return new BySize<Log>(c.size, path, mode, log);
}

template <typename Buf, typename Log>
static void run(Src& src, const Cfg& cfg) {
	LogBox<Log> lb;
	std::string dir = pbt::case_dir(src);
	// From 1970 to 2300.
	Clk::value() = (std::int64_t)src.draw(290ull * 365 * 86400) * sec + (std::int64_t)src.draw(sec);
	// Sometimes a folder whose name is just short enough, or just too long.
	bool too_long = false;
	unsigned pk = src.draw(6);
	if (pk >= 4) {
		std::size_t want = max_path - 16 + (pk == 5 ? src.draw(2) : 0);
		if (want > dir.size() + 1) {
			dir += "/" + std::string(want - dir.size() - 1, 'd');
			too_long = want > max_path - 16;
			if (mkdir(dir.c_str(), 0755) != 0) {
				throw pbt::Discard{};
			}
			src.label(too_long ? "path too long" : "path of maximum length");
		}
	}
	std::string given = dir;
	if (pk == 1 || pk == 2) {
		given += '/';
	}
	bool app = src.draw(3) == 2;
	std::ios_base::openmode mode = std::ios_base::out;
	if (app) {
		mode |= std::ios_base::app;
	}
	if (src.draw(2)) {
		mode |= std::ios_base::binary;
	}
	std::vector<std::pair<std::string, std::string>> model;		// name, content
	std::string pending;
	std::int64_t opened = 0;
	auto open_model = [&]() {
		model.emplace_back(name_now(), "");
		opened = Clk::value();
	};
	if (src.draw(6) == 5 && !too_long) {
		std::ofstream(dir + "/" + name_now()) << "earlier";
		if (app) {
			model.emplace_back(name_now(), "earlier");
		}
		src.label("a file of that name exists");
	}
	std::unique_ptr<char[]> exact(new char[given.size() + 1]);
	memcpy(exact.get(), given.c_str(), given.size() + 1);
	std::unique_ptr<Buf> sb;
	bool threw = false;
	try {
		sb.reset(make(cfg, (Buf*)nullptr, exact.get(), mode, lb.get()));
	}
	catch (const std::logic_error&) {
		threw = true;
	}
	exact.reset();
	CHECK(threw == too_long, "a path of %zu chars was %s", given.size(), threw ? "refused" : "accepted");
	if (threw) {
		CHECK(list_dir(dir).empty(), "a refused path has got files");
		return;
	}
	if (model.empty()) {
		open_model();
	}
	opened = Clk::value();
	auto check_path = [&](const char* when) {
		CHECK(dir + "/" + model.back().first == sb->path(), "%s the file is %s, expected %s", when, pbt::quote(sb->path()).c_str(), model.back().first.c_str());
		CHECK(sb->is_open(), "%s no file is open", when);
	};
	auto check_content = [&](const char* when) {
		std::vector<std::string> names = list_dir(dir);
		CHECK(names.size() == model.size(), "%s there are %zu files, expected %zu", when, names.size(), model.size());
		for (std::size_t i = 0; i < model.size(); i++) {
			CHECK(names[i] == model[i].first, "%s file %zu is %s, expected %s", when, i, names[i].c_str(), model[i].first.c_str());
			// Earlier files don't change any more.
			if (i + 2 >= model.size() || when[0] == 'f') {
				std::string c = slurp(dir + "/" + names[i]);
				CHECK(c == model[i].second, "%s file %s has %zu bytes %s, expected %zu bytes %s", when, names[i].c_str(), c.size(), pbt::quote(c).c_str(), model[i].second.size(), pbt::quote(model[i].second).c_str());
			}
		}
	};
	check_path("at the beginning");
	std::unique_ptr<std::ostream> os(new std::ostream(sb.get()));
	auto tick = [&]() {
		// A new file needs a new second, as documented.
		if (Clk::value() / sec == opened / sec) {
			Clk::value() += sec;
		}
	};
	std::size_t n = 1 + src.len(60);
	std::size_t reopened = 0, flushed = 0, moved = 0;
	unsigned char next = (unsigned char)src.draw(256);
	std::size_t big = src.draw(5) == 4 ? 20000 : 200;
	for (std::size_t i = 0; i < n; i++) {
		switch (src.draw(8)) {
			case 0:
			case 1: {
				std::size_t k = src.len(big);
				std::string s;
				for (std::size_t j = 0; j < k; j++) {
					s.push_back((char)next++);
				}
				os->write(s.data(), s.size());
				pending += s;
				src.note(fmt("write %zu bytes", k));
				break;
			}
			case 2: {
				std::size_t k = src.len(big);
				for (std::size_t j = 0; j < k; j++) {
					os->put((char)next);
					pending.push_back((char)next++);
				}
				src.note(fmt("put %zu bytes one by one", k));
				break;
			}
			case 3:
			case 4: {
				std::size_t total = model.back().second.size() + pending.size();
				bool must, may;
				if (cfg.kind == BY_SIZE) {
					must = total > cfg.size;
					may = total >= cfg.size;
					if (may) {
						tick();
					}
				}
				else if (cfg.kind == BY_TIME) {
					must = may = Clk::value() - opened >= cfg.duration;
					if (may) {
						tick();
					}
				}
				else {
					must = may = false;
				}
				src.note(fmt("flush with %zu bytes in the file, %zu new, %.3f s after it was opened", model.back().second.size(), pending.size(), (Clk::value() - opened) / 1e9));
				os->flush();
				flushed++;
				CHECK(os->good(), "flush has failed");
				model.back().second += pending;
				pending.clear();
				bool is_new = dir + "/" + model.back().first != sb->path();
				CHECK(!must || is_new, "a new file was due, but %s is still in use", sb->path());
				CHECK(may || !is_new, "a new file %s was made before it was due", sb->path());
				if (is_new) {
					open_model();
					reopened++;
				}
				check_path("after a flush");
				check_content("after a flush");
				break;
			}
			case 5: {
				std::int64_t d = src.draw(3) == 0 ? (std::int64_t)src.draw(sec) : src.draw(2) ? (std::int64_t)src.draw(100) * sec : (std::int64_t)src.draw(400ull * 86400) * sec;
				if (cfg.kind == BY_TIME && src.draw(3) == 2 && opened + cfg.duration > Clk::value()) {
					d = opened + cfg.duration - Clk::value() - (std::int64_t)src.draw(2);
				}
				// Nine digits of years are not supported.
				if (Clk::value() < 9000000000ll * sec) {
					Clk::value() += d;
				}
				src.note(fmt("%.9f s pass", d / 1e9));
				break;
			}
			case 6:
				if (src.draw(3) == 2) {
					tick();
					src.note("reopen()");
					sb->reopen();
					model.back().second += pending;
					pending.clear();
					open_model();
					reopened++;
					check_path("after reopen()");
					check_content("after reopen()");
				}
				break;
			case 7:
				if (src.draw(2)) {
					src.note("move");
					// The memory isn't clean.
					std::unique_ptr<Buf> o(new (memset(::operator new(sizeof(Buf)), (int)src.draw(256), sizeof(Buf))) Buf(std::move(*sb)));
					sb = std::move(o);
					os.reset(new std::ostream(sb.get()));
					moved++;
					check_path("after a move");
				}
				break;
		}
	}
	CHECK(os->good(), "writing has failed");
	if (src.draw(5) == 4) {
		// The next file is full.
		tick();
		std::string link = dir + "/" + name_now();
		if (symlink("/dev/full", link.c_str()) == 0) {
			sb->reopen();
			model.back().second += pending;
			pending.clear();
			os->write("x", 1);
			os->flush();
			CHECK(!os->good(), "a flush to a full medium was reported as good");
			unlink(link.c_str());
			src.label("medium that is full");
		}
	}
	sb.reset();
	model.back().second += pending;
	check_content("finally");
	if (reopened >= 2 && flushed >= 2) {
		src.nontrivial();
	}
	if (moved) {
		src.label("moved");
	}
	if (reopened) {
		src.label(cfg.kind == BY_SIZE ? "reopened by size" : cfg.kind == BY_TIME ? "reopened by time" : "reopened");
	}
}

template <typename Log>
static void run_kind(Src& src) {
	Cfg c;
	switch (src.draw(5)) {
		case 0:
			c.kind = PLAIN;
			run<Plain<Log>, Log>(src, c);
			break;
		case 1:
		case 2:
			c.kind = BY_TIME;
			c.duration = src.draw(3) == 0 ? (std::int64_t)src.draw(3 * sec) : (std::int64_t)(1 + src.draw(200)) * sec;
			src.note(fmt("by time, %.9f s", c.duration / 1e9));
			run<ByTime<Log>, Log>(src, c);
			break;
		default:
			c.kind = BY_SIZE;
			c.size = 1 + src.len(30000);
			src.note(fmt("by size, %zu bytes", c.size));
			run<BySize<Log>, Log>(src, c);
			break;
	}
}

static pbt::Reg c21("C21", 0, 0,
	"a case is a history of writes, flushes, moves and passing time; non-trivial when at least two new files were made and at least two flushes were checked",
	[](Src& src) {
		if (src.draw(6) == 5) {
			run_kind<RealLog>(src);
		}
		else {
			run_kind<NullLog>(src);
		}
	});
