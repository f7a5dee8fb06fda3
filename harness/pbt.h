// Property-based testing runner used by every check in /verif.
//
// A case is a sequence of integer choices.  Generators draw choices from a Src; in random mode the choices come
// from a splitmix64 stream derived from (seed, property, worker, case index), in replay mode from a file, in fuzz
// mode from libFuzzer's bytes.  Every drawn choice is recorded in shared memory, so a case that crashes, hangs or
// trips a sanitizer is known to the parent process, which shrinks it by editing the choice sequence, replays the
// minimum 3 times in fresh processes, and writes it to a replay file.
#pragma once

#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*)) __attribute__((weak));

namespace pbt {

	struct Failure {
		std::string msg;
	};
	struct Discard {
	};

	constexpr std::size_t MAX_CHOICES = 1u << 20;

	struct Shared {
		volatile std::uint64_t case_index;
		volatile std::uint64_t evaluations;
		volatile std::uint64_t discards;
		volatile std::uint64_t choice_count;
		volatile int failed;		// 1 = property failure, 2 = hang
		char message[4096];
		std::uint64_t choices[MAX_CHOICES];
	};
	inline Shared*& shared() {
		static Shared* s = nullptr;
		return s;
	}

	inline std::uint64_t mix(std::uint64_t z) {
		z += 0x9e3779b97f4a7c15ull;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}

	inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
	inline std::string fmt(const char* f, ...) {
		char buf[8192];
		va_list v;
		va_start(v, f);
		vsnprintf(buf, sizeof buf, f, v);
		va_end(v);
		return buf;
	}

	inline std::string quote(const std::string& s, std::size_t max = 400) {
		std::string r = "\"";
		for (std::size_t i = 0; i < s.size(); i++) {
			if (i == max) {
				r += fmt("...(%zu bytes)", s.size());
				break;
			}
			unsigned char c = s[i];
			if (c == '"' || c == '\\') {
				r += '\\';
				r += c;
			}
			else if (c >= 32 && c < 127) {
				r += c;
			}
			else {
				r += fmt("\\x%02x", c);
			}
		}
		return r + "\"";
	}

	class Src {
	public:
		enum Mode { random, replay, bytes };

		Mode mode = random;
		std::uint64_t state = 0;
		std::vector<std::uint64_t> in;
		std::size_t pos = 0;
		const std::uint8_t* data = nullptr;
		std::size_t size = 0;
		bool verbose = false;
		bool nontriv = false;
		std::string text;
		std::uint64_t hash = 1469598103934665603ull;
		std::map<std::string, std::uint64_t>* labels = nullptr;
		unsigned thorough = 0;
		std::string scratch;

		// Uniform choice in [0, n).  0 is the simplest value.
		std::uint64_t draw(std::uint64_t n) {
			std::uint64_t v = 0;
			if (n == 0) {
				n = 1;
			}
			switch (mode) {
				case random:
					state += 0x9e3779b97f4a7c15ull;
					v = mix(state) % n;
					break;
				case replay:
					v = pos < in.size() ? in[pos] : 0;
					pos++;
					if (v >= n) {
						v %= n;
					}
					break;
				case bytes: {
					std::uint64_t acc = 0;
					std::uint64_t lim = n - 1;
					do {
						std::uint8_t b = pos < size ? data[pos] : 0;
						pos++;
						acc = (acc << 8) | b;
						lim >>= 8;
					} while (lim != 0);
					v = acc % n;
					break;
				}
			}
			Shared* s = shared();
			if (s != nullptr && s->choice_count < MAX_CHOICES) {
				s->choices[s->choice_count] = v;
				s->choice_count = s->choice_count + 1;
			}
			hash = (hash ^ (v + 0x51ed27)) * 1099511628211ull;
			hash ^= hash >> 29;
			return v;
		}
		// [lo, hi]
		std::int64_t range(std::int64_t lo, std::int64_t hi) {
			return lo + (std::int64_t)draw((std::uint64_t)(hi - lo) + 1);
		}
		std::uint64_t u64() {
			std::uint64_t hi = draw(1ull << 32);
			return (hi << 32) | draw(1ull << 32);
		}
		bool chance(unsigned num, unsigned den) {
			return draw(den) >= den - num;		// shrinks to false
		}
		template <typename T>
		const T& pick(const std::vector<T>& v) {
			return v[draw(v.size())];
		}
		// A length that is usually small and sometimes as big as max.
		std::size_t len(std::size_t max) {
			std::uint64_t k = draw(4);
			std::size_t m = k == 0 ? 4 : k == 1 ? 16 : k == 2 ? 64 : max;
			return draw((m < max ? m : max) + 1);
		}
		void note(const std::string& s) {
			if (verbose) {
				text += s;
				text += '\n';
				if (getenv("PBT_TRACE") != nullptr) {
					fprintf(stderr, "%s\n", s.c_str());
				}
			}
		}
		void label(const char* l) {
			if (labels != nullptr) {
				(*labels)[l]++;
			}
		}
		void nontrivial() {
			nontriv = true;
		}
	};

	[[noreturn]] inline void fail(const std::string& msg) {
		throw Failure{ msg };
	}
	#define PBT_STR2(x) #x
	#define PBT_STR(x) PBT_STR2(x)
	#define CHECK(cond, ...) do { if (!(cond)) { pbt::fail(pbt::fmt(__VA_ARGS__)); } } while (0)

	struct Prop {
		std::string name;
		std::string rule;
		std::function<void(Src&)> body;
		std::uint64_t quick_cases;
		std::uint64_t thorough_cases;
		double weight = 1;
	};
	inline std::vector<Prop>& props() {
		static std::vector<Prop> p;
		return p;
	}
	struct Known {
		std::string name;					// key in known_findings.txt
		std::string what;
		std::function<bool()> reproduces;	// run in a child process; a crash counts as reproduced
	};
	inline std::vector<Known>& knowns() {
		static std::vector<Known> k;
		return k;
	}
	struct Reg {
		Reg(const char* name, std::uint64_t q, std::uint64_t t, const char* rule, std::function<void(Src&)> body) {
			props().push_back(Prop{ name, rule, body, q, t });
		}
	};
	struct RegKnown {
		RegKnown(const char* name, const char* what, std::function<bool()> f) {
			knowns().push_back(Known{ name, what, f });
		}
	};

	// ---------------------------------------------------------------- one case

	inline int& case_cpu_limit() {
		static int s = 20;
		return s;
	}

	// Wall-clock guard for a case that blocks (deadlock), generous.
	inline int& case_wall_limit() {
		static int s = 180;
		return s;
	}

	inline void on_hang(int sig) {
		Shared* s = shared();
		if (s != nullptr) {
			s->failed = 2;
			const char* m = sig == SIGPROF ? "the operation did not terminate (CPU limit for one case exceeded)" : "the operation did not terminate (blocked past the wall limit for one case)";
			strncpy(s->message, m, sizeof(s->message) - 1);
		}
		_exit(77);
	}

	inline void arm() {
		struct itimerval it {};
		it.it_value.tv_sec = case_cpu_limit();
		setitimer(ITIMER_PROF, &it, nullptr);
		struct itimerval iw {};
		iw.it_value.tv_sec = case_wall_limit();
		setitimer(ITIMER_REAL, &iw, nullptr);
	}

	inline void install_handlers() {
		struct sigaction sa {};
		sa.sa_handler = on_hang;
		sigaction(SIGPROF, &sa, nullptr);
		sigaction(SIGALRM, &sa, nullptr);
	}

	// Returns true when the case passed.
	// What allocated memory is filled with, so that nothing relies on what happened to be there.
	inline std::atomic<int>& alloc_fill() {
		static std::atomic<int> fill(-1);
		return fill;
	}
	inline void alloc_hook(const volatile void* mem, std::size_t size) {
		int fill = alloc_fill().load(std::memory_order_relaxed);
		if (fill >= 0 && size <= 65536) {
			memset(const_cast<void*>(mem), fill, size);
		}
	}
	inline void draw_alloc_fill(Src& src) {
		if (__sanitizer_install_malloc_and_free_hooks == nullptr) {
			return;
		}
		static const bool installed = __sanitizer_install_malloc_and_free_hooks(alloc_hook, [](const volatile void*) {}) != 0;
		(void)installed;
		static const int fills[] = { -1, 0, 0xff, 1 };
		alloc_fill() = fills[src.draw(4)];
	}

	inline bool run_case(const Prop& p, Src& src) {
		Shared* s = shared();
		s->choice_count = 0;
		s->failed = 0;
		s->message[0] = 0;
		arm();
		std::string msg;
		bool ok = true;
		try {
			draw_alloc_fill(src);
			p.body(src);
		}
		catch (const Failure& f) {
			ok = false;
			msg = f.msg;
		}
		catch (const Discard&) {
			s->discards = s->discards + 1;
			src.nontriv = false;
		}
		catch (const std::exception& e) {
			ok = false;
			msg = std::string("unexpected exception: ") + e.what();
		}
		if (!ok) {
			strncpy(s->message, msg.c_str(), sizeof(s->message) - 1);
			s->failed = 1;
		}
		return ok;
	}

	inline void rm_rf(const std::string& path) {
		// Only ever called on directories made by mkdtemp() below.
		if (path.find("/vp_pbt_") == std::string::npos) {
			return;
		}
		DIR* d = opendir(path.c_str());
		if (d != nullptr) {
			while (struct dirent* e = readdir(d)) {
				if (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0) {
					continue;
				}
				std::string f = path + "/" + e->d_name;
				struct stat st;
				if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
					rm_rf(f);
				}
				else {
					unlink(f.c_str());
				}
			}
			closedir(d);
		}
		rmdir(path.c_str());
	}

	inline std::string make_scratch() {
		struct stat st;
		std::string base = stat("/dev/shm", &st) == 0 && access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
		std::string t = base + "/vp_pbt_XXXXXX";
		std::vector<char> buf(t.begin(), t.end());
		buf.push_back(0);
		if (mkdtemp(buf.data()) == nullptr) {
			perror("mkdtemp");
			exit(2);
		}
		return buf.data();
	}

	// A fresh empty directory for the current case.
	inline std::string case_dir(Src& src) {
		std::string d = src.scratch + "/vp_pbt_case";
		rm_rf(d);
		mkdir(d.c_str(), 0755);
		return d;
	}

	struct Options {
		std::string prop;
		std::uint64_t seed = 1;
		std::uint64_t worker = 0;
		std::uint64_t workers = 1;
		std::uint64_t cases = 0;
		double deadline = 1e9;
		double patience = 300;			// seconds after the start of the run, when failures are no longer repeated
		bool thorough = false;
		std::string out;
		std::string replay_out;
		std::string replay_in;
		std::string bytes_in;
		std::string scratch;
		std::string logfile;
	};

	inline double now() {
		struct timeval tv;
		gettimeofday(&tv, nullptr);
		return tv.tv_sec + tv.tv_usec / 1e6;
	}

	inline std::string json_str(const std::string& s) {
		std::string r = "\"";
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') {
				r += '\\';
				r += c;
			}
			else if (c == '\n') {
				r += "\\n";
			}
			else if (c < 32 || c >= 127) {
				r += fmt("\\u%04x", c);
			}
			else {
				r += c;
			}
		}
		return r + "\"";
	}

	// Silence the child's output (sanitizer reports go to the log file).
	inline void redirect_output(const std::string& file) {
		int fd = open(file.empty() ? "/dev/null" : file.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
		if (fd >= 0) {
			dup2(fd, 1);
			dup2(fd, 2);
			close(fd);
		}
	}

	// Properties whose failures depend on the schedule: a failing choice sequence is re-run this many times.
	inline std::map<std::string, int>& attempts() {
		static std::map<std::string, int> m;
		return m;
	}
	struct Racy {
		Racy(const char* name, int n) {
			attempts()[name] = n;
		}
	};

	// Runs one choice sequence in a fresh process.  Returns true when it fails.
	inline bool fails(const Prop& p, const std::vector<std::uint64_t>& in, const Options& o, std::string& msg, std::vector<std::uint64_t>& used, std::string* text, const std::string& log = "", int max_attempts = 1000) {
		Shared* s = shared();
		auto at = attempts().find(p.name);
		int n = std::min(max_attempts, at == attempts().end() ? 1 : at->second);
		s->failed = 0;
		s->choice_count = 0;
		s->message[0] = 0;
		std::string textfile = o.scratch + "/text";
		unlink(textfile.c_str());
		pid_t pid = fork();
		if (pid == 0) {
			redirect_output(log);
			install_handlers();
			bool ok = true;
			double t0 = now();
			for (int i = 0; ok && i < n && (i == 0 || now() - t0 < 90); i++) {
				Src src;
				src.mode = Src::replay;
				src.in = in;
				src.thorough = o.thorough;
				src.scratch = o.scratch;
				src.verbose = text != nullptr;
				ok = run_case(p, src);
				if (text != nullptr) {
					std::ofstream f(textfile);
					f << src.text;
				}
			}
			_exit(ok ? 0 : 1);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		used.assign(s->choices, s->choices + s->choice_count);
		bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
		if (bad) {
			if (s->failed) {
				msg = s->message;
			}
			else if (WIFSIGNALED(st)) {
				msg = fmt("the process died with signal %d", WTERMSIG(st));
			}
			else {
				msg = fmt("the process was stopped by a sanitizer or abort (exit code %d)", WEXITSTATUS(st));
			}
		}
		if (text != nullptr) {
			std::ifstream f(textfile);
			std::stringstream ss;
			ss << f.rdbuf();
			*text = ss.str();
		}
		return bad;
	}

	inline bool simpler(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b) {
		return a.size() != b.size() ? a.size() < b.size() : a < b;
	}

	inline std::vector<std::uint64_t> shrink(const Prop& p, std::vector<std::uint64_t> best, const Options& o, std::string& msg, int budget, double seconds) {
		double end = now() + seconds;
		auto attempt = [&](const std::vector<std::uint64_t>& cand) {
			if (budget-- <= 0 || now() > end) {
				return false;
			}
			std::string m;
			std::vector<std::uint64_t> used;
			if (!fails(p, cand, o, m, used, nullptr, "", 6)) {
				return false;
			}
			// Keep the effective prefix: the case may have used less than it was given.
			std::vector<std::uint64_t> eff = used.size() < cand.size() ? std::vector<std::uint64_t>(cand.begin(), cand.begin() + used.size()) : cand;
			if (!simpler(eff, best)) {
				return false;
			}
			best = eff;
			msg = m;
			return true;
		};
		bool progress = true;
		while (progress && budget > 0 && now() < end) {
			progress = false;
			// Delete blocks.
			for (std::size_t block = best.size() / 2; block >= 1; block = block > 8 ? block / 2 : block - 1) {
				for (std::size_t i = best.size(); i-- > 0 && budget > 0 && now() < end;) {
					if (i + block > best.size()) {
						continue;
					}
					std::vector<std::uint64_t> c(best);
					c.erase(c.begin() + i, c.begin() + i + block);
					if (attempt(c)) {
						progress = true;
					}
					else if (block > 8) {
						i = i >= block / 2 ? i - block / 2 + 1 : 0;
					}
				}
			}
			// Lower values.
			for (std::size_t i = 0; i < best.size() && budget > 0 && now() < end; i++) {
				if (best[i] == 0) {
					continue;
				}
				std::vector<std::uint64_t> c(best);
				c[i] = 0;
				if (attempt(c)) {
					progress = true;
					continue;
				}
				// Bisection towards 0.
				for (int k = 0; k < 12 && i < best.size() && best[i] > 1; k++) {
					std::vector<std::uint64_t> d(best);
					std::uint64_t step = best[i] >> (k + 1);
					if (step == 0) {
						step = 1;
					}
					d[i] -= step;
					if (attempt(d)) {
						progress = true;
						k = -1;
					}
					else if (step == 1) {
						break;
					}
				}
			}
		}
		return best;
	}

	inline std::vector<std::uint64_t> read_replay(const std::string& file, std::string& prop) {
		std::ifstream f(file);
		std::string line;
		std::vector<std::uint64_t> r;
		while (std::getline(f, line)) {
			if (line.compare(0, 9, "property=") == 0) {
				prop = line.substr(9);
			}
			else if (line.compare(0, 8, "choices=") == 0) {
				std::stringstream ss(line.substr(8));
				std::uint64_t v;
				while (ss >> v) {
					r.push_back(v);
				}
			}
		}
		return r;
	}

	inline int run_prop(const Prop& p, Options o) {
		double t0 = now();
		Shared* s = shared();
		std::uint64_t cases = o.cases != 0 ? o.cases : (o.thorough ? p.thorough_cases : p.quick_cases);
		std::uint64_t next = o.worker;
		std::uint64_t total_eval = 0, total_discard = 0, unreproduced = 0, nontriv_count = 0;
		std::unordered_set<std::uint64_t> hashes;
		std::map<std::string, std::uint64_t> labels;
		std::vector<std::string> samples, unreproduced_msgs;
		std::string violation;
		std::string vtext;
		std::uint64_t salt = 0;
		for (char c : p.name) {
			salt = salt * 131 + (unsigned char)c;
		}
		int restarts = 0;
		while (next < cases && violation.empty() && now() - t0 < o.deadline && restarts < 20) {
			std::string stats = o.scratch + "/stats";
			unlink(stats.c_str());
			s->evaluations = 0;
			s->discards = 0;
			s->failed = 0;
			pid_t pid = fork();
			if (pid == 0) {
				redirect_output(o.logfile);
				install_handlers();
				std::map<std::string, std::uint64_t> lab;
				std::vector<std::uint64_t> hs;
				std::vector<std::string> smp;
				bool ok = true;
				std::uint64_t i = next;
				for (; i < cases && ok && now() - t0 < o.deadline; i += o.workers) {
					s->case_index = i;
					Src src;
					src.state = mix(mix(o.seed) ^ mix(salt) ^ (i * 0x2545f4914f6cdd1dull));
					src.thorough = o.thorough;
					src.labels = &lab;
					src.scratch = o.scratch;
					src.verbose = o.worker == 0 && smp.size() < 3;
					ok = run_case(p, src);
					s->evaluations = s->evaluations + 1;
					if (src.nontriv) {
						hs.push_back(src.hash);
						if (src.verbose && src.text.size() < 6000) {
							smp.push_back(src.text);
						}
					}
				}
				std::ofstream f(stats, std::ios::binary);
				f << hs.size() << "\n";
				for (auto h : hs) {
					f << h << " ";
				}
				f << "\n" << lab.size() << "\n";
				for (auto& l : lab) {
					f << l.second << " " << l.first << "\n";
				}
				f << smp.size() << "\n";
				for (auto& t : smp) {
					f << t.size() << "\n" << t << "\n";
				}
				f.close();
				_exit(ok ? 0 : 1);
			}
			int st = 0;
			waitpid(pid, &st, 0);
			std::vector<std::uint64_t> seen(s->choices, s->choices + s->choice_count);
			std::uint64_t idx = s->case_index;
			total_eval += s->evaluations;
			total_discard += s->discards;
			{
				std::ifstream f(stats, std::ios::binary);
				std::size_t n = 0;
				if (f >> n) {
					nontriv_count += n;
					for (std::size_t i = 0; i < n; i++) {
						std::uint64_t h;
						f >> h;
						hashes.insert(h);
					}
					f >> n;
					for (std::size_t i = 0; i < n; i++) {
						std::uint64_t c;
						std::string l;
						f >> c;
						f.get();
						std::getline(f, l);
						labels[l] += c;
					}
					f >> n;
					for (std::size_t i = 0; i < n; i++) {
						std::size_t len;
						f >> len;
						f.get();
						std::string t(len, 0);
						f.read(&t[0], len);
						if (samples.size() < 3) {
							samples.push_back(t);
						}
					}
				}
			}
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
				next = cases;
				break;
			}
			// The case at idx failed.  Confirm, shrink, confirm 3 times.
			restarts++;
			std::string msg;
			std::string first_msg = s->failed ? std::string((const char*)s->message) : fmt("status %d", st);
			std::vector<std::uint64_t> used;
			bool confirmed = fails(p, seen, o, msg, used, nullptr);
			if (confirmed) {
				std::vector<std::uint64_t> min = shrink(p, seen, o, msg, 3000, o.thorough ? 240 : 90);
				// A slow failure (a hang) is not run again and again when the time is running out: it has been confirmed once.
				auto reproduce = [&](const std::vector<std::uint64_t>& c, int runs) {
					bool all = true;
					for (int i = 0; all && i < runs && (i == 0 || now() - t0 < o.patience); i++) {
						all = fails(p, c, o, msg, used, &vtext, o.replay_out + ".log");
					}
					return all;
				};
				bool reproduced = reproduce(min, 3);
				if (!reproduced) {
					min = seen;
					reproduced = reproduce(min, 3);
				}
				if (reproduced) {
					violation = msg;
					std::ofstream f(o.replay_out);
					f << "property=" << p.name << "\n";
					f << "message=" << quote(msg, 3000) << "\n";
					f << "seed=" << o.seed << " case=" << idx << "\n";
					f << "choices=";
					for (auto v : min) {
						f << v << " ";
					}
					f << "\n---- what the case does (re-run: run.py --replay <this file>) ----\n" << vtext << "\n";
				}
				else {
					unreproduced++;
					unreproduced_msgs.push_back(first_msg);
				}
			}
			else {
				unreproduced++;
				unreproduced_msgs.push_back(first_msg);
			}
			next = idx + o.workers;
		}
		std::ofstream f(o.out);
		f << "{\"evaluations\":" << total_eval << ",\"discards\":" << total_discard << ",\"nontrivial\":" << nontriv_count << ",\"unreproduced\":" << unreproduced
			<< ",\"wall\":" << now() - t0 << ",\"violation\":" << json_str(violation) << ",\"rule\":" << json_str(p.rule) << ",\"labels\":{";
		bool first = true;
		for (auto& l : labels) {
			f << (first ? "" : ",") << json_str(l.first) << ":" << l.second;
			first = false;
		}
		f << "},\"unreproduced_messages\":[";
		first = true;
		for (auto& m : unreproduced_msgs) {
			f << (first ? "" : ",") << json_str(m);
			first = false;
		}
		f << "],\"samples\":[";
		first = true;
		for (auto& t : samples) {
			f << (first ? "" : ",") << json_str(t.substr(0, 1500));
			first = false;
		}
		f << "],\"hashes\":[";
		first = true;
		for (auto h : hashes) {
			f << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\"";
			first = false;
		}
		f << "]}\n";
		return violation.empty() ? 0 : 1;
	}

	inline int main(int argc, char** argv) {
		Options o;
		std::string mode = argc > 1 ? argv[1] : "list";
		for (int i = 2; i < argc; i++) {
			std::string a = argv[i];
			auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--prop") o.prop = val();
			else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--worker") o.worker = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--workers") o.workers = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--deadline") o.deadline = strtod(val().c_str(), nullptr);
			else if (a == "--patience") o.patience = strtod(val().c_str(), nullptr);
			else if (a == "--thorough") o.thorough = true;
			else if (a == "--out") o.out = val();
			else if (a == "--replay-out") o.replay_out = val();
			else if (a == "--in") o.replay_in = val();
			else if (a == "--bytes") o.bytes_in = val();
			else if (a == "--log") o.logfile = val();
		}
		if (mode == "list") {
			for (auto& p : props()) {
				printf("%s %" PRIu64 " %" PRIu64 "\n", p.name.c_str(), p.quick_cases, p.thorough_cases);
			}
			for (auto& k : knowns()) {
				printf("known %s\n", k.name.c_str());
			}
			return 0;
		}
		shared() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		signal(SIGPIPE, SIG_DFL);
		int rc = 2;
		o.scratch = make_scratch();
		if (mode == "run") {
			for (auto& p : props()) {
				if (p.name == o.prop) {
					rc = run_prop(p, o);
				}
			}
		}
		else if (mode == "replay") {
			std::string name = o.prop;
			std::vector<std::uint64_t> in;
			if (!o.replay_in.empty()) {
				in = read_replay(o.replay_in, name);
			}
			for (auto& p : props()) {
				if (p.name == name) {
					if (!o.bytes_in.empty()) {
						// Convert a fuzzer input into a choice sequence by running it once in a child.
						std::ifstream f(o.bytes_in, std::ios::binary);
						std::stringstream ss;
						ss << f.rdbuf();
						std::string data = ss.str();
						pid_t pid = fork();
						if (pid == 0) {
							redirect_output("");
							install_handlers();
							Src src;
							src.mode = Src::bytes;
							src.data = (const std::uint8_t*)data.data();
							src.size = data.size();
							src.scratch = o.scratch;
							_exit(run_case(p, src) ? 0 : 1);
						}
						int st;
						waitpid(pid, &st, 0);
						Shared* s = shared();
						in.assign(s->choices, s->choices + s->choice_count);
					}
					std::string msg, text;
					std::vector<std::uint64_t> used;
					bool bad = fails(p, in, o, msg, used, &text, o.logfile.empty() ? "/dev/stderr" : o.logfile);
					if (bad && !o.bytes_in.empty() && !o.replay_out.empty()) {
						in = shrink(p, in, o, msg, 3000, 90);
						int n = 0;
						for (int i = 0; i < 3; i++) {
							n += fails(p, in, o, msg, used, &text, o.replay_out + ".log") ? 1 : 0;
						}
						bad = n == 3;
						if (bad) {
							std::ofstream f(o.replay_out);
							f << "property=" << p.name << "\nmessage=" << quote(msg, 3000) << "\nchoices=";
							for (auto v : in) {
								f << v << " ";
							}
							f << "\n---- what the case does ----\n" << text << "\n";
						}
					}
					printf("%s\n", text.c_str());
					printf("%s: %s\n", bad ? "FAILS" : "passes", msg.c_str());
					rc = bad ? 1 : 0;
				}
			}
		}
		else if (mode == "known") {
			rc = 0;
			for (auto& k : knowns()) {
				if (o.prop != k.name) {
					continue;
				}
				pid_t pid = fork();
				if (pid == 0) {
					redirect_output(o.logfile);
					install_handlers();
					arm();
					bool r = true;
					try {
						r = k.reproduces();
					}
					catch (...) {
						r = true;
					}
					_exit(r ? 1 : 0);
				}
				int st = 0;
				waitpid(pid, &st, 0);
				bool rep = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
				printf("%s %s\n", rep ? "REPRODUCED" : "GONE", k.what.c_str());
			}
		}
		rm_rf(o.scratch);
		return rc;
	}
}

#if defined(PART) && PART != 0
#elif !defined(PBT_FUZZ)
int main(int argc, char** argv) {
	return pbt::main(argc, argv);
}
#else
// Coverage-guided driver: libFuzzer supplies the choices of the property named in PBT_PROP.
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
	static pbt::Prop* prop = [] {
		pbt::shared() = (pbt::Shared*)mmap(nullptr, sizeof(pbt::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		for (auto& p : pbt::props()) {
			if (p.name == getenv("PBT_PROP")) {
				return &p;
			}
		}
		abort();
	}();
	pbt::Src src;
	src.mode = pbt::Src::bytes;
	src.data = data;
	src.size = size;
	src.scratch = getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "";
	pbt::Shared* s = pbt::shared();
	s->choice_count = 0;
	try {
		pbt::draw_alloc_fill(src);
		prop->body(src);
	}
	catch (const pbt::Discard&) {
	}
	catch (const pbt::Failure& f) {
		fprintf(stderr, "FAILURE: %s\n", f.msg.c_str());
		abort();
	}
	catch (const std::exception& e) {
		fprintf(stderr, "FAILURE: unexpected exception %s\n", e.what());
		abort();
	}
	return 0;
}
#endif
