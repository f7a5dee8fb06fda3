// C05: durability.  C06: invalid pool files.  C07: space efficiency.  C08: strings as streams.
#include "vm.h"
#include <ostream>
#include <istream>

// ---------------------------------------------------------------- C05

using LItem = Item<900>;
using MKey = Item<500>;
using MVal = Item<200>;
using SItem = Item<130>;

struct Op {
	unsigned kind;
	std::uint64_t a;
	std::uint64_t id;
};

struct Model {
	std::vector<std::uint64_t> list;
	std::map<std::uint64_t, std::uint64_t> map;
	std::vector<std::uint64_t> stack;
	std::string text;
	std::uint64_t word = 0;		// a plain word on the start page

	void apply(const Op& o) {
		switch (o.kind) {
			case 0: case 1: list.insert(list.begin() + o.a % (list.size() + 1), o.id); break;
			case 2: list.push_back(o.id); break;
			case 3: if (!list.empty()) list.erase(list.begin() + o.a % list.size()); break;
			case 4: case 5: map.insert({ o.a, o.id }); break;
			case 6: map.erase(o.a); break;
			case 7: stack.push_back(o.id); break;
			case 8: if (!stack.empty()) stack.pop_back(); break;
			case 9: for (unsigned i = 0; i < o.a % 700; i++) text += (char)('!' + (o.id + i * 7) % 90); break;
			case 10: word = o.id; break;
			case 11: if (o.a % 5 == 0) list.clear(); break;
			case 12: if (o.a % 5 == 0) map.clear(); break;
			case 13: map.erase(o.a); map[o.a] = o.id; break;
			case 14: if (o.a % 4 == 0) text.clear(); break;
		}
	}
};

template <std::size_t N, typename Log>
struct World {
	using S = Session<N, Log>;
	using Pool = typename S::Pool;
	using List = abc::vmem_list<LItem, Pool, Log>;
	using Map = abc::vmem_map<MKey, MVal, Pool, Log>;
	using Stack = abc::vmem_stack<SItem, Pool, Log>;
	using String = abc::vmem_string<Pool, Log>;
	using Page = typename S::Page;

	S s;
	List list;
	Map map;
	Stack stack;
	String text;
	std::uint64_t* word;

	explicit World(const std::string& path)
		: s(path)
		, list(&s.st()->lists[1], s.pool.get(), s.log())
		, map(&s.st()->maps[1], s.pool.get(), s.log())
		, stack(&s.st()->stacks[1], s.pool.get(), s.log())
		, text(&s.st()->strings[1], s.pool.get(), s.log())
		, word(reinterpret_cast<std::uint64_t*>((char*)s.start->ptr() + 4000)) {
	}
	void apply(const Op& o) {
		switch (o.kind) {
			case 0: case 1: {
				auto it = list.begin();
				for (std::uint64_t i = o.a % (list.size() + 1); i > 0; i--) ++it;
				list.insert(it, LItem::make(o.id));
				break;
			}
			case 2: list.push_back(LItem::make(o.id)); break;
			case 3:
				if (!list.empty()) {
					auto it = list.begin();
					for (std::uint64_t i = o.a % list.size(); i > 0; i--) ++it;
					list.erase(it);
				}
				break;
			case 4: case 5: {
				abc::vmem_map_value<MKey, MVal> kv;
				kv.key = MKey::make(o.a);
				kv.value = MVal::make(o.id);
				map.insert(kv);
				break;
			}
			case 6: map.erase(MKey::make(o.a)); break;
			case 7: stack.push_back(SItem::make(o.id)); break;
			case 8: if (!stack.empty()) stack.pop_back(); break;
			case 9: {
				abc::vmem_string_streambuf<Pool, Log> sb(&text, s.log());
				std::ostream os(&sb);
				for (unsigned i = 0; i < o.a % 700; i++) os << (char)('!' + (o.id + i * 7) % 90);
				os.flush();
				break;
			}
			case 10: *word = o.id; break;
			case 11: if (o.a % 5 == 0) list.clear(); break;
			case 12: if (o.a % 5 == 0) map.clear(); break;
			case 13: {
				map.erase(MKey::make(o.a));
				abc::vmem_map_value<MKey, MVal> kv;
				kv.key = MKey::make(o.a);
				kv.value = MVal::make(o.id);
				map.insert(kv);
				break;
			}
			case 14: if (o.a % 4 == 0) text.clear(); break;
		}
	}
	void compare(const Model& m, const char* when) {
		CHECK(*word == m.word, "%s: a word stored on the start page is %llu, expected %llu", when, (unsigned long long)*word, (unsigned long long)m.word);
		CHECK(list.size() == m.list.size(), "%s: the list has %zu items, expected %zu", when, list.size(), m.list.size());
		std::size_t k = 0;
		for (auto it = list.cbegin(); it != list.cend(); ++it, ++k) {
			CHECK(k < m.list.size(), "%s: the list iterates over more than %zu items", when, m.list.size());
			CHECK(*it == LItem::make(m.list[k]), "%s: list item %zu is #%llu%s, expected #%llu", when, k, (unsigned long long)(*it).id, (*it).intact() ? "" : " (corrupted)", (unsigned long long)m.list[k]);
		}
		CHECK(k == m.list.size(), "%s: the list iterates over %zu of %zu items", when, k, m.list.size());
		CHECK(map.size() == m.map.size(), "%s: the map has %zu items, expected %zu", when, map.size(), m.map.size());
		auto mi = m.map.begin();
		for (auto it = map.cbegin(); it != map.cend(); ++it, ++mi) {
			CHECK(mi != m.map.end(), "%s: the map iterates over more than %zu items", when, m.map.size());
			CHECK((*it).key == MKey::make(mi->first) && (*it).value == MVal::make(mi->second), "%s: the map gives key %llu value #%llu, expected key %llu value #%llu", when, (unsigned long long)(*it).key.id, (unsigned long long)(*it).value.id, (unsigned long long)mi->first, (unsigned long long)mi->second);
		}
		CHECK(mi == m.map.end(), "%s: the map iteration ends early", when);
		for (auto& e : m.map) {
			auto f = map.find(MKey::make(e.first));
			CHECK(f.can_deref() && (*f).value == MVal::make(e.second), "%s: the map does not find key %llu", when, (unsigned long long)e.first);
		}
		CHECK(stack.size() == m.stack.size(), "%s: the stack has %zu items, expected %zu", when, stack.size(), m.stack.size());
		k = 0;
		for (auto it = stack.cbegin(); it != stack.cend(); ++it, ++k) {
			CHECK(k < m.stack.size() && *it == SItem::make(m.stack[k]), "%s: stack item %zu is wrong", when, k);
		}
		CHECK(text.size() == m.text.size(), "%s: the string has %zu chars, expected %zu", when, text.size(), m.text.size());
		k = 0;
		for (auto it = text.cbegin(); it != text.cend(); ++it, ++k) {
			CHECK(k < m.text.size() && *it == m.text[k], "%s: char %zu of the string is wrong", when, k);
		}
	}
	void audit(const std::string& path) {
		RawPool raw(path);
		Ownership own(raw);
		StartPage st = *s.st();
		own.add(raw.chain(st.lists[1], "list"), "list");
		own.add(raw.chain(st.maps[1].values, "map values"), "map values");
		own.add(raw.chain(st.maps[1].keys, "map key stack"), "map key stack");
		own.add(raw.chain(st.stacks[1], "stack"), "stack");
		own.add(raw.chain(st.strings[1], "string"), "string");
		abc::vmem_stack<abc::vmem_container_state, Pool, Log> ks(&s.st()->maps[1].keys, s.pool.get(), s.log());
		int lev = 0;
		for (auto it = ks.begin(); it != ks.end(); it++, lev++) {
			abc::vmem_container_state cs = *it;
			own.add(raw.chain(cs, "map key level"), fmt("map key level %d", lev));
		}
		own.complete();
	}
};

static void copy_file(const std::string& from, const std::string& to) {
	std::ifstream f(from, std::ios::binary);
	std::ofstream g(to, std::ios::binary | std::ios::trunc);
	g << f.rdbuf();
}

enum { END_CLEAN = 0, END_KILL = 1, END_EXIT = 2 };

// Runs a session in a child process.
template <std::size_t N, typename Log>
static void session(const std::string& path, const std::vector<Op>& ops, int end, const Model& before, bool compare_first, const std::string& msgfile, std::size_t snapshot_at) {
	try {
		World<N, Log>* w = new World<N, Log>(path);
		if (compare_first) {
			w->compare(before, "after reopening the pool");
			w->audit(path);
		}
		std::size_t i = 0;
		for (auto& o : ops) {
			w->apply(o);
			if (++i == snapshot_at) {
				copy_file(path, path + ".snapshot");
			}
		}
		if (end == END_KILL) {
			kill(getpid(), SIGKILL);
		}
		if (end == END_CLEAN) {
			delete w;
		}
		_exit(0);
	}
	catch (const pbt::Failure& f) {
		std::ofstream g(msgfile);
		g << f.msg;
		g.close();
		_exit(3);
	}
	catch (const std::exception& e) {
		std::ofstream g(msgfile);
		g << "unexpected exception: " << e.what();
		g.close();
		_exit(3);
	}
}

static void run_session(unsigned cfg, const std::string& path, const std::vector<Op>& ops, int end, const Model& before, bool cf, const std::string& mf, std::size_t snap) {
	switch (cfg) {
		case 0: session<8, QLog>(path, ops, end, before, cf, mf, snap); break;
		case 1: session<64, NLog>(path, ops, end, before, cf, mf, snap); break;
		default: session<16, QLog>(path, ops, end, before, cf, mf, snap); break;
	}
}

static void durable_case(Src& src) {
	std::string dir = pbt::case_dir(src);
	std::string path = dir + "/pool";
	std::string mf = dir + "/msg";
	Model m;
	unsigned sessions = 1 + src.draw(4);
	std::uint64_t id = 0;
	unsigned big = 0;
	std::uint64_t universe = 4 + src.draw(120);
	for (unsigned k = 0; k <= sessions; k++) {
		std::vector<Op> ops;
		Model before = m;
		Model snap = m;
		std::size_t n = k == sessions ? 0 : src.draw(src.thorough ? 160 : 90);
		unsigned bias = src.draw(4);
		std::size_t snap_at = src.draw(3) == 0 && n > 0 ? 1 + src.draw(n) : 0;
		for (std::size_t i = 0; i < n; i++) {
			Op o;
			o.kind = src.draw(15);
			if (bias == 1 && o.kind >= 6 && o.kind <= 9) o.kind = 4;
			if (bias == 2 && o.kind >= 3 && o.kind <= 9) o.kind = o.kind % 3;
			o.a = o.kind >= 4 && o.kind <= 13 ? src.draw(universe) : src.draw(1000);
			if (o.kind == 9) o.a = src.draw(700);
			o.id = ++id;
			ops.push_back(o);
			m.apply(o);
			if (i + 1 == snap_at) {
				snap = m;
			}
		}
		unsigned cfg = src.draw(3);
		int end = (int)src.draw(3);
		src.note(fmt("session %u: pool of %d mapped pages, %zu operations, %s; then list=%zu map=%zu stack=%zu string=%zu", k, cfg == 0 ? 8 : cfg == 1 ? 64 : 16, n, end == END_CLEAN ? "closed cleanly" : end == END_KILL ? "killed" : "exited without closing", m.list.size(), m.map.size(), m.stack.size(), m.text.size()));
		for (auto& o : ops) {
			src.note(fmt("  op %u a=%llu id=%llu", o.kind, (unsigned long long)o.a, (unsigned long long)o.id));
		}
		unlink(mf.c_str());
		pid_t pid = fork();
		if (pid == 0) {
			pbt::arm();
			run_session(cfg, path, ops, end, before, k > 0, mf, snap_at);
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		std::ifstream f(mf);
		std::string msg;
		std::getline(f, msg);
		CHECK(msg.empty(), "session %u: %s", k, msg.c_str());
		bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
		if (end == END_KILL) {
			ok = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
		}
		CHECK(ok, "session %u ended with status 0x%x", k, st);
		if (snap_at != 0) {
			// The file as it was between two operations while the pool was open.
			pid_t p2 = fork();
			if (p2 == 0) {
				pbt::arm();
				run_session((cfg + 1) % 3, path + ".snapshot", std::vector<Op>(), END_CLEAN, snap, true, mf, 0);
				_exit(0);
			}
			waitpid(p2, &st, 0);
			std::ifstream g(mf);
			std::getline(g, msg);
			CHECK(msg.empty(), "a copy of the pool file taken after operation %zu of session %u: %s", snap_at, k, msg.c_str());
			CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a copy of the pool file taken after operation %zu of session %u ended with status 0x%x", snap_at, k, st);
			unlink((path + ".snapshot").c_str());
		}
		if (m.list.size() > 4 || m.map.size() > 5 || m.stack.size() > 31) {
			big++;
		}
		if (end != END_CLEAN) {
			src.label("ended without closing");
		}
	}
	if (big > 0 && sessions > 1) {
		src.nontrivial();
	}
}

// ---------------------------------------------------------------- C06

static std::string slurp(const std::string& p) {
	std::ifstream f(p, std::ios::binary);
	std::stringstream ss;
	ss << f.rdbuf();
	return ss.str();
}
static std::size_t open_fds() {
	std::size_t n = 0;
	DIR* d = opendir("/proc/self/fd");
	while (readdir(d)) n++;
	closedir(d);
	return n;
}
static std::size_t mapped(const std::string& path) {
	std::ifstream f("/proc/self/maps");
	std::string line;
	std::size_t n = 0;
	while (std::getline(f, line)) {
		if (line.find(path) != std::string::npos) n++;
	}
	return n;
}

template <std::size_t N, typename Log>
static void invalid_case(Src& src) {
	using Pool = abc::vmem_pool<N, Log>;
	using Page = abc::vmem_page<Pool, Log>;
	std::string dir = pbt::case_dir(src);
	std::string path = dir + "/pool";
	LogHolder<Log> lh;
	std::size_t pages = src.draw(6);
	bool expect_ok = false;
	std::string content;
	// A valid pool to start from.
	{
		Pool pool(path.c_str(), lh.ptr());
		std::vector<Page> ps;
		for (std::size_t i = 0; i < pages; i++) {
			Page p(&pool, lh.ptr());
			memset(p.ptr(), 0x40 + (int)i, abc::vmem_page_size);
			if (src.draw(3) == 0) {
				p.free();
			}
		}
		Page s(&pool, abc::vmem_page_pos_start, lh.ptr());
		memset(s.ptr(), 0x77, 4096);
	}
	content = slurp(path);
	const char* path_arg = path.c_str();
	std::string other;
	unsigned kind = src.draw(12);
	bool created = false;
	abc::vmem_root_page ref;
	switch (kind) {
		case 0: {
			std::size_t cut = src.draw(content.size());
			if (cut % abc::vmem_page_size == 0) cut++;
			content.resize(cut);
			src.note(fmt("pool file truncated to %zu bytes", cut));
			break;
		}
		case 1: {
			std::size_t add = 1 + src.draw(abc::vmem_page_size - 1);
			content += std::string(add, (char)src.draw(256));
			src.note(fmt("%zu bytes appended to the pool file", add));
			break;
		}
		case 2:
			content.resize(abc::vmem_page_size);
			src.note("pool file truncated to the root page");
			break;
		case 3: {
			std::uint16_t v = (std::uint16_t)src.draw(65536);
			if (v == ref.version) v++;
			memcpy(&content[offsetof(abc::vmem_root_page, version)], &v, 2);
			src.note(fmt("version %u", v));
			break;
		}
		case 4: {
			std::size_t i = src.draw(9);
			char c = (char)src.draw(256);
			if (c == ref.signature[i]) c++;
			content[offsetof(abc::vmem_root_page, signature) + i] = c;
			src.note(fmt("signature byte %zu is 0x%02x", i, (unsigned char)c));
			break;
		}
		case 5: {
			std::uint16_t v = (std::uint16_t)src.draw(65536);
			if (v == ref.page_size) v++;
			memcpy(&content[offsetof(abc::vmem_root_page, page_size)], &v, 2);
			src.note(fmt("page size %u", v));
			break;
		}
		case 6: {
			std::size_t n = (1 + src.draw(4)) * abc::vmem_page_size;
			std::uint64_t s = src.draw(1u << 20);
			content.assign(n, 0);
			if (s != 0) {
				for (auto& c : content) c = (char)pbt::mix(s++);
			}
			src.note(fmt("%zu random bytes", n));
			break;
		}
		case 7:
			src.note("path in a directory that does not exist");
			other = dir + "/no/such/dir/pool";
			path_arg = other.c_str();
			break;
		case 8:
			src.note("path of a directory");
			path_arg = dir.c_str();
			break;
		case 9:
			src.note("null path");
			path_arg = nullptr;
			break;
		case 10:
			expect_ok = true;
			if (src.chance(1, 2)) {
				content.clear();
				src.note("empty file");
				created = true;
			}
			else {
				src.note("valid file");
			}
			break;
		case 11:
			content.clear();
			src.note("empty file on a full disk");
			break;
	}
	{
		std::ofstream f(path, std::ios::binary | std::ios::trunc);
		f << content;
	}
	std::size_t fds = open_fds();
	bool threw = false;
	try {
		struct rlimit rl;
		getrlimit(RLIMIT_FSIZE, &rl);
		struct Restore {
			struct rlimit& rl;
			~Restore() { setrlimit(RLIMIT_FSIZE, &rl); }
		} restore{ rl };
		if (kind == 11) {
			struct rlimit full = rl;
			full.rlim_cur = src.chance(1, 2) ? src.draw(2 * abc::vmem_page_size) : src.draw(2) * abc::vmem_page_size;
			signal(SIGXFSZ, SIG_IGN);
			setrlimit(RLIMIT_FSIZE, &full);
		}
		Pool pool(path_arg, lh.ptr());
		if (expect_ok) {
			Page s(&pool, abc::vmem_page_pos_start, lh.ptr());
			CHECK(s.ptr() != nullptr, "the start page of a valid pool cannot be locked");
			unsigned char want = created ? 0 : 0x77;
			for (std::size_t i = 0; i < abc::vmem_page_size; i++) {
				CHECK(((unsigned char*)s.ptr())[i] == want, "byte %zu of the start page of a %s pool is wrong", i, created ? "new" : "valid");
			}
		}
		else {
			// It must not pretend to work; touch what a program touches first.
			Page s(&pool, abc::vmem_page_pos_start, lh.ptr());
			if (s.ptr() != nullptr) {
				volatile char c = *(volatile char*)s.ptr();
				(void)c;
			}
		}
	}
	catch (const pbt::Failure&) {
		throw;
	}
	catch (const std::logic_error&) {
		threw = true;
		CHECK(kind == 9, "an invalid file gives a logic_error");
	}
	catch (const std::runtime_error&) {
		threw = true;
		CHECK(kind != 9, "a null path gives a runtime_error");
	}
	CHECK(threw == !expect_ok, "%s", threw ? "a valid pool file was rejected" : "an invalid pool file was accepted");
	CHECK(open_fds() == fds, "%zu files are open, there were %zu before the pool was %s", open_fds(), fds, threw ? "rejected" : "opened and closed");
	CHECK(mapped(path) == 0, "pages of the pool file are still mapped");
	if (threw && path_arg == path.c_str()) {
		CHECK(slurp(path) == content, "a rejected pool file was modified");
	}
	if (kind == 11) {
		// Later, there is space.
		Pool pool(path.c_str(), lh.ptr());
		Page p(&pool, abc::vmem_page_pos_start, lh.ptr());
		CHECK(p.ptr() != nullptr, "the start page of a pool that couldn't be created at first cannot be locked");
		for (std::size_t i = 0; i < abc::vmem_page_size; i++) {
			CHECK(((unsigned char*)p.ptr())[i] == 0, "byte %zu of the start page of a new pool isn't 0", i);
		}
	}
	if (created) {
		CHECK(slurp(path).size() == 2 * abc::vmem_page_size, "a new pool has %zu bytes", slurp(path).size());
	}
	if (threw) {
		src.nontrivial();
	}
	static const char* names[] = { "truncated", "extended", "root page only", "version", "signature", "page size", "random bytes", "no directory", "directory", "null path", "valid", "full disk" };
	src.label(names[kind]);
}

static void small_pool_case(Src& src) {
	std::string dir = pbt::case_dir(src);
	std::string path = dir + "/pool";
	bool threw = false;
	try {
		if (src.draw(2)) {
			abc::vmem_pool<1, NLog> p(path.c_str());
		}
		else {
			abc::vmem_pool<2, NLog> p(path.c_str());
		}
	}
	catch (const std::logic_error&) {
		threw = true;
	}
	CHECK(threw, "a pool with less than the minimum number of mapped pages was accepted");
}

// ---------------------------------------------------------------- C07

template <std::size_t N, typename Log, typename T>
static void space_case(Src& src) {
	using S = Session<N, Log>;
	using List = abc::vmem_list<T, typename S::Pool, Log>;
	using PageT = abc::vmem_container_page<T, abc::vmem_noheader>;
	std::string dir = pbt::case_dir(src);
	S s(dir + "/pool");
	List list(&s.st()->lists[0], s.pool.get(), s.log());
	std::size_t cap = List::page_capacity();
	std::size_t n = 0, limit = 20 * cap;
	std::uint64_t id = 0;
	bool erased = false, balanced = false, clean = true;
	src.note(fmt("item size %zu, page capacity %zu", sizeof(T), cap));
	auto counts = [&]() {
		RawPool raw(s.path);
		Ownership own(raw);
		abc::vmem_list_state st = s.st()->lists[0];
		return own.template counts<PageT>(raw.chain(st, "list"));
	};
	auto show = [&](const std::vector<std::size_t>& c) {
		std::string r;
		for (auto x : c) r += fmt("%zu ", x);
		return r;
	};
	auto audit = [&]() {
		auto c = counts();
		std::size_t total = 0;
		for (auto x : c) {
			total += x;
			CHECK(x > 0 && x <= cap, "a page holds %zu items, the capacity is %zu: %s", x, cap, show(c).c_str());
		}
		CHECK(total == n, "the pages hold %zu items, expected %zu", total, n);
		if (!balanced && clean && !erased) {
			// Appended only.
			CHECK(c.size() == (n + cap - 1) / cap, "%zu appended items take %zu pages of %zu items", n, c.size(), cap);
		}
		if (!erased) {
			// Inserted at random positions: every page is at least half full, except the last.
			for (std::size_t i = 0; i + 1 < c.size(); i++) {
				CHECK(2 * c[i] + 1 >= cap, "page %zu is less than half full after insertions only: %s (capacity %zu)", i, show(c).c_str(), cap);
			}
		}
		else {
			// Erasures merge neighbours that fit on one page: two neighbours never hold half a page or less together.
			for (std::size_t i = 0; i + 2 < c.size(); i++) {
				CHECK(2 * (c[i] + c[i + 1]) > cap, "pages %zu and %zu together are at most half full: %s (capacity %zu)", i, i + 1, show(c).c_str(), cap);
			}
		}
		return c.size();
	};
	auto at = [&](std::size_t k) {
		if (k == n) return list.end();
		auto it = list.begin();
		for (std::size_t i = 0; i < k; i++) ++it;
		return it;
	};
	std::size_t maxpages = 0;
	std::size_t ops = 1 + src.draw(12);
	for (std::size_t i = 0; i < ops; i++) {
		std::size_t cnt = 1 + src.draw(6 * cap < 120 ? 6 * cap : 120);
		switch (src.draw(10)) {
			case 8: {
				// Fill the last page, and insert a few items at some position of it, or of some other page.
				auto c = counts();
				while (n % cap != 0 && !balanced && !erased && n < limit) {
					list.push_back(T::make(++id));
					n++;
				}
				if (!c.empty() && (balanced || erased)) {
					for (std::size_t j = c.back(); j < cap && n < limit; j++) {
						list.push_back(T::make(++id));
						n++;
					}
				}
				c = counts();
				if (c.empty()) break;
				std::size_t page = src.chance(1, 2) ? c.size() - 1 : src.draw(c.size());
				std::size_t first = 0;
				for (std::size_t x = 0; x < page; x++) first += c[x];
				std::size_t few = 1 + src.draw(3);
				for (std::size_t j = 0; j < few && n < limit; j++) {
					std::size_t p = first + src.draw(c[page] + 1);
					src.note(fmt("insert 1 at %zu, on the full page %zu", p, page));
					if (p < n) balanced = true;
					list.insert(at(p), T::make(++id));
					n++;
					audit();
				}
				break;
			}
			case 9: {
				src.note("erase or insert one by one");
				std::size_t few = 1 + src.draw(6);
				for (std::size_t j = 0; j < few; j++) {
					std::size_t p = src.draw(n + 1);
					if (src.chance(1, 2)) {
						if (n >= limit) break;
						if (p < n) balanced = true;
						list.insert(at(p), T::make(++id));
						n++;
					}
					else if (p < n) {
						list.erase(at(p));
						erased = true;
						n--;
					}
					if (n == 0) break;
					audit();
				}
				break;
			}
			case 0: case 1:
				src.note(fmt("append %zu", cnt));
				for (std::size_t j = 0; j < cnt && n < limit; j++) {
					list.push_back(T::make(++id));
					n++;
				}
				break;
			case 2: {
				src.note(fmt("insert %zu at random positions", cnt));
				for (std::size_t j = 0; j < cnt && n < limit; j++) {
					std::size_t p = src.draw(n + 1);
					if (p < n) balanced = true;
					list.insert(at(p), T::make(++id));
					n++;
				}
				break;
			}
			case 3: {
				std::size_t p = src.draw(n + 1);
				src.note(fmt("insert %zu at %zu", cnt, p));
				if (p < n || cnt > 1) balanced = true;
				auto it = at(p);
				for (std::size_t j = 0; j < cnt && n < limit; j++) {
					it = list.insert(it, T::make(++id));
					n++;
				}
				break;
			}
			case 4: {
				src.note(fmt("erase %zu at random positions", cnt));
				for (std::size_t j = 0; j < cnt && n > 0; j++) {
					list.erase(at(src.draw(n)));
					erased = true;
					n--;
				}
				break;
			}
			case 5: {
				// Thin out: erase every other, or runs.
				std::size_t step = 1 + src.draw(cap + 1);
				src.note(fmt("erase %zu, skipping %zu in between", cnt, step));
				auto it = list.begin();
				std::size_t pos = 0;
				for (std::size_t j = 0; j < cnt && pos < n; j++) {
					it = list.erase(it);
					erased = true;
					n--;
					for (std::size_t x = 0; x < step && pos < n; x++) {
						++it;
						pos++;
					}
				}
				break;
			}
			case 6: case 7: {
				// Shrink a page, then a page next to it.
				auto c = counts();
				if (c.empty()) break;
				std::size_t page = src.draw(c.size());
				std::size_t rounds = 1 + src.draw(4);
				for (std::size_t r = 0; r < rounds; r++) {
					std::size_t first = 0;
					for (std::size_t x = 0; x < page; x++) first += c[x];
					std::size_t keep = 1 + src.draw(c[page]);
					src.note(fmt("shrink page %zu from %zu to %zu items", page, c[page], keep));
					for (std::size_t x = c[page]; x > keep; x--) {
						list.erase(at(first + src.draw(x)));
						erased = true;
						n--;
						// The page may have been merged.
						if (counts().size() != c.size()) break;
					}
					c = counts();
					page = src.draw(2) ? page + 1 : page > 0 ? page - 1 : 1;
					if (page >= c.size()) break;
				}
				break;
			}
		}
		if (n == 0) {
			erased = balanced = false;
			CHECK(counts().empty(), "an empty list still has %zu pages", counts().size());
		}
		maxpages = std::max(maxpages, audit());
	}
	if (maxpages >= 4 && (balanced || erased)) {
		src.nontrivial();
	}
	src.label(erased ? "with erasures" : balanced ? "insertions" : "appends");
}

// ---------------------------------------------------------------- C08

template <std::size_t N, typename Log, typename Ch>
static void string_case(Src& src) {
	using S = Session<N, Log>;
	using Str = abc::vmem_basic_string<Ch, typename S::Pool, Log>;
	using Buf = abc::vmem_basic_string_streambuf<Ch, typename S::Pool, Log>;
	using T = std::basic_string<Ch>;
	std::string dir = pbt::case_dir(src);
	S s(dir + "/pool");
	std::unique_ptr<Str> str(new Str(&s.st()->strings[0], s.pool.get(), s.log()));
	std::unique_ptr<Buf> out(new Buf(str.get(), s.log()));
	std::unique_ptr<Buf> in;
	T m;
	std::size_t rd = 0;			// read position of `in`
	std::size_t flushed = 0;
	std::size_t limit = 3 * Str::page_capacity();
	src.note(fmt("chars of %zu bytes, %zu per page", sizeof(Ch), Str::page_capacity()));
	auto ch = [&]() {
		switch (src.draw(6)) {
			case 0: return (Ch)(unsigned char)src.draw(256);
			case 1: return (Ch)0xff;
			case 2: return (Ch)0;
			case 3: return (Ch)('0' + src.draw(10));
			default: return (Ch)(' ' + src.draw(95));
		}
	};
	std::size_t ops = 1 + src.draw(40);
	bool many = false;
	for (std::size_t i = 0; i < ops; i++) {
		switch (src.draw(12)) {
			case 11: {
				// What can't be stored isn't accepted.
				std::size_t n = 1 + src.draw(src.chance(1, 3) ? Str::page_capacity() + 20 : 20);
				if (m.size() + n > limit) break;
				T t;
				Ch c = ch();
				for (std::size_t j = 0; j < n; j++) t += (Ch)(c + j);
				unsigned mode = src.draw(3);
				src.note(fmt("write %zu chars on a full disk%s", n, mode == 0 ? " and flush" : ""));
				std::basic_ostream<Ch> os(out.get());
				bool ok;
				{
					FullDisk full(src);
					if (mode < 2) {
						os.write(t.data(), t.size());
					}
					else {
						for (std::size_t j = 0; j < n && os.good(); j++) os.put(t[j]);
					}
					ok = os.good();
					if (mode == 0) {
						os.flush();
						if (ok && os.good()) {
							CHECK(str->size() == m.size() + n, "%zu of %zu chars are in the string after a successful flush on a full disk", str->size() - m.size(), n);
						}
					}
				}
				os.clear();
				os.flush();
				CHECK(os.good(), "flushing failed after a full disk");
				std::size_t now = str->size();
				CHECK(now >= m.size() && now - m.size() <= n, "the string has %zu chars after writing %zu to %zu on a full disk", now, n, m.size());
				if (ok) {
					CHECK(now == m.size() + n, "%zu of %zu chars are in the string though writing on a full disk has succeeded", now - m.size(), n);
				}
				else {
					CHECK(now < m.size() + n, "all %zu chars are in the string though writing on a full disk has failed", n);
					src.label("full disk");
				}
				m += t.substr(0, now - m.size());
				flushed = m.size();
				break;
			}
			case 0: {
				Ch c = ch();
				src.note(fmt("put 0x%x", (unsigned)c));
				std::basic_ostream<Ch> os(out.get());
				os.put(c);
				CHECK(os.good(), "writing a char 0x%x failed", (unsigned)c);
				m += c;
				break;
			}
			case 1: case 2: {
				T t;
				std::size_t n = src.len(300);
				for (std::size_t j = 0; j < n; j++) t += ch();
				src.note(fmt("write %zu chars", n));
				std::basic_ostream<Ch> os(out.get());
				os.write(t.data(), t.size());
				CHECK(os.good(), "writing %zu chars failed", n);
				m += t;
				break;
			}
			case 3: {
				std::uint64_t v = src.draw(1000000);
				src.note(fmt("<< %llu", (unsigned long long)v));
				std::basic_ostream<Ch> os(out.get());
				os << v << (Ch)' ';
				for (char c : std::to_string(v)) m += (Ch)c;
				m += (Ch)' ';
				break;
			}
			case 4: {
				if (src.chance(1, 2)) break;
				std::size_t n = src.draw(2 * Str::page_capacity());
				if (m.size() + n > limit) break;
				Ch c = ch();
				src.note(fmt("write %zu times 0x%x", n, (unsigned)c));
				std::basic_ostream<Ch> os(out.get());
				T t(n, c);
				os.write(t.data(), t.size());
				m += t;
				break;
			}
			case 5: {
				src.note("flush");
				std::basic_ostream<Ch> os(out.get());
				os.flush();
				CHECK(os.good(), "flushing failed");
				flushed = m.size();
				CHECK(str->size() == m.size(), "the string has %zu chars after a flush, %zu have been written", str->size(), m.size());
				break;
			}
			case 6: case 7: {
				std::size_t n = src.len(400);
				if (!in) {
					if (flushed != m.size()) break;
					in.reset(new Buf(str.get(), s.log()));
					rd = 0;
				}
				// Do not read past what has been flushed: the end is sticky.
				if (n > flushed - rd) n = flushed - rd;
				std::basic_istream<Ch> is(in.get());
				if (src.chance(1, 3) && n > 0) {
					auto p = is.peek();
					CHECK(p == std::char_traits<Ch>::to_int_type(m[rd]), "peek at %zu gives 0x%x, expected 0x%x", rd, (unsigned)p, (unsigned)m[rd]);
				}
				src.note(fmt("read %zu chars at %zu", n, rd));
				T t(n, 0);
				is.read(&t[0], n);
				CHECK((std::size_t)is.gcount() == n, "reading %zu chars at %zu of %zu gives only %zu", n, rd, flushed, (std::size_t)is.gcount());
				for (std::size_t j = 0; j < n; j++) {
					CHECK(t[j] == m[rd + j], "char %zu reads 0x%x, expected 0x%x", rd + j, (unsigned)t[j], (unsigned)m[rd + j]);
				}
				rd += n;
				if (rd == flushed) {
					// A reader that has come to the end stays there.
					in.reset();
				}
				break;
			}
			case 8: {
				// Everything, up to the end.
				std::basic_ostream<Ch> os(out.get());
				os.flush();
				flushed = m.size();
				Buf b(str.get(), s.log());
				std::basic_istream<Ch> is(&b);
				T t((std::istreambuf_iterator<Ch>(is)), std::istreambuf_iterator<Ch>());
				CHECK(t.size() == m.size(), "reading the whole string gives %zu of %zu chars", t.size(), m.size());
				CHECK(t == m, "reading the whole string gives other chars than written");
				src.note(fmt("read all %zu chars", t.size()));
				break;
			}
			case 9: {
				src.note("move the stream buffers");
				std::unique_ptr<Buf> o2(new Buf(std::move(*out)));
				out = std::move(o2);
				if (in) {
					std::unique_ptr<Buf> i2(new Buf(std::move(*in)));
					in = std::move(i2);
				}
				break;
			}
			case 10: {
				src.note("close and reopen the pool");
				{
					std::basic_ostream<Ch> os(out.get());
					os.flush();
				}
				flushed = m.size();
				in.reset();
				out.reset();
				str.reset();
				s.close();
				s.open();
				str.reset(new Str(&s.st()->strings[0], s.pool.get(), s.log()));
				out.reset(new Buf(str.get(), s.log()));
				break;
			}
		}
		many = many || m.size() > Str::page_capacity();
	}
	std::basic_ostream<Ch> os(out.get());
	os.flush();
	CHECK(str->size() == m.size(), "the string has %zu chars, %zu have been written", str->size(), m.size());
	std::size_t k = 0;
	for (auto it = str->cbegin(); it != str->cend(); ++it, ++k) {
		CHECK(*it == m[k], "char %zu of the string is 0x%x, expected 0x%x", k, (unsigned)*it, (unsigned)m[k]);
	}
	CHECK(k == m.size(), "iterating over the string gives %zu of %zu chars", k, m.size());
	if (m.size() > 20) {
		src.nontrivial();
	}
	if (many) {
		src.label("several pages");
	}
	in.reset();
	out.reset();
	str.reset();
}

#define CONFIGS(X) \
	X(0, 0, (durable_case)) \
	X(1, 1, (invalid_case<8, QLog>)) \
	X(2, 1, (invalid_case<3, NLog>)) \
	X(3, 1, (small_pool_case)) \
	X(4, 2, (space_case<8, QLog, Item<900>>)) \
	X(5, 2, (space_case<8, QLog, Item<450>>)) \
	X(6, 2, (space_case<8, QLog, Item<1300>>)) \
	X(7, 2, (space_case<8, QLog, Item<1900>>)) \
	X(8, 3, (string_case<8, QLog, char>)) \
	X(9, 3, (string_case<8, NLog, wchar_t>)) \
	X(10, 4, (space_case<8, QLog, Item<250>>)) \
	X(11, 4, (space_case<8, QLog, Item<120>>)) \
	X(12, 5, (space_case<8, QLog, Item<60>>))
#include "configs.h"

#if PART == 0
static pbt::Reg c05("C05", 12000, 200000,
	"a case is a history of 1 to 4 sessions over a pool with a list, a map, a stack and a string, each ended by closing, by exiting without closing or by SIGKILL between two operations, and compared with a model in the next session; non-trivial when there were several sessions and some structure spanned several pages",
	[](Src& src) { configs().at(0)(src); });
static pbt::Reg c06("C06", 80000, 1000000,
	"a case is a pool file made valid or invalid in one way, opened; non-trivial when it had to be rejected",
	[](Src& src) { configs().at(src.chance(1, 40) ? 3 : 1 + src.draw(2))(src); });
static pbt::Reg c07("C07", 40000, 600000,
	"a case is a random history of insertions and erasures over a list, after each of which the page fill counts are read from the pool file; non-trivial when it spanned at least 4 pages and was balanced",
	[](Src& src) { std::size_t k = src.draw(7); configs().at(k < 4 ? 4 + k : 6 + k)(src); });
static pbt::Reg c08("C08", 40000, 600000,
	"a case is a random history of writes, flushes, reads, moves and reopenings of a string through stream buffers; non-trivial when more than 20 chars were written",
	[](Src& src) { configs().at(8 + src.draw(2))(src); });
#endif
