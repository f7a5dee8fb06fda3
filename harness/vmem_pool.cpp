// C03: stacks and temporary containers.  C04: pages and linked pages.
#include "vm.h"
#include <sys/syscall.h>

// ---------------------------------------------------------------- C03

// A temporary list or map, used like a permanent one and destroyed in this function.
template <typename S, typename T>
static bool temp_list(Src& src, S& s, std::uint64_t& id, const std::function<void(const std::vector<std::uint64_t>&)>& audit) {
	using List = abc::vmem_list<T, typename S::Pool, typename S::Log>;
	using Temp = abc::vmem_temp<List>;
	std::size_t cap = List::page_capacity();
	std::size_t limit = 4 * cap < 200 ? 4 * cap : 200;
	abc::vmem_list_state state;
	std::unique_ptr<Temp> temp(new Temp(&state, s.pool.get(), s.log()));
	std::vector<T> m;
	auto at = [&](std::size_t k) {
		if (k == m.size()) return temp->end();
		auto it = temp->begin();
		for (std::size_t i = 0; i < k; i++) ++it;
		return it;
	};
	std::size_t rounds = 1 + src.draw(6);
	for (std::size_t r = 0; r < rounds; r++) {
		std::size_t cnt = src.len(2 * cap + 2 < 100 ? 2 * cap + 2 : 100);
		switch (src.draw(6)) {
			case 0:
				src.note(fmt("temporary list: append %zu items", cnt));
				for (std::size_t i = 0; i < cnt && m.size() < limit; i++) {
					m.push_back(T::make(++id));
					temp->push_back(m.back());
				}
				break;
			case 1: {
				std::size_t p = src.draw(m.size() + 1);
				src.note(fmt("temporary list: insert %zu items at %zu", cnt, p));
				for (std::size_t i = 0; i < cnt && m.size() < limit; i++) {
					T v = T::make(++id);
					temp->insert(at(p), v);
					m.insert(m.begin() + p, v);
				}
				break;
			}
			case 2: case 3: {
				std::size_t p = src.draw(m.size() + 1);
				src.note(fmt("temporary list: erase %zu items from %zu", cnt, p));
				for (std::size_t i = 0; i < cnt && p < m.size(); i++) {
					temp->erase(at(p));
					m.erase(m.begin() + p);
				}
				break;
			}
			case 4:
				src.note(fmt("temporary list: erase %zu items at random positions", cnt));
				for (std::size_t i = 0; i < cnt && !m.empty(); i++) {
					std::size_t p = src.draw(m.size());
					temp->erase(at(p));
					m.erase(m.begin() + p);
				}
				break;
			case 5: {
				src.note("move the temporary list");
				std::unique_ptr<Temp> other(new Temp(std::move(*temp)));
				temp = std::move(other);
				break;
			}
		}
		std::size_t k = 0;
		CHECK(temp->size() == m.size(), "temporary list: size() is %zu, expected %zu", temp->size(), m.size());
		for (auto it = temp->cbegin(); it != temp->cend(); ++it, ++k) {
			CHECK(k < m.size() && *it == m[k], "temporary list: item %zu of %zu is wrong", k, m.size());
		}
		CHECK(k == m.size(), "temporary list: iteration ends after %zu of %zu items", k, m.size());
		if (src.chance(1, 3)) {
			audit(RawPool(s.path, s.hole).chain(state, "temporary list"));
		}
	}
	src.note("destroy the temporary list");
	std::size_t n = m.size();
	temp.reset();
	audit({});
	return n > cap;
}

template <typename S, typename T>
static bool temp_map(Src& src, S& s, std::uint64_t& id, const std::function<void(const std::vector<std::uint64_t>&)>& audit) {
	using Map = abc::vmem_map<std::uint64_t, T, typename S::Pool, typename S::Log>;
	using Temp = abc::vmem_temp<Map>;
	abc::vmem_map_state state;
	std::unique_ptr<Temp> temp(new Temp(&state, s.pool.get(), s.log()));
	std::map<std::uint64_t, T> m;
	std::size_t rounds = 1 + src.draw(4);
	for (std::size_t r = 0; r < rounds; r++) {
		std::size_t cnt = src.len(60);
		switch (src.draw(5)) {
			case 0: case 1:
				src.note(fmt("temporary map: insert %zu items", cnt));
				for (std::size_t i = 0; i < cnt && m.size() < 100; i++) {
					abc::vmem_map_value<std::uint64_t, T> v;
					v.key = src.draw(1000);
					v.value = T::make(++id);
					bool fresh = m.emplace(v.key, v.value).second;
					CHECK(temp->insert(v).second == fresh, "temporary map: insert of key %llu", (unsigned long long)v.key);
				}
				break;
			case 2: case 3:
				src.note(fmt("temporary map: erase %zu items", cnt));
				for (std::size_t i = 0; i < cnt && !m.empty(); i++) {
					auto it = m.begin();
					std::advance(it, src.draw(m.size()));
					CHECK(temp->erase(it->first) == 1, "temporary map: erase of key %llu", (unsigned long long)it->first);
					m.erase(it);
				}
				break;
			case 4: {
				src.note("move the temporary map");
				std::unique_ptr<Temp> other(new Temp(std::move(*temp)));
				temp = std::move(other);
				break;
			}
		}
		CHECK(temp->size() == m.size(), "temporary map: size() is %zu, expected %zu", temp->size(), m.size());
		auto k = m.begin();
		for (auto it = temp->cbegin(); it != temp->cend(); ++it, ++k) {
			CHECK(k != m.end() && it->key == k->first && it->value == k->second, "temporary map: an item is wrong");
		}
		CHECK(k == m.end(), "temporary map: iteration ends early");
		// A lookup has a temporary path, which may be moved.
		std::uint64_t key = src.draw(1000);
		using Result = decltype(temp->find2(key));
		std::unique_ptr<Result> res(new Result(temp->find2(key)));
		CHECK(res->ok == (m.count(key) != 0), "temporary map: find2(%llu) gives %d", (unsigned long long)key, (int)res->ok);
		std::vector<abc::vmem_page_pos_t> path, path2;
		for (auto p : res->path) path.push_back(p);
		for (std::size_t moves = src.draw(3); moves > 0; moves--) {
			std::unique_ptr<Result> moved(new Result(std::move(*res)));
			res = std::move(moved);
		}
		CHECK(res->ok == (m.count(key) != 0), "temporary map: moved result of find2(%llu) gives %d", (unsigned long long)key, (int)res->ok);
		for (auto p : res->path) path2.push_back(p);
		res.reset();
		CHECK(path == path2, "temporary map: the path of a moved result has %zu pages, expected %zu", path2.size(), path.size());
	}
	src.note("destroy the temporary map");
	std::size_t n = m.size();
	temp.reset();
	audit({});
	return n > Map::value_page_capacity();
}

template <std::size_t N, typename Log, typename T>
static void stack_case(Src& src) {
	using S = Session<N, Log>;
	using Stack = abc::vmem_stack<T, typename S::Pool, Log>;
	using Temp = abc::vmem_temp<Stack>;
	using PageT = abc::vmem_container_page<T, abc::vmem_noheader>;
	std::string dir = pbt::case_dir(src);
	S s(dir + "/pool", gen_hole(src));
	if (s.hole != 0) {
		src.note(fmt("the pool file has a hole of 0x%llx pages", (unsigned long long)s.hole));
		src.label("beyond 32 bits");
	}
	std::size_t cap = Stack::page_capacity();
	std::size_t limit = cap > 1000 ? 2 * cap + 9 : cap * 8 < 60 ? 60 : cap * 8;
	src.note(fmt("pool of %zu mapped pages, item size %zu, page capacity %zu", N, sizeof(T), cap));
	std::uint64_t id = 0;
	struct One {
		std::unique_ptr<Stack> c;
		std::vector<T> m;
	} st[3];
	// A temporary stack with its state outside the pool.
	abc::vmem_stack_state temp_state;
	std::unique_ptr<Temp> temp;
	std::vector<T> temp_m;
	auto rebind = [&](int i) { st[i].c.reset(new Stack(&s.st()->stacks[i], s.pool.get(), s.log())); };
	for (int i = 0; i < 3; i++) {
		rebind(i);
	}
	std::size_t popped = 0, maxpages = 0, temps = 0;
	auto same = [&](const T& got, const T& want, const char* what, std::size_t k) {
		CHECK(got == want, "stack: %s at %zu gives item %llu%s, expected item %llu", what, k, (unsigned long long)got.ident(), got.intact() ? "" : " (corrupted)", (unsigned long long)want.ident());
	};
	auto compare = [&](Stack& c, const std::vector<T>& m, const char* name) {
		CHECK(c.size() == m.size(), "%s: size() is %zu, expected %zu", name, c.size(), m.size());
		CHECK(c.empty() == m.empty(), "%s: empty() is wrong with %zu items", name, m.size());
		std::size_t k = 0;
		for (auto it = c.cbegin(); it != c.cend(); ++it, ++k) {
			CHECK(k < m.size(), "%s: forward iteration gives more than %zu items", name, m.size());
			same(*it, m[k], "forward iteration", k);
		}
		CHECK(k == m.size(), "%s: forward iteration ends after %zu of %zu items", name, k, m.size());
		for (auto it = c.rend(); it != c.rbegin(); it--) {
			CHECK(k > 0, "%s: backward iteration gives more than %zu items", name, m.size());
			k--;
			same(*it, m[k], "backward iteration", k);
		}
		CHECK(k == 0, "%s: backward iteration leaves out %zu items", name, k);
	};
	std::vector<std::uint64_t> other_pages;
	auto audit = [&](bool with_temp) {
		RawPool raw(s.path, s.hole);
		Ownership own(raw);
		for (int i = 0; i < 3; i++) {
			abc::vmem_stack_state ss = s.st()->stacks[i];
			auto pages = raw.chain(ss, fmt("stack%d", i).c_str());
			own.add(pages, fmt("stack%d", i));
			auto counts = own.template counts<PageT>(pages);
			std::size_t total = 0;
			for (std::size_t p = 0; p < counts.size(); p++) {
				total += counts[p];
			}
			CHECK(total == st[i].m.size(), "stack%d: the pages hold %zu items, expected %zu", i, total, st[i].m.size());
			// No balancing: as long as items are only pushed and popped at the back, pages are filled up.
			std::size_t want = (st[i].m.size() + cap - 1) / cap;
			CHECK(pages.size() == want, "stack%d: %zu items take %zu pages, expected %zu", i, st[i].m.size(), pages.size(), want);
			maxpages = std::max(maxpages, pages.size());
		}
		if (with_temp && temp) {
			own.add(raw.chain(temp_state, "temporary stack"), "temporary stack");
		}
		own.add(other_pages, "temporary list");
		own.complete();
	};
	std::size_t ops = 1 + src.draw(src.thorough ? 120 : 60);
	for (std::size_t i = 0; i < ops; i++) {
		unsigned k = src.draw(14);
		int w = src.draw(3);
		One& o = st[w];
		switch (k) {
			case 12: case 13: {
				auto check = [&](const std::vector<std::uint64_t>& pages) {
					other_pages = pages;
					audit(true);
					other_pages.clear();
				};
				if (k == 12 ? temp_list<S, T>(src, s, id, check) : temp_map<S, T>(src, s, id, check)) {
					temps++;
				}
				break;
			}
			case 0: case 1: {
				T v = T::make(++id);
				src.note(fmt("stack%d.push_back(#%llu)", w, (unsigned long long)id));
				o.c->push_back(v);
				o.m.push_back(v);
				break;
			}
			case 2: case 3: {
				if (o.m.empty()) break;
				src.note(fmt("stack%d.pop_back()", w));
				same(o.c->back(), o.m.back(), "back()", o.m.size() - 1);
				o.c->pop_back();
				o.m.pop_back();
				popped++;
				break;
			}
			case 4: case 5: {
				std::size_t cnt = src.len(3 * cap + 2 < 300 ? 3 * cap + 2 : 300);
				src.note(fmt("stack%d.push_back of %zu items", w, cnt));
				for (std::size_t j = 0; j < cnt && o.m.size() < limit; j++) {
					T v = T::make(++id);
					o.c->push_back(v);
					o.m.push_back(v);
					same(o.c->back(), v, "back() after push_back()", o.m.size() - 1);
				}
				break;
			}
			case 6: case 7: {
				std::size_t cnt = src.len(3 * cap + 2 < 300 ? 3 * cap + 2 : 300);
				src.note(fmt("stack%d.pop_back of %zu items", w, cnt));
				for (std::size_t j = 0; j < cnt && !o.m.empty(); j++) {
					same(o.c->back(), o.m.back(), "back()", o.m.size() - 1);
					same(o.c->front(), o.m.front(), "front()", 0);
					o.c->pop_back();
					o.m.pop_back();
					popped++;
				}
				break;
			}
			case 8:
				if (src.chance(1, 3)) {
					src.note(fmt("stack%d.clear()", w));
					o.c->clear();
					o.m.clear();
				}
				compare(*o.c, o.m, "stack");
				break;
			case 9: {
				// Temporary stack: created, filled, checked, destroyed.
				if (temp) {
					compare(*temp, temp_m, "temporary stack");
					src.note("destroy the temporary stack");
					temp.reset();
					temp_m.clear();
					temp_state = abc::vmem_stack_state();
					audit(true);
				}
				else {
					src.note("create a temporary stack");
					temp_state = abc::vmem_stack_state();
					temp.reset(new Temp(&temp_state, s.pool.get(), s.log()));
					std::size_t cnt = src.len(2 * cap + 2 < 200 ? 2 * cap + 2 : 200);
					for (std::size_t j = 0; j < cnt; j++) {
						T v = T::make(++id);
						temp->push_back(v);
						temp_m.push_back(v);
					}
				}
				break;
			}
			case 10:
				audit(true);
				break;
			case 11:
				if (src.chance(1, 2)) {
					rebind(w);
				}
				else {
					src.note("close and reopen the pool");
					temp.reset();
					temp_m.clear();
					temp_state = abc::vmem_stack_state();
					for (int j = 0; j < 3; j++) {
						st[j].c.reset();
					}
					s.close();
					s.open();
					for (int j = 0; j < 3; j++) {
						rebind(j);
						compare(*st[j].c, st[j].m, "stack after reopening");
					}
				}
				break;
		}
		CHECK(o.c->size() == o.m.size(), "stack%d: size() is %zu, expected %zu", w, o.c->size(), o.m.size());
		CHECK(o.c->empty() == o.m.empty(), "stack%d: empty() is wrong with %zu items", w, o.m.size());
	}
	for (int j = 0; j < 3; j++) {
		compare(*st[j].c, st[j].m, "stack");
	}
	temp.reset();
	audit(false);
	if ((maxpages > 1 && popped > 0) || temps > 0) {
		src.nontrivial();
	}
	for (int j = 0; j < 3; j++) {
		st[j].c.reset();
	}
}

// ---------------------------------------------------------------- C04

static std::size_t count_mappings(const std::string& path, std::uint64_t* bytes) {
	std::ifstream f("/proc/self/maps");
	std::string line;
	std::size_t n = 0;
	*bytes = 0;
	while (std::getline(f, line)) {
		if (line.size() > path.size() && line.compare(line.size() - path.size(), path.size(), path) == 0) {
			n++;
			unsigned long long a = 0, b = 0;
			sscanf(line.c_str(), "%llx-%llx", &a, &b);
			*bytes += b - a;
		}
	}
	return n;
}
static std::size_t count_fds(const std::string& path) {
	std::size_t n = 0;
	DIR* d = opendir("/proc/self/fd");
	while (struct dirent* e = readdir(d)) {
		char buf[4096];
		ssize_t l = readlinkat(dirfd(d), e->d_name, buf, sizeof buf);
		if (l > 0 && std::string(buf, l) == path) {
			n++;
		}
	}
	closedir(d);
	return n;
}

// Content of a page body (after the link fields) as a function of (page, version).
static void fill_page(void* ptr, std::uint64_t pos, std::uint64_t version) {
	std::uint64_t* w = reinterpret_cast<std::uint64_t*>(ptr);
	for (std::size_t i = 3; i < abc::vmem_page_size / 8; i++) {
		w[i] = pbt::mix(pos * 1000003 + version * 512 + i);
	}
}
static void check_page(const void* ptr, std::uint64_t pos, std::uint64_t version, const char* what) {
	const std::uint64_t* w = reinterpret_cast<const std::uint64_t*>(ptr);
	for (std::size_t i = 3; i < abc::vmem_page_size / 8; i++) {
		CHECK(w[i] == pbt::mix(pos * 1000003 + version * 512 + i), "%s: the content of page 0x%llx at byte %zu has changed", what, (unsigned long long)pos, i * 8);
	}
}

template <std::size_t N, typename Log>
static void page_case(Src& src) {
	using Pool = abc::vmem_pool<N, Log>;
	using Page = abc::vmem_page<Pool, Log>;
	using Linked = abc::vmem_linked<Pool, Log>;
	using Ptr = abc::vmem_ptr<std::uint64_t, Pool, Log>;
	std::string dir = pbt::case_dir(src);
	std::string path = dir + "/pool";
	LogHolder<Log> lh;
	Log* log = lh.ptr();
	std::unique_ptr<Pool> pool(new Pool(path.c_str(), log));
	src.note(fmt("pool of %zu mapped pages", N));
	std::uint64_t hole = gen_hole(src);
	if (hole != 0) {
		pool.reset();
		hole = make_hole(path, hole);
		pool.reset(new Pool(path.c_str(), log));
		src.note(fmt("the pool file has a hole of 0x%llx pages", (unsigned long long)hole));
		src.label("beyond 32 bits");
	}

	std::map<std::uint64_t, std::uint64_t> version;			// every allocated page -> content version
	std::vector<std::uint64_t> loose;						// allocated pages outside of linked structures
	std::vector<std::uint64_t> lk[2];						// pages in linked structures
	abc::vmem_linked_state lst[2];
	struct Held {
		Page page;
		std::uint64_t pos;
		void* ptr;
		unsigned locks;
	};
	std::vector<Held> held;
	std::uint64_t vers = 0;
	bool exhausted = false;
	std::size_t reuses = 0, evict = 0, frees = 0;
	std::uint64_t start_version = 0;
	{
		Page p(pool.get(), abc::vmem_page_pos_start, log);
		CHECK(p.ptr() != nullptr, "the start page cannot be locked");
		CHECK(p.pos() == abc::vmem_page_pos_start, "the start page has position 0x%llx", (unsigned long long)p.pos());
		fill_page(p.ptr(), 1, 0);
	}

	auto distinct_held = [&]() {
		std::set<std::uint64_t> s;
		for (auto& h : held) {
			s.insert(h.pos);
		}
		return s.size();
	};
	auto file_pages = [&]() {
		struct stat st;
		CHECK(stat(path.c_str(), &st) == 0, "the pool file is gone");
		CHECK(st.st_size % abc::vmem_page_size == 0, "the size of the pool file is %llu, which is not a whole number of pages", (unsigned long long)st.st_size);
		return (std::uint64_t)st.st_size / abc::vmem_page_size;
	};
	auto adopt = [&](std::uint64_t pos, std::uint64_t pages_before, std::uint64_t free_before, std::size_t room, bool held_start) {
		CHECK(pos != abc::vmem_page_pos_nil && pos > abc::vmem_page_pos_start, "a new page has position 0x%llx", (unsigned long long)pos);
		CHECK(version.count(pos) == 0, "a new page has position 0x%llx, which is in use", (unsigned long long)pos);
		std::uint64_t pages = file_pages();
		CHECK(pos < pages, "a new page has position 0x%llx, but the pool file has %llu pages", (unsigned long long)pos, (unsigned long long)pages);
		if (free_before > 0 && room >= 4 && !exhausted) {
			CHECK(pages == pages_before, "the pool file grew although %llu pages were free", (unsigned long long)free_before);
			reuses++;
		}
		version[pos] = ++vers;
	};
	auto free_count = [&]() {
		return file_pages() - 2 - hole - version.size();
	};
	auto verify_one = [&](std::uint64_t pos, std::uint64_t ver, const char* what) {
		Page p(pool.get(), pos, log);
		if (distinct_held() >= N) {
			bool is_held = false;
			for (auto& h : held) {
				is_held = is_held || h.pos == pos;
			}
			CHECK((p.ptr() != nullptr) == is_held, "%zu pages are locked in a pool of %zu, and locking page 0x%llx %s", distinct_held(), N, (unsigned long long)pos, is_held ? "again failed" : "succeeded");
		}
		else {
			CHECK(p.ptr() != nullptr, "page 0x%llx cannot be locked although only %zu of %zu pages are locked", (unsigned long long)pos, distinct_held(), N);
		}
		if (p.ptr() != nullptr) {
			check_page(p.ptr(), pos, ver, what);
			if (distinct_held() < N - 1) {
				// A pointer to an item on a page.
				unsigned w = 3 + (ver * 7 + pos) % 509;
				Ptr q(pool.get(), pos, (abc::vmem_item_pos_t)(w * 8), log);
				CHECK(q.operator->() != nullptr, "a pointer to page 0x%llx is null", (unsigned long long)pos);
				CHECK(*q == pbt::mix(pos * 1000003 + ver * 512 + w), "a pointer to byte 0x%x of page 0x%llx does not give what is there", w * 8, (unsigned long long)pos);
				CHECK(q.page_pos() == pos && q.byte_pos() == w * 8, "a pointer reports a wrong position");
			}
		}
	};
	auto verify_bound = [&]() {
		std::uint64_t bytes;
		count_mappings(path, &bytes);
		CHECK(bytes <= N * abc::vmem_page_size, "%llu bytes of the pool file are mapped, the limit is %zu pages", (unsigned long long)bytes, N);
		CHECK(count_fds(path) == 1, "the pool file is open %zu times", count_fds(path));
	};
	auto verify_held = [&]() {
		for (auto& h : held) {
			CHECK(h.page.pos() == h.pos, "a page handle changed its position");
			CHECK(h.page.ptr() == h.ptr, "the address of a locked page 0x%llx changed", (unsigned long long)h.pos);
			check_page(h.ptr, h.pos, version.count(h.pos) ? version[h.pos] : start_version, "a locked page");
		}
	};
	auto linked_check = [&](int w) {
		if (distinct_held() + 3 > N) return;
		Linked l(&lst[w], pool.get(), log);
		CHECK(l.empty() == lk[w].empty(), "linked%d: empty() is wrong with %zu pages", w, lk[w].size());
		std::size_t k = 0;
		for (auto it = l.begin(); it != l.end(); ++it, ++k) {
			CHECK(k < lk[w].size(), "linked%d: forward iteration gives more than %zu pages", w, lk[w].size());
			CHECK(*it == lk[w][k], "linked%d: forward iteration gives page 0x%llx at %zu, expected 0x%llx", w, (unsigned long long)*it, k, (unsigned long long)lk[w][k]);
		}
		CHECK(k == lk[w].size(), "linked%d: forward iteration ends after %zu of %zu pages", w, k, lk[w].size());
		for (auto it = l.rend(); it != l.rbegin(); it--) {
			CHECK(k > 0, "linked%d: backward iteration gives more than %zu pages", w, lk[w].size());
			k--;
			CHECK(*it == lk[w][k], "linked%d: backward iteration gives page 0x%llx at %zu, expected 0x%llx", w, (unsigned long long)*it, k, (unsigned long long)lk[w][k]);
		}
		CHECK(k == 0, "linked%d: backward iteration leaves out %zu pages", w, k);
		if (!lk[w].empty()) {
			CHECK(l.front() == lk[w].front() && l.back() == lk[w].back(), "linked%d: front() or back() is wrong", w);
		}
	};
	auto audit = [&]() {
		RawPool raw(path, hole);
		Ownership own(raw);
		own.add(loose, "the caller");
		for (int w = 0; w < 2; w++) {
			auto pages = raw.chain(lst[w], fmt("linked%d", w).c_str());
			CHECK(pages == lk[w], "linked%d: the chain on disk differs", w);
			own.add(pages, fmt("linked%d", w));
		}
		if (!exhausted) {
			own.complete();
		}
		for (auto& v : version) {
			check_page(raw.data(v.first), v.first, v.second, "the pool file");
		}
		check_page(raw.data(1), 1, start_version, "the pool file");
	};

	std::size_t ops = 1 + src.draw(src.thorough ? 160 : 80);
	for (std::size_t i = 0; i < ops; i++) {
		unsigned k = src.draw(23);
		std::size_t room = N - distinct_held();
		switch (k) {
			case 0: case 1: case 2: {
				std::size_t cnt = 1 + src.draw(6);
				src.note(fmt("allocate %zu pages", cnt));
				for (std::size_t j = 0; j < cnt && version.size() < 200; j++) {
					std::uint64_t before = file_pages(), fr = free_count();
					Page p(pool.get(), log);
					if (p.ptr() == nullptr) {
						CHECK(room < 4, "a page cannot be allocated although %zu of %zu mapped pages are available", room, N);
						exhausted = true;
						continue;
					}
					adopt(p.pos(), before, fr, room, false);
					fill_page(p.ptr(), p.pos(), version[p.pos()]);
					loose.push_back(p.pos());
				}
				break;
			}
			case 22: {
				// The pool can't grow: only free pages can be had.
				std::size_t cnt = 1 + src.draw(8);
				src.note(fmt("allocate %zu pages on a full disk", cnt));
				std::uint64_t before = file_pages();
				{
					vp_pool_path() = path;
					FullDisk full(src);
					for (std::size_t j = 0; j < cnt && version.size() < 200; j++) {
						std::uint64_t fr = free_count();
						Page p(pool.get(), log);
						if (p.ptr() == nullptr) {
							CHECK(room < 4 || fr == 0 || exhausted, "a page cannot be allocated although %llu pages are free and %zu of %zu mapped pages are available", (unsigned long long)fr, room, N);
							CHECK(p.pos() == abc::vmem_page_pos_nil || room < 4 || exhausted, "a page that couldn't be allocated has a position");
							exhausted = exhausted || room < 4;
							src.label("full disk");
							continue;
						}
						adopt(p.pos(), before, fr, room, false);
						fill_page(p.ptr(), p.pos(), version[p.pos()]);
						loose.push_back(p.pos());
					}
				}
				CHECK(file_pages() == before, "the pool file has %llu pages after allocations on a full disk, it had %llu", (unsigned long long)file_pages(), (unsigned long long)before);
				break;
			}
			case 3: case 4: case 5: {
				// Free pages.
				std::size_t cnt = 1 + src.draw(5);
				for (std::size_t j = 0; j < cnt && !loose.empty() && room >= 4; j++) {
					std::size_t w = src.draw(loose.size());
					std::uint64_t pos = loose[w];
					bool is_held = false;
					for (auto& h : held) {
						is_held = is_held || h.pos == pos;
					}
					if (is_held) continue;
					src.note(fmt("free page 0x%llx", (unsigned long long)pos));
					Page p(pool.get(), pos, log);
					CHECK(p.ptr() != nullptr, "page 0x%llx cannot be locked", (unsigned long long)pos);
					check_page(p.ptr(), pos, version[pos], "a page about to be freed");
					p.free();
					CHECK(p.ptr() == nullptr, "a freed page still has an address");
					version.erase(pos);
					loose.erase(loose.begin() + w);
					frees++;
				}
				break;
			}
			case 6: case 7: {
				// Lock and hold.
				std::size_t burst = src.draw(4) == 0 ? src.draw(N + 1) : 1;
				std::size_t keep = src.draw(3) == 0 ? 0 : 4;
				for (std::size_t bi = 0; bi < burst; bi++) {
				if (version.empty()) break;
				room = N - distinct_held();
				auto it = version.lower_bound(src.draw(version.rbegin()->first + 1));
				std::uint64_t pos = it->first;
				bool is_held = false;
				for (auto& h : held) {
					is_held = is_held || h.pos == pos;
				}
				if (!is_held && room <= keep) break;
				Page p(pool.get(), pos, log);
				CHECK(p.ptr() != nullptr, "page 0x%llx cannot be locked although only %zu of %zu pages are locked", (unsigned long long)pos, distinct_held(), N);
				check_page(p.ptr(), pos, version[pos], "a page being locked");
				src.note(fmt("hold page 0x%llx", (unsigned long long)pos));
				void* ptr = p.ptr();
				switch (src.draw(3)) {
					case 0:
						held.push_back(Held{ std::move(p), pos, ptr, 1 });
						break;
					case 1: {
						Page q(p);
						held.push_back(Held{ q, pos, ptr, 1 });
						break;
					}
					default: {
						Page q(nullptr);
						q = p;
						Page r(nullptr);
						r = std::move(q);
						held.push_back(Held{ std::move(r), pos, ptr, 1 });
						break;
					}
				}
				}
				break;
			}
			case 8: case 9: {
				if (held.empty()) break;
				if (src.draw(4) == 0) {
					src.note("release all held pages");
					held.clear();
					break;
				}
				std::size_t w = src.draw(held.size());
				src.note(fmt("release page 0x%llx", (unsigned long long)held[w].pos));
				if (src.chance(1, 2)) {
					std::swap(held[w], held.back());
					held.pop_back();
				}
				else {
					held.erase(held.begin() + w);
				}
				break;
			}
			case 10: {
				// Write through a held page.
				if (held.empty()) break;
				std::size_t w = src.draw(held.size());
				src.note(fmt("write page 0x%llx through its held address", (unsigned long long)held[w].pos));
				version[held[w].pos] = ++vers;
				fill_page(held[w].ptr, held[w].pos, vers);
				break;
			}
			case 11: case 12: {
				// Touch many pages, so that others get unmapped.
				std::size_t cnt = src.draw(2 * N);
				src.note(fmt("touch %zu pages", cnt));
				for (std::size_t j = 0; j < cnt && !version.empty(); j++) {
					auto it = version.lower_bound(src.draw(version.rbegin()->first + 1));
					std::size_t rep = 1 + src.draw(3);
					for (std::size_t r = 0; r < rep; r++) {
						verify_one(it->first, it->second, "a page");
					}
					evict++;
				}
				break;
			}
			case 13: {
				// Write a page in a short session.
				if (version.empty() || room < 1) break;
				auto it = version.lower_bound(src.draw(version.rbegin()->first + 1));
				src.note(fmt("write page 0x%llx", (unsigned long long)it->first));
				Page p(pool.get(), it->first, log);
				CHECK(p.ptr() != nullptr, "page 0x%llx cannot be locked", (unsigned long long)it->first);
				it->second = ++vers;
				fill_page(p.ptr(), it->first, vers);
				break;
			}
			case 14: case 15: case 16: {
				// Linked pages.
				if (room < 5) break;
				int w = src.draw(2);
				Linked l(&lst[w], pool.get(), log);
				std::size_t n = lk[w].size();
				auto at = [&](std::size_t idx) {
					auto it = l.begin();
					for (std::size_t j = 0; j < idx; j++) {
						++it;
					}
					return it;
				};
				auto body = [&](std::uint64_t pos) {
					// Linking sets the link fields only.
					verify_one(pos, version[pos], "a linked page");
				};
				switch (src.draw(8)) {
					case 0: case 1: case 2: {
						if (loose.empty()) break;
						std::size_t x = src.draw(loose.size());
						std::uint64_t pos = loose[x];
						std::size_t idx = src.draw(n + 1);
						src.note(fmt("linked%d.insert(at %zu, page 0x%llx)", w, idx, (unsigned long long)pos));
						if (idx == n && src.chance(1, 2)) {
							l.push_back(pos);
						}
						else if (idx == 0 && src.chance(1, 2)) {
							l.push_front(pos);
						}
						else {
							auto r = l.insert(at(idx), pos);
							CHECK(*r == pos, "linked%d: insert() returned a wrong position", w);
						}
						lk[w].insert(lk[w].begin() + idx, pos);
						loose.erase(loose.begin() + x);
						body(pos);
						break;
					}
					case 3: case 4: {
						if (n == 0) break;
						std::size_t idx = src.draw(n);
						std::uint64_t pos = lk[w][idx];
						bool is_held = false;
						for (auto& h : held) {
							is_held = is_held || h.pos == pos;
						}
						if (is_held) break;
						src.note(fmt("linked%d.erase(at %zu)", w, idx));
						if (idx == n - 1 && src.chance(1, 2)) {
							l.pop_back();
						}
						else if (idx == 0 && src.chance(1, 2)) {
							l.pop_front();
						}
						else {
							auto r = l.erase(at(idx));
							if (idx == n - 1) {
								CHECK(r == l.end(), "linked%d: erase() of the last page did not return end()", w);
							}
							else {
								CHECK(*r == lk[w][idx + 1], "linked%d: erase() returned a wrong position", w);
							}
						}
						version.erase(pos);
						lk[w].erase(lk[w].begin() + idx);
						frees++;
						break;
					}
					case 5: {
						bool is_held = false;
						for (auto& h : held) {
							for (auto p : lk[w]) {
								is_held = is_held || h.pos == p;
							}
						}
						if (is_held) break;
						src.note(fmt("linked%d.clear()", w));
						l.clear();
						for (auto p : lk[w]) {
							version.erase(p);
							frees++;
						}
						lk[w].clear();
						break;
					}
					case 6: {
						src.note(fmt("linked%d.splice(linked%d)", w, 1 - w));
						Linked o(&lst[1 - w], pool.get(), log);
						if (src.chance(1, 2)) {
							l.splice(o);
						}
						else {
							l.splice(std::move(o));
						}
						lk[w].insert(lk[w].end(), lk[1 - w].begin(), lk[1 - w].end());
						lk[1 - w].clear();
						break;
					}
					default:
						break;
				}
				linked_check(0);
				linked_check(1);
				break;
			}
			case 17:
				verify_bound();
				verify_held();
				break;
			case 18:
				audit();
				break;
			case 20: {
				// The disk is full.
				if (room < 4) break;
				struct rlimit rl, full;
				getrlimit(RLIMIT_FSIZE, &rl);
				full = rl;
				full.rlim_cur = file_pages() * abc::vmem_page_size;
				signal(SIGXFSZ, SIG_IGN);
				setrlimit(RLIMIT_FSIZE, &full);
				std::size_t cnt = 1 + src.draw(4);
				src.note(fmt("allocate %zu pages on a full disk", cnt));
				std::vector<std::uint64_t> got;
				std::uint64_t before = file_pages(), fr = free_count();
				for (std::size_t j = 0; j < cnt; j++) {
					Page p(pool.get(), log);
					if (p.ptr() != nullptr) {
						got.push_back(p.pos());
						memset(p.ptr(), 0, abc::vmem_page_size);
						fill_page(p.ptr(), p.pos(), vers + 1 + j);
					}
				}
				setrlimit(RLIMIT_FSIZE, &rl);
				CHECK(file_pages() == before, "the pool file grew on a full disk");
				for (std::size_t j = 0; j < got.size(); j++) {
					CHECK(version.count(got[j]) == 0 && got[j] > 1 && got[j] < before, "a page allocated on a full disk has position 0x%llx, which is in use or does not exist", (unsigned long long)got[j]);
					version[got[j]] = ++vers;
					loose.push_back(got[j]);
				}
				if (!exhausted) {
					CHECK(got.size() == std::min<std::uint64_t>(cnt, fr), "%zu pages were allocated on a full disk, %llu of them were free", got.size(), (unsigned long long)fr);
				}
				for (std::size_t j = 0; j < got.size(); j++) {
					Page p(pool.get(), got[j], log);
					fill_page(p.ptr(), got[j], version[got[j]]);
				}
				break;
			}
			case 21: {
				// Mapping fails for a while.
				if (version.empty()) break;
				src.note("lock pages while mmap() fails");
				vp_mmap_fails() = true;
				std::size_t cnt = 1 + src.draw(4);
				for (std::size_t j = 0; j < cnt; j++) {
					auto it = version.lower_bound(src.draw(version.rbegin()->first + 1));
					bool bad = false;
					try {
						Page p(pool.get(), it->first, log);
						if (p.ptr() != nullptr) {
							check_page(p.ptr(), it->first, it->second, "a page locked while mmap() fails");
						}
					}
					catch (...) {
						vp_mmap_fails() = false;
						throw;
					}
				}
				vp_mmap_fails() = false;
				verify_held();
				break;
			}
			case 19: {
				if (src.chance(1, 2)) {
					if (!held.empty()) break;
					// Handles refer to the pool object: move it only when there are none.
					src.note("move the pool");
					std::unique_ptr<Pool> p2(new Pool(std::move(*pool)));
					{
						Page x(pool.get(), log);
						CHECK(x.ptr() == nullptr, "a moved-from pool still allocates pages");
					}
					pool = std::move(p2);
				}
				else {
					src.note("close and reopen the pool");
					held.clear();
					pool.reset();
					std::uint64_t bytes;
					CHECK(count_mappings(path, &bytes) == 0, "%llu bytes of the pool file are still mapped after the pool was destroyed", (unsigned long long)bytes);
					CHECK(count_fds(path) == 0, "the pool file is still open after the pool was destroyed");
					pool.reset(new Pool(path.c_str(), log));
				}
				break;
			}
		}
	}
	verify_held();
	verify_bound();
	held.clear();
	for (auto& v : version) {
		verify_one(v.first, v.second, "a page at the end");
	}
	verify_one(1, start_version, "the start page");
	linked_check(0);
	linked_check(1);
	audit();
	// Everything free can be used again.
	std::uint64_t fr = free_count(), total = file_pages();
	if (!exhausted) {
		for (std::uint64_t j = 0; j < fr; j++) {
			Page p(pool.get(), log);
			CHECK(p.ptr() != nullptr, "a page cannot be allocated");
			CHECK(version.count(p.pos()) == 0, "a new page has position 0x%llx, which is in use", (unsigned long long)p.pos());
			version[p.pos()] = ++vers;
			fill_page(p.ptr(), p.pos(), vers);
		}
		CHECK(file_pages() == total, "the pool file grew from %llu to %llu pages although %llu pages were free", (unsigned long long)total, (unsigned long long)file_pages(), (unsigned long long)fr);
	}
	pool.reset();
	std::uint64_t bytes;
	CHECK(count_mappings(path, &bytes) == 0, "%llu bytes of the pool file are still mapped after the pool was destroyed", (unsigned long long)bytes);
	CHECK(count_fds(path) == 0, "the pool file is still open after the pool was destroyed");
	if (evict > N && frees > 0 && version.size() > N) {
		src.nontrivial();
	}
	src.label(exhausted ? "capacity exhausted" : "capacity not exhausted");
	if (reuses > 0) {
		src.label("freed pages reused");
	}
}

#define CONFIGS(X) \
	X(0, 0, (stack_case<8, QLog, Item<900>>)) \
	X(1, 0, (stack_case<8, QLog, Item<1300>>)) \
	X(2, 1, (stack_case<8, NLog, Item<3000>>)) \
	X(3, 1, (stack_case<8, QLog, Item<8>>)) \
	X(4, 2, (stack_case<16, QLog, Item<200>>)) \
	X(5, 3, (page_case<8, QLog>)) \
	X(6, 3, (page_case<5, NLog>)) \
	X(7, 3, (page_case<6, QLog>)) \
	X(8, 3, (page_case<16, QLog>))
#include "configs.h"

#if PART == 0
static pbt::Reg c03("C03", 80000, 1000000,
	"a case is a random history of pushes, pops, clears and reopenings over three stacks and a temporary one sharing a pool; non-trivial when a stack spanned several pages and had items popped",
	[](Src& src) {
		configs().at(src.draw(5))(src);
	});
static pbt::Reg c04("C04", 60000, 1000000,
	"a case is a random history of page allocations, frees, locks, writes, linkings and reopenings; non-trivial when more pages than can be mapped were in use and revisited, and pages had been freed",
	[](Src& src) {
		configs().at(5 + src.draw(4))(src);
	});
#endif
