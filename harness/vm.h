// Shared pieces of the vmem harnesses: item types with self-describing content, a pool "world" with start-page
// states, and an audit of page ownership read straight from the pool file.
#pragma once

#include <algorithm>
#include <array>
#include <deque>
#include <memory>
#include <set>
#include <type_traits>
#include <iostream>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <signal.h>

// Mapping a page can be made to fail.
inline bool& vp_mmap_fails() {
	static bool f = false;
	return f;
}
inline void* vp_mmap(void* addr, std::size_t len, int prot, int flags, int fd, off_t off) {
	if (vp_mmap_fails()) {
		errno = ENOMEM;
		return MAP_FAILED;
	}
	return ::mmap(addr, len, prot, flags, fd, off);
}

#include "log.h"
#include "pbt.h"
#define mmap vp_mmap
#include "vmem.h"
#undef mmap

using pbt::Src;
using pbt::fmt;

using QLog = abc::log_ostream<abc::debug_line_ostream<>, abc::log_filter>;
using NLog = abc::null_log;

template <typename Log>
struct LogHolder;

template <>
struct LogHolder<QLog> {
	abc::log_filter filter{ abc::severity::off };
	QLog log{ std::cout.rdbuf(), &filter };
	QLog* ptr() { return &log; }
};
template <>
struct LogHolder<NLog> {
	NLog* ptr() { return nullptr; }
};

#pragma pack(push, 1)
// An item whose every byte depends on its id, so that torn, shifted or stale bytes are seen.
template <std::size_t N>
struct Item {
	static_assert(N >= 8, "");
	std::uint64_t id;
	std::array<std::uint8_t, N - 8> fill;

	static Item make(std::uint64_t id) {
		Item r;
		r.id = id;
		for (std::size_t i = 0; i < r.fill.size(); i++) {
			r.fill[i] = (std::uint8_t)(pbt::mix(id) >> (8 * (i & 7))) ^ (std::uint8_t)(i >> 3);
		}
		return r;
	}
	bool intact() const {
		Item r = make(id);
		return memcmp(&r, this, sizeof r) == 0;
	}
	std::uint64_t ident() const { return id; }
	bool operator <(const Item& o) const { return id < o.id; }
	bool operator <=(const Item& o) const { return id <= o.id; }
	bool operator ==(const Item& o) const { return memcmp(this, &o, sizeof *this) == 0; }
	bool operator !=(const Item& o) const { return !(*this == o); }
};
template <>
struct Item<8> {
	std::uint64_t id;
	static Item make(std::uint64_t id) { return Item{ id }; }
	bool intact() const { return true; }
	std::uint64_t ident() const { return id; }
	bool operator <(const Item& o) const { return id < o.id; }
	bool operator <=(const Item& o) const { return id <= o.id; }
	bool operator ==(const Item& o) const { return id == o.id; }
	bool operator !=(const Item& o) const { return id != o.id; }
};
struct Byte {
	std::uint8_t b;
	static Byte make(std::uint64_t id) { return Byte{ (std::uint8_t)(pbt::mix(id) >> 3) }; }
	bool intact() const { return true; }
	std::uint64_t ident() const { return b; }
	bool operator ==(const Byte& o) const { return b == o.b; }
	bool operator !=(const Byte& o) const { return b != o.b; }
};
#pragma pack(pop)

// ---------------------------------------------------------------- reading the pool file

// A pool file may be made to have so many pages without content after its first two that positions and offsets
// don't fit 32 bits.
inline std::uint64_t gen_hole(Src& src) {
	if (src.draw(8) != 7) {
		return 0;
	}
	static const unsigned bits[] = { 19, 20, 20, 28, 31 };		// 2 GB, 4 GB, 4 GB, 1 TB, 8 TB
	return (1ull << bits[src.draw(5)]) - 2 - src.draw(12);
}
inline std::uint64_t make_hole(const std::string& path, std::uint64_t hole) {
	if (hole != 0 && ::truncate(path.c_str(), (off_t)((2 + hole) * abc::vmem_page_size)) != 0) {
		hole = 0;
	}
	return hole;
}

struct RawPool {
	std::string bytes;
	std::uint64_t pages = 0;
	std::uint64_t hole = 0;

	explicit RawPool(const std::string& path, std::uint64_t hole = 0) : hole(hole) {
		std::ifstream f(path, std::ios::binary);
		std::stringstream ss;
		if (hole == 0) {
			ss << f.rdbuf();
			bytes = ss.str();
		}
		else {
			bytes.resize(2 * abc::vmem_page_size);
			f.read(&bytes[0], bytes.size());
			f.seekg((std::streamoff)((2 + hole) * abc::vmem_page_size));
			ss << f.rdbuf();
			bytes += ss.str();
		}
		pages = hole + bytes.size() / abc::vmem_page_size;
	}
	const char* data(std::uint64_t page) const {
		CHECK(page < pages && (page < 2 || page >= 2 + hole), "page 0x%llx is referenced but the pool file has only %llu pages%s", (unsigned long long)page, (unsigned long long)pages, hole != 0 ? ", and a hole" : "");
		return bytes.data() + (page < 2 ? page : page - hole) * abc::vmem_page_size;
	}
	template <typename S>
	S at(std::uint64_t page, std::size_t off = 0) const {
		S s;
		CHECK(off + sizeof(S) <= abc::vmem_page_size, "internal: offset %zu", off);
		memcpy((void*)&s, data(page) + off, sizeof(S));
		return s;
	}
	std::uint64_t nlinked() const { return pages; }

	// The chain of pages of a linked structure; verifies both link directions.
	std::vector<std::uint64_t> chain(const abc::vmem_linked_state& st, const char* what) const {
		std::vector<std::uint64_t> r;
		bool nil = st.front_page_pos == abc::vmem_page_pos_nil && st.back_page_pos == abc::vmem_page_pos_nil;
		bool zero = st.front_page_pos == 0 && st.back_page_pos == 0;
		if (nil || zero) {
			return r;
		}
		std::uint64_t prev = abc::vmem_page_pos_nil;
		std::uint64_t pos = st.front_page_pos;
		while (pos != abc::vmem_page_pos_nil) {
			CHECK(r.size() <= pages, "%s: the page links form a cycle", what);
			CHECK(pos < pages && pos >= 2, "%s: the chain refers to page 0x%llx of %llu", what, (unsigned long long)pos, (unsigned long long)pages);
			auto lp = at<abc::vmem_linked_page>(pos);
			CHECK(lp.prev_page_pos == prev, "%s: page 0x%llx has a wrong back link", what, (unsigned long long)pos);
			r.push_back(pos);
			prev = pos;
			pos = lp.next_page_pos;
		}
		CHECK(r.empty() || r.back() == st.back_page_pos, "%s: the last page of the chain is not the recorded back page", what);
		return r;
	}
	std::vector<std::uint64_t> free_pages() const {
		auto root = at<std::array<std::uint8_t, sizeof(abc::vmem_root_page)>>(0);
		abc::vmem_linked_state st;
		memcpy(&st, root.data() + offsetof(abc::vmem_root_page, free_pages), sizeof st);
		return chain(st, "the free page list");
	}
};

// Every page belongs to exactly one owner or is free.
struct Ownership {
	const RawPool& raw;
	std::map<std::uint64_t, std::string> owner;

	explicit Ownership(const RawPool& raw) : raw(raw) {
		owner[0] = "root page";
		owner[1] = "start page";
		add(raw.free_pages(), "the free page list");
	}
	void add(const std::vector<std::uint64_t>& pages, const std::string& who) {
		for (auto p : pages) {
			auto it = owner.find(p);
			CHECK(it == owner.end(), "page 0x%llx belongs both to %s and to %s", (unsigned long long)p, it->second.c_str(), who.c_str());
			owner[p] = who;
		}
	}
	// item counts per page of a container
	template <typename PageT>
	std::vector<std::size_t> counts(const std::vector<std::uint64_t>& pages) {
		std::vector<std::size_t> r;
		for (auto p : pages) {
			auto head = raw.at<std::array<std::uint8_t, offsetof(PageT, items)>>(p);
			abc::vmem_item_pos_t c;
			memcpy(&c, head.data() + offsetof(PageT, item_count), sizeof c);
			r.push_back(c);
		}
		return r;
	}
	void complete() {
		for (std::uint64_t p = 0; p < raw.pages; p++) {
			if (p == 2) {
				p += raw.hole;
				if (p >= raw.pages) {
					break;
				}
			}
			CHECK(owner.count(p) != 0, "page 0x%llx of %llu is lost: no structure owns it and it is not free", (unsigned long long)p, (unsigned long long)raw.pages);
		}
	}
};

// ---------------------------------------------------------------- a pool session

// The pool in use.  While there is a FullDisk, it can't grow.
inline std::string& vp_pool_path() {
	static std::string p;
	return p;
}
struct FullDisk {
	struct rlimit rl;
	// What is left may be a part of a page.
	explicit FullDisk(Src& src) {
		std::size_t left = src.chance(1, 2) ? 0 : src.draw(abc::vmem_page_size);
		struct stat st;
		CHECK(::stat(vp_pool_path().c_str(), &st) == 0, "internal: the pool file");
		signal(SIGXFSZ, SIG_IGN);
		getrlimit(RLIMIT_FSIZE, &rl);
		struct rlimit full = rl;
		full.rlim_cur = st.st_size + left;
		setrlimit(RLIMIT_FSIZE, &full);
	}
	~FullDisk() {
		setrlimit(RLIMIT_FSIZE, &rl);
	}
	FullDisk(const FullDisk&) = delete;
};

template <typename E, typename F>
void must_refuse(const std::string& what, F f) {
	bool refused = false;
	try {
		f();
	}
	catch (const E&) {
		refused = true;
	}
	CHECK(refused, "%s isn't refused", what.c_str());
}

#pragma pack(push, 1)
struct StartPage {
	abc::vmem_list_state lists[4];
	abc::vmem_map_state maps[3];
	abc::vmem_stack_state stacks[3];
	abc::vmem_linked_state linked[3];
	abc::vmem_string_state strings[2];
};
#pragma pack(pop)

template <std::size_t N, typename LogT>
struct Session {
	using Log = LogT;
	using Pool = abc::vmem_pool<N, Log>;
	using Page = abc::vmem_page<Pool, Log>;

	std::string path;
	LogHolder<Log> lh;
	std::unique_ptr<Pool> pool;
	std::unique_ptr<Page> start;

	std::uint64_t hole = 0;

	explicit Session(const std::string& path, std::uint64_t hole = 0) : path(path) {
		open();
		if (hole != 0) {
			close();
			this->hole = make_hole(path, hole);
			open();
		}
	}
	~Session() {
		close();
	}
	Log* log() { return lh.ptr(); }
	void open() {
		vp_pool_path() = path;
		pool.reset(new Pool(path.c_str(), log()));
		start.reset(new Page(pool.get(), abc::vmem_page_pos_start, log()));
		CHECK(start->ptr() != nullptr, "the start page could not be locked");
	}
	void close() {
		start.reset();
		pool.reset();
	}
	StartPage* st() {
		return reinterpret_cast<StartPage*>(start->ptr());
	}
};

// ---------------------------------------------------------------- sequence containers against std::vector

// Balancing policy given at run time.
template <typename T, typename Header, typename Pool, typename Log>
using Container = abc::vmem_container<T, Header, Pool, Log>;

template <typename S, typename C, typename T, typename Header>
struct SeqMachine {
	using PageT = abc::vmem_container_page<T, Header>;
	using iterator = typename C::iterator;
	using const_iterator = typename C::const_iterator;

	Src& src;
	std::string name;
	std::function<C()> make;
	std::function<void()> misopen;
	std::unique_ptr<C> c;
	abc::vmem_container_state* state = nullptr;
	std::vector<T> m;
	std::uint64_t* next_id;
	std::size_t limit;			// target maximum size
	std::size_t max_pages_seen = 0;
	std::size_t overflows = 0;
	std::size_t erased = 0, failed = 0;
	unsigned kinds = 0;

	SeqMachine(Src& src, const std::string& name, std::function<C()> make, std::uint64_t* next_id, std::size_t limit)
		: src(src), name(name), make(make), next_id(next_id), limit(limit) {
		rebind();
	}
	void rebind() {
		c.reset(new C(make()));
	}
	T fresh() {
		return T::make(++*next_id);
	}
	void same(const T& got, const T& want, const char* what, std::size_t k) {
		CHECK(got == want, "%s: %s at index %zu gives item %llu%s, expected item %llu", name.c_str(), what, k, (unsigned long long)got.ident(), got.intact() ? "" : " (corrupted)", (unsigned long long)want.ident());
	}
	// An iterator to index k (k == size gives end()).
	iterator at(std::size_t k) {
		CHECK(k <= m.size(), "internal: index");
		if (k == m.size()) {
			return c->end();
		}
		if (k <= m.size() / 2) {
			iterator it = c->begin();
			for (std::size_t i = 0; i < k; i++) {
				++it;
			}
			return it;
		}
		iterator it = c->rend();
		for (std::size_t i = m.size() - 1; i > k; i--) {
			--it;
		}
		return it;
	}
	std::size_t index() {
		// Half of the time near the ends or near a page boundary.
		std::size_t n = m.size();
		switch (src.draw(6)) {
			case 0: return 0;
			case 1: return n;
			case 2: return n > 0 ? n - 1 : 0;
			case 3: {
				std::size_t cap = C::page_capacity();
				std::size_t b = src.draw(n / cap + 1) * cap;
				std::int64_t d = (std::int64_t)b + src.range(-1, 1);
				return d < 0 ? 0 : (std::size_t)d > n ? n : (std::size_t)d;
			}
			case 4: {
				std::size_t h = C::page_capacity() - C::page_capacity() / 2;
				std::size_t b = src.draw(n / (h ? h : 1) + 1) * h;
				return b > n ? n : b;
			}
			default: return src.draw(n + 1);
		}
	}
	void check_pos(iterator it, std::size_t k, const char* what) {
		if (k == m.size()) {
			CHECK(it == c->end(), "%s: %s did not return end() although nothing follows (page=0x%llx item=0x%x edge=%u)", name.c_str(), what, (unsigned long long)it.page_pos(), it.item_pos(), it.edge());
			CHECK(!it.can_deref(), "%s: end() is dereferenceable", name.c_str());
		}
		else {
			CHECK(it.can_deref(), "%s: %s returned a position that cannot be dereferenced, expected item %llu", name.c_str(), what, (unsigned long long)m[k].ident());
			same(*it, m[k], what, k);
		}
	}
	void compare(bool forward, bool backward) {
		CHECK(c->size() == m.size(), "%s: size() is %zu, expected %zu", name.c_str(), c->size(), m.size());
		CHECK(c->empty() == m.empty(), "%s: empty() is %d with %zu items", name.c_str(), (int)c->empty(), m.size());
		if (forward) {
			std::size_t k = 0;
			for (auto it = c->cbegin(); it != c->cend(); ++it, ++k) {
				CHECK(k < m.size(), "%s: forward iteration gives more than %zu items", name.c_str(), m.size());
				same(*it, m[k], "forward iteration", k);
			}
			CHECK(k == m.size(), "%s: forward iteration ends after %zu of %zu items", name.c_str(), k, m.size());
		}
		if (backward) {
			std::size_t k = m.size();
			for (auto it = c->rend(); it != c->rbegin(); it--) {
				CHECK(k > 0, "%s: backward iteration gives more than %zu items", name.c_str(), m.size());
				k--;
				same(*it, m[k], "backward iteration", k);
			}
			CHECK(k == 0, "%s: backward iteration leaves out the first %zu of %zu items", name.c_str(), k, m.size());
		}
	}
	void op() {
		std::size_t n = m.size();
		unsigned k = src.draw(20);
		kinds |= 1u << k;
		switch (k) {
			case 0: {
				T v = fresh();
				src.note(name + fmt(".push_back(#%llu)", (unsigned long long)v.ident()));
				c->push_back(v);
				m.push_back(v);
				break;
			}
			case 1: {
				T v = fresh();
				src.note(name + fmt(".push_front(#%llu)", (unsigned long long)v.ident()));
				c->push_front(v);
				m.insert(m.begin(), v);
				break;
			}
			case 2: case 3: case 4: {
				std::size_t i = index();
				T v = fresh();
				src.note(name + fmt(".insert(at %zu, #%llu)", i, (unsigned long long)v.ident()));
				iterator r = c->insert(at(i), v);
				m.insert(m.begin() + i, v);
				check_pos(r, i, "insert()");
				break;
			}
			case 5: {
				std::size_t i = index();
				std::size_t cnt = src.len(2 * C::page_capacity() + 3 < 300 ? 2 * C::page_capacity() + 3 : 300);
				std::vector<T> vs;
				for (std::size_t j = 0; j < cnt; j++) {
					vs.push_back(fresh());
				}
				src.note(name + fmt(".insert(at %zu, range of %zu)", i, cnt));
				iterator r = c->insert(at(i), vs.begin(), vs.end());
				m.insert(m.begin() + i, vs.begin(), vs.end());
				check_pos(r, i, "insert(range)");
				compare(true, false);
				break;
			}
			case 6: case 7: case 8: {
				if (n == 0) break;
				std::size_t i = index();
				if (i == n) i--;
				src.note(name + fmt(".erase(at %zu)", i));
				iterator r = c->erase(at(i));
				m.erase(m.begin() + i);
				erased++;
				check_pos(r, i, "erase()");
				break;
			}
			case 9: {
				std::size_t a = index(), b = index();
				if (a > b) std::swap(a, b);
				src.note(name + fmt(".erase(range %zu..%zu)", a, b));
				iterator r = c->erase(at(a), at(b));
				m.erase(m.begin() + a, m.begin() + b);
				erased += b - a;
				check_pos(r, a, "erase(range)");
				break;
			}
			case 10:
				if (n == 0) break;
				src.note(name + ".pop_back()");
				c->pop_back();
				m.pop_back();
				erased++;
				break;
			case 11:
				if (n == 0) break;
				src.note(name + ".pop_front()");
				c->pop_front();
				m.erase(m.begin());
				erased++;
				break;
			case 12:
				if (!src.chance(1, 4)) break;
				src.note(name + ".clear()");
				c->clear();
				m.clear();
				compare(true, true);
				break;
			case 13: {
				if (n == 0) break;
				std::size_t i = index();
				if (i == n) i--;
				T v = fresh();
				src.note(name + fmt("[%zu] = #%llu through an iterator", i, (unsigned long long)v.ident()));
				iterator it = at(i);
				same(*it, m[i], "a dereferenced iterator", i);
				*it = v;
				m[i] = v;
				auto p = it.operator->();
				CHECK(p != nullptr, "%s: iterator::operator->() is null", name.c_str());
				same(*p, m[i], "a pointer taken from an iterator", i);
				break;
			}
			case 14: {
				// A burst at one place.
				std::size_t i = index();
				std::size_t cnt = src.len(3 * C::page_capacity() + 5 < 400 ? 3 * C::page_capacity() + 5 : 400);
				unsigned mode = src.draw(3);
				src.note(name + fmt(".burst(mode %u at %zu, %zu items)", mode, i, cnt));
				if (mode == 0) {
					for (std::size_t j = 0; j < cnt; j++) {
						T v = fresh();
						c->push_back(v);
						m.push_back(v);
					}
				}
				else {
					iterator it = at(i);
					for (std::size_t j = 0; j < cnt; j++) {
						T v = fresh();
						it = c->insert(it, v);
						m.insert(m.begin() + i, v);
						check_pos(it, i, "insert()");
						if (mode == 2) {
							++it;
							i++;
						}
					}
				}
				break;
			}
			case 15: {
				// Erase a run forwards or backwards.
				if (n == 0) break;
				std::size_t i = index();
				if (i == n) i--;
				std::size_t cnt = src.len(3 * C::page_capacity() + 5 < 400 ? 3 * C::page_capacity() + 5 : 400);
				bool back = src.chance(1, 2);
				src.note(name + fmt(".erase run(%s from %zu, %zu items)", back ? "backwards" : "forwards", i, cnt));
				iterator it = at(i);
				for (std::size_t j = 0; j < cnt && i < m.size(); j++) {
					it = c->erase(it);
					m.erase(m.begin() + i);
					erased++;
					check_pos(it, i, "erase()");
					if (back) {
						if (i == 0) break;
						it--;
						i--;
						check_pos(it, i, "operator--");
					}
				}
				break;
			}
			case 16: {
				if (n == 0) break;
				same(c->front(), m.front(), "front()", 0);
				same(c->back(), m.back(), "back()", n - 1);
				auto fp = c->frontptr();
				auto bp = c->backptr();
				same(*fp, m.front(), "frontptr()", 0);
				same(*bp, m.back(), "backptr()", n - 1);
				break;
			}
			case 17:
				src.note(name + ": another object over the same state");
				rebind();
				break;
			case 18: {
				// What can't be stored changes nothing.
				std::size_t i = index();
				std::size_t cnt = 1 + src.len(2 * C::page_capacity() + 3 < 100 ? 2 * C::page_capacity() + 3 : 100);
				unsigned mode = src.draw(4);
				src.note(name + fmt(": insert %zu items on a full disk (mode %u at %zu)", cnt, mode, i));
				{
					FullDisk full(src);
					if (mode == 3) {
						std::vector<T> vs;
						for (std::size_t j = 0; j < cnt; j++) {
							vs.push_back(fresh());
						}
						c->insert(at(i), vs.begin(), vs.end());
						CHECK(c->size() >= n && c->size() <= n + cnt, "%s: %zu items after an insertion of %zu to %zu", name.c_str(), c->size(), cnt, n);
						failed += c->size() < n + cnt;
						m.insert(m.begin() + i, vs.begin(), vs.begin() + (c->size() - n));
						cnt = 0;
					}
					for (std::size_t j = 0; j < cnt; j++) {
						T v = fresh();
						std::size_t k = mode == 0 ? m.size() : mode == 1 ? 0 : i;
						if (mode == 0) {
							c->push_back(v);
						}
						else if (mode == 1) {
							c->push_front(v);
						}
						else {
							iterator r = c->insert(at(i), v);
							if (c->size() == m.size()) {
								CHECK(r == c->end(), "%s: insert() on a full disk has failed, but hasn't returned end()", name.c_str());
							}
							else {
								CHECK(r.can_deref(), "%s: insert() on a full disk has succeeded, but has returned no position", name.c_str());
								same(*r, v, "insert() on a full disk", k);
							}
						}
						if (c->size() == m.size()) {
							failed++;
							src.label("full disk");
						}
						else {
							m.insert(m.begin() + k, v);
						}
						CHECK(c->size() == m.size(), "%s: size() is %zu, expected %zu", name.c_str(), c->size(), m.size());
					}
				}
				compare(true, true);
				break;
			}
			case 19: {
				src.note(name + ": misuse");
				must_refuse<std::logic_error>(name + ".erase(end())", [&] { c->erase(c->end()); });
				must_refuse<std::runtime_error>("*" + name + ".end()", [&] { *c->end(); });
				if (n == 0) {
					must_refuse<std::logic_error>(name + ".pop_back() when empty", [&] { c->pop_back(); });
					must_refuse<std::logic_error>(name + ".pop_front() when empty", [&] { c->pop_front(); });
				}
				else {
					must_refuse<std::logic_error>(name + ".insert(iterator(nullptr))", [&] { c->insert(iterator(nullptr), fresh()); });
					must_refuse<std::logic_error>(name + ".insert(rbegin())", [&] { c->insert(c->rbegin(), fresh()); });
					must_refuse<std::logic_error>(name + ".erase(rbegin())", [&] { c->erase(c->rbegin()); });
				}
				if (misopen) {
					misopen();
				}
				compare(true, true);
				break;
			}
		}
		CHECK(c->size() == m.size(), "%s: size() is %zu, expected %zu", name.c_str(), c->size(), m.size());
		CHECK(c->empty() == m.empty(), "%s: empty() is %d with %zu items", name.c_str(), (int)c->empty(), m.size());
		while (m.size() > limit) {
			// Keep the case affordable.
			c->pop_back();
			m.pop_back();
			erased++;
		}
	}
};
