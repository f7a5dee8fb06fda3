// C02: vmem_map against std::map.
#include "vm.h"

#pragma pack(push, 1)
struct U32 {
	std::uint32_t v;
	static U32 make(std::uint64_t id) { return U32{ (std::uint32_t)id }; }
	bool intact() const { return true; }
	std::uint64_t ident() const { return v; }
	bool operator <(const U32& o) const { return v < o.v; }
	bool operator <=(const U32& o) const { return v <= o.v; }
	bool operator ==(const U32& o) const { return v == o.v; }
};
#pragma pack(pop)

template <typename S, typename K, typename V>
struct MapMachine {
	using Map = abc::vmem_map<K, V, typename S::Pool, typename S::Log>;
	using KV = abc::vmem_map_value<K, V>;

	Src& src;
	std::string name;
	S& s;
	int slot;
	std::unique_ptr<Map> map;
	std::map<std::uint64_t, std::uint64_t> m;		// key id -> value id
	std::uint64_t* next_id;
	std::uint64_t universe;
	std::size_t limit;
	std::size_t max_levels = 0, max_pages = 0, erased = 0;

	MapMachine(Src& src, const std::string& name, S& s, int slot, std::uint64_t* next_id, std::size_t limit)
		: src(src), name(name), s(s), slot(slot), next_id(next_id), limit(limit) {
		rebind();
		universe = 2 + src.draw(limit * 3);
	}
	void rebind() {
		map.reset(new Map(&s.st()->maps[slot], s.pool.get(), s.log()));
	}
	KV kv(std::uint64_t k, std::uint64_t v) {
		KV r;
		r.key = K::make(k);
		r.value = V::make(v);
		return r;
	}
	void same(const KV& got, std::uint64_t k, std::uint64_t v, const char* what) {
		CHECK(got.key == K::make(k), "%s: %s gives key %llu%s, expected %llu", name.c_str(), what, (unsigned long long)got.key.ident(), got.key.intact() ? "" : " (corrupted)", (unsigned long long)k);
		CHECK(got.value == V::make(v), "%s: %s gives value #%llu%s for key %llu, expected #%llu", name.c_str(), what, (unsigned long long)got.value.ident(), got.value.intact() ? "" : " (corrupted)", (unsigned long long)k, (unsigned long long)v);
	}
	void insert(std::uint64_t k) {
		std::uint64_t v = ++*next_id;
		auto r = map->insert(kv(k, v));
		auto it = m.find(k);
		if (it == m.end()) {
			m[k] = v;
			CHECK(r.second, "%s: insert(%llu) of a new key reported failure", name.c_str(), (unsigned long long)k);
			CHECK(r.first.can_deref(), "%s: insert(%llu) did not return a dereferenceable iterator", name.c_str(), (unsigned long long)k);
			same(*r.first, k, v, "the iterator returned by insert()");
		}
		else {
			CHECK(!r.second, "%s: insert(%llu) of an existing key reported success", name.c_str(), (unsigned long long)k);
			if (r.first.can_deref()) {
				same(*r.first, k, it->second, "the iterator returned by insert() of an existing key");
			}
		}
	}
	void erase(std::uint64_t k) {
		std::size_t e = map->erase(K::make(k));
		std::size_t x = m.erase(k);
		erased += x;
		CHECK(e == x, "%s: erase(%llu) returned %zu, expected %zu", name.c_str(), (unsigned long long)k, e, x);
	}
	void lookup(std::uint64_t k) {
		auto it = m.find(k);
		auto f = map->find(K::make(k));
		const Map& cm = *map;
		CHECK(cm.contains(K::make(k)) == (it != m.end()), "%s: contains(%llu) is wrong", name.c_str(), (unsigned long long)k);
		auto cf = cm.find(K::make(k));
		if (it == m.end()) {
			CHECK(f == map->end(), "%s: find(%llu) of an absent key is not end()", name.c_str(), (unsigned long long)k);
			CHECK(!cf.can_deref(), "%s: find(%llu) const of an absent key is dereferenceable", name.c_str(), (unsigned long long)k);
			auto p = (*map)[K::make(k)];
			CHECK(p.operator->() == nullptr, "%s: operator[](%llu) of an absent key is not null", name.c_str(), (unsigned long long)k);
		}
		else {
			CHECK(f.can_deref(), "%s: find(%llu) does not find an existing key", name.c_str(), (unsigned long long)k);
			same(*f, k, it->second, "find()");
			CHECK(cf.can_deref(), "%s: find(%llu) const does not find an existing key", name.c_str(), (unsigned long long)k);
			auto p = (*map)[K::make(k)];
			CHECK(p.operator->() != nullptr, "%s: operator[](%llu) of an existing key is null", name.c_str(), (unsigned long long)k);
			same(*p, k, it->second, "operator[]");
			// Iteration continues from a found position.
			auto nx = std::next(it);
			f++;
			if (nx == m.end()) {
				CHECK(f == map->end(), "%s: the position after the greatest key %llu is not end()", name.c_str(), (unsigned long long)k);
			}
			else {
				CHECK(f.can_deref(), "%s: iteration stops after key %llu", name.c_str(), (unsigned long long)k);
				same(*f, nx->first, nx->second, "the position after a found one");
			}
		}
	}
	void compare() {
		CHECK(map->size() == m.size(), "%s: size() is %zu, expected %zu", name.c_str(), map->size(), m.size());
		auto it = m.begin();
		for (auto p = map->cbegin(); p != map->cend(); ++p, ++it) {
			CHECK(it != m.end(), "%s: forward iteration gives more than %zu items", name.c_str(), m.size());
			same(*p, it->first, it->second, "forward iteration");
		}
		CHECK(it == m.end(), "%s: forward iteration ends before key %llu", name.c_str(), (unsigned long long)it->first);
		auto rt = m.rbegin();
		for (auto p = map->rend(); p != map->rbegin(); p--, ++rt) {
			CHECK(rt != m.rend(), "%s: backward iteration gives more than %zu items", name.c_str(), m.size());
			same(*p, rt->first, rt->second, "backward iteration");
		}
		CHECK(rt == m.rend(), "%s: backward iteration ends before key %llu", name.c_str(), (unsigned long long)rt->first);
		for (auto& e : m) {
			auto f = map->find(K::make(e.first));
			CHECK(f.can_deref(), "%s: find(%llu) does not find an existing key", name.c_str(), (unsigned long long)e.first);
			same(*f, e.first, e.second, "find()");
		}
	}
	std::uint64_t key() {
		if (!m.empty() && src.chance(1, 3)) {
			// Near an existing key.
			auto it = m.lower_bound(src.draw(universe));
			if (it == m.end()) {
				--it;
			}
			std::int64_t k = (std::int64_t)it->first + src.range(-1, 1);
			return k < 0 ? 0 : (std::uint64_t)k;
		}
		return src.draw(universe);
	}
	void op() {
		unsigned k = src.draw(13);
		switch (k) {
			case 0: case 1: case 2: {
				std::uint64_t x = key();
				src.note(name + fmt(".insert(%llu)", (unsigned long long)x));
				insert(x);
				lookup(x);
				break;
			}
			case 3: case 4: {
				std::uint64_t x = key();
				src.note(name + fmt(".erase(%llu)", (unsigned long long)x));
				erase(x);
				lookup(x);
				break;
			}
			case 5: {
				std::uint64_t x = key();
				src.note(name + fmt(".find(%llu)", (unsigned long long)x));
				lookup(x);
				break;
			}
			case 6: case 7: {
				// A run of inserts: ascending, descending or scattered.
				std::size_t cnt = src.len(limit);
				std::uint64_t x = key();
				unsigned mode = src.draw(4);
				std::uint64_t stride = 1 + src.draw(3);
				src.note(name + fmt(".insert run(mode %u from %llu, %zu keys, stride %llu)", mode, (unsigned long long)x, cnt, (unsigned long long)stride));
				if (mode == 3) {
					std::vector<KV> vs;
					std::set<std::uint64_t> ks;
					for (std::size_t i = 0; i < cnt && m.size() + vs.size() < limit; i++) {
						std::uint64_t y = x + i * stride;
						if (m.count(y) == 0) {
							vs.push_back(kv(y, ++*next_id));
							ks.insert(y);
						}
					}
					map->insert(vs.begin(), vs.end());
					for (auto& v : vs) {
						m[v.key.ident()] = v.value.ident();
					}
					break;
				}
				for (std::size_t i = 0; i < cnt && m.size() < limit; i++) {
					std::uint64_t y = mode == 0 ? x + i * stride : mode == 1 ? (x >= i * stride ? x - i * stride : x + i) : pbt::mix(x + i) % universe;
					insert(y);
				}
				break;
			}
			case 8: case 9: {
				// A run of erasures of existing keys.
				if (m.empty()) break;
				std::size_t cnt = src.len(limit);
				unsigned mode = src.draw(4);
				std::uint64_t x = key();
				src.note(name + fmt(".erase run(mode %u near %llu, %zu keys)", mode, (unsigned long long)x, cnt));
				std::vector<K> ks;
				for (std::size_t i = 0; i < cnt && !m.empty(); i++) {
					auto it = mode == 0 ? m.begin() : mode == 1 ? std::prev(m.end()) : mode == 2 ? m.lower_bound(x) : m.lower_bound(pbt::mix(x + i) % universe);
					if (it == m.end()) {
						it = std::prev(m.end());
					}
					erase(it->first);
				}
				break;
			}
			case 10:
				switch (src.draw(6)) {
					case 5: {
						src.note(name + ": misuse");
						struct Bigger {
							std::uint8_t b[sizeof(V) + 1];
						};
						using P = typename S::Pool;
						using L = typename S::Log;
						using Other = abc::vmem_map<K, Bigger, P, L>;
						using Excess = abc::vmem_map<K, Item<4096>, P, L>;
						using KeyExcess = abc::vmem_map<Item<2100>, V, P, L>;
						abc::vmem_map_state st = s.st()->maps[slot], zero = {};
						must_refuse<std::logic_error>("a map over the state of a map of smaller values", [&] { Other x(&s.st()->maps[slot], s.pool.get(), s.log()); });
						must_refuse<std::logic_error>("a map without a pool", [&] { Map x(&zero, nullptr, s.log()); });
						must_refuse<std::logic_error>("a map of values that are bigger than a page", [&] { Excess x(&zero, s.pool.get(), s.log()); });
						zero = {};
						must_refuse<std::logic_error>("a map of keys that don't fit in a page twice", [&] { KeyExcess x(&zero, s.pool.get(), s.log()); });
						CHECK(std::memcmp(&st, &s.st()->maps[slot], sizeof(st)) == 0, "%s: the state of a map has changed when opening it with another value size", name.c_str());
						must_refuse<std::runtime_error>("*" + name + ".end()", [&] { *map->end(); });
						compare();
						break;
					}
					case 0:
						src.note(name + ".clear()");
						map->clear();
						m.clear();
						break;
					case 1: {
						std::vector<K> ks;
						std::size_t cnt = src.len(20);
						for (std::size_t i = 0; i < cnt; i++) {
							std::uint64_t y = key();
							ks.push_back(K::make(y));
							erased += m.erase(y);
						}
						src.note(name + fmt(".erase(range of %zu keys)", cnt));
						map->erase(ks.begin(), ks.end());
						break;
					}
					case 2: {
						// Change a value in place.
						if (m.empty()) break;
						auto it = m.lower_bound(src.draw(universe));
						if (it == m.end()) it = m.begin();
						std::uint64_t v = ++*next_id;
						src.note(name + fmt("[%llu] = #%llu in place", (unsigned long long)it->first, (unsigned long long)v));
						{
							auto p = (*map)[K::make(it->first)];
							CHECK(p.operator->() != nullptr, "%s: operator[](%llu) of an existing key is null", name.c_str(), (unsigned long long)it->first);
							p->value = V::make(v);
						}
						it->second = v;
						break;
					}
					default:
						src.note(name + ": another object over the same state");
						rebind();
				}
				break;
			case 11:
				compare();
				break;
			case 12: {
				// What can't be stored changes nothing.
				std::size_t cnt = 1 + src.len(60);
				std::uint64_t x = key();
				unsigned mode = src.draw(4);
				src.note(name + fmt(": %zu changes on a full disk (mode %u from %llu)", cnt, mode, (unsigned long long)x));
				{
					FullDisk full(src);
					for (std::size_t i = 0; i < cnt; i++) {
						std::uint64_t y = mode == 0 ? x + i : mode == 1 ? (x >= i ? x - i : x + i) : pbt::mix(x + i) % universe;
						std::size_t n = map->size();
						if (mode == 3 && i % 3 == 2 && !m.empty()) {
							auto it = m.lower_bound(y);
							if (it == m.end()) {
								it = m.begin();
							}
							std::size_t e = map->erase(K::make(it->first));
							CHECK(e <= 1 && map->size() == n - e, "%s: erase(%llu) on a full disk returned %zu, and size() went from %zu to %zu", name.c_str(), (unsigned long long)it->first, e, n, map->size());
							if (e == 1) {
								m.erase(it);
								erased++;
							}
							else {
								src.label("full disk: erase refused");
							}
							continue;
						}
						if (m.count(y) != 0) {
							continue;
						}
						std::uint64_t v = ++*next_id;
						auto r = map->insert(kv(y, v));
						if (r.second) {
							m[y] = v;
							CHECK(r.first.can_deref(), "%s: insert(%llu) on a full disk did not return a dereferenceable iterator", name.c_str(), (unsigned long long)y);
							same(*r.first, y, v, "the iterator returned by insert() on a full disk");
						}
						else {
							src.label("full disk: insert refused");
						}
						CHECK(map->size() == n + r.second, "%s: insert(%llu) on a full disk returned %d, and size() went from %zu to %zu", name.c_str(), (unsigned long long)y, (int)r.second, n, map->size());
					}
				}
				compare();
				break;
			}
		}
		CHECK(map->size() == m.size(), "%s: size() is %zu, expected %zu", name.c_str(), map->size(), m.size());
		CHECK(map->empty() == m.empty(), "%s: empty() is wrong with %zu items", name.c_str(), m.size());
	}
	// All pages of this map; also key levels are consistent with the values.
	void audit(RawPool& raw, Ownership& own) {
		abc::vmem_map_state st = s.st()->maps[slot];
		auto values = raw.chain(st.values, (name + " values").c_str());
		own.add(values, name + " values");
		max_pages = std::max(max_pages, values.size());
		auto ks = raw.chain(st.keys, (name + " key level stack").c_str());
		own.add(ks, name + " key level stack");
		abc::vmem_stack<abc::vmem_container_state, typename S::Pool, typename S::Log> stack(&s.st()->maps[slot].keys, s.pool.get(), s.log());
		max_levels = std::max(max_levels, (std::size_t)stack.size());
		int lev = 0;
		for (auto it = stack.begin(); it != stack.end(); it++, lev++) {
			abc::vmem_container_state cs = *it;
			auto pages = raw.chain(cs, fmt("%s key level %d", name.c_str(), lev).c_str());
			own.add(pages, fmt("%s key level %d", name.c_str(), lev));
		}
	}
};

template <std::size_t N, typename Log, typename K, typename V>
static void map_case(Src& src) {
	using S = Session<N, Log>;
	using M = MapMachine<S, K, V>;
	std::string dir = pbt::case_dir(src);
	S s(dir + "/pool", gen_hole(src));
	if (s.hole != 0) {
		src.note(fmt("the pool file has a hole of 0x%llx pages", (unsigned long long)s.hole));
		src.label("beyond 32 bits");
	}
	std::uint64_t id = 0;
	std::size_t kc = M::Map::key_page_capacity(), vc = M::Map::value_page_capacity();
	std::size_t limit = kc * vc * 2;
	limit = limit < 60 ? 60 : limit > 900 ? 900 : limit;
	static const unsigned divs[] = { 8, 8, 8, 8, 4, 4, 2, 1 };
	limit = std::max<std::size_t>(limit / divs[src.draw(8)], 24);
	src.note(fmt("pool of %zu mapped pages, key size %zu (%zu per page), item size %zu (%zu per page)", N, sizeof(K), kc, sizeof(abc::vmem_map_value<K, V>), vc));
	M a(src, "map0", s, 0, &id, limit);
	M b(src, "map1", s, 1, &id, limit / 2);
	auto audit = [&]() {
		RawPool raw(s.path, s.hole);
		Ownership own(raw);
		a.audit(raw, own);
		b.audit(raw, own);
		own.complete();
	};
	std::size_t ops = 1 + src.draw(src.thorough ? 80 : 40);
	for (std::size_t i = 0; i < ops; i++) {
		std::uint64_t w = src.draw(10);
		if (w < 6) {
			a.op();
		}
		else if (w < 8) {
			b.op();
		}
		else if (w == 8) {
			audit();
		}
		else {
			src.note("close and reopen the pool");
			a.map.reset();
			b.map.reset();
			s.close();
			s.open();
			a.rebind();
			b.rebind();
			a.compare();
			b.compare();
		}
	}
	a.compare();
	b.compare();
	audit();
	if (a.max_levels >= 1 && a.erased > 0) {
		src.nontrivial();
	}
	src.label(a.max_levels == 0 ? "no key level" : a.max_levels == 1 ? "1 key level" : a.max_levels == 2 ? "2 key levels" : "3+ key levels");
	a.map.reset();
	b.map.reset();
}

#define CONFIGS(X) \
	X(0, 0, (map_case<8, QLog, Item<900>, Item<8>>)) \
	X(1, 0, (map_case<8, QLog, Item<500>, Item<500>>)) \
	X(2, 1, (map_case<8, QLog, Item<8>, Item<1500>>)) \
	X(3, 1, (map_case<8, QLog, Item<1300>, Item<1500>>)) \
	X(4, 2, (map_case<8, NLog, Item<900>, Item<60>>)) \
	X(5, 2, (map_case<8, QLog, U32, Item<3000>>)) \
	X(6, 3, (map_case<16, QLog, Item<200>, Item<300>>)) \
	X(7, 3, (map_case<8, QLog, U32, U32>)) \
	X(8, 3, (map_case<64, QLog, Item<900>, Item<900>>))
#include "configs.h"

#if PART == 0
static pbt::Reg c02("C02", 30000, 600000,
	"a case is a random history of inserts, erasures, lookups, iterations, clears and pool reopenings over two maps sharing a pool; non-trivial when the first map grew at least one key level and had keys erased",
	[](Src& src) {
		run_config(src, 9);
	});
#endif
