// C01: lists and generic containers against std::vector.
#include "vm.h"

#pragma pack(push, 1)
struct Hdr {
	std::uint64_t a = 0x1122334455667788ull;
	std::uint32_t b = 0xcafef00d;
};
#pragma pack(pop)

template <typename S, typename T>
using ListM = SeqMachine<S, abc::vmem_list<T, typename S::Pool, typename S::Log>, T, abc::vmem_noheader>;
template <typename S, typename T, typename H>
using ContM = SeqMachine<S, abc::vmem_container<T, H, typename S::Pool, typename S::Log>, T, H>;

template <typename M, typename PageT>
static void audit(RawPool& raw, Ownership& own, M& m) {
	auto pages = raw.chain(*m.state, m.name.c_str());
	own.add(pages, m.name);
	auto counts = own.template counts<PageT>(pages);
	std::size_t total = 0;
	for (auto c : counts) {
		total += c;
	}
	CHECK(total == m.m.size(), "%s: the pages hold %zu items, expected %zu", m.name.c_str(), total, m.m.size());
	if (pages.size() > m.max_pages_seen) {
		m.max_pages_seen = pages.size();
	}
}

// One case: up to two vmem_lists and one generic container with a random balancing policy, sharing a pool.
template <std::size_t N, typename Log, typename T>
static void list_case(Src& src) {
	using S = Session<N, Log>;
	using List = abc::vmem_list<T, typename S::Pool, Log>;
	using Cont = abc::vmem_container<T, Hdr, typename S::Pool, Log>;
	std::string dir = pbt::case_dir(src);
	S s(dir + "/pool", gen_hole(src));
	if (s.hole != 0) {
		src.note(fmt("the pool file has a hole of 0x%llx pages", (unsigned long long)s.hole));
		src.label("beyond 32 bits");
	}
	std::uint64_t id = 0;
	unsigned bi = src.draw(8), be = src.draw(8);
	std::size_t cap = List::page_capacity();
	std::size_t limit = cap > 1000 ? 3 * cap + 7 : cap * 12 < 60 ? 60 : cap * 12;
	src.note(fmt("pool of %zu mapped pages, item size %zu, page capacity %zu, container balance insert=0x%x erase=0x%x", N, sizeof(T), cap, bi, be));
	auto mk = [&](int i) {
		return [&s, i]() { return List(&s.st()->lists[i], s.pool.get(), s.log()); };
	};
	ListM<S, T> l0(src, "list0", mk(0), &id, limit);
	ListM<S, T> l1(src, "list1", mk(1), &id, limit);
	ContM<S, T, Hdr> l2(src, "container", [&]() { return Cont(&s.st()->lists[2], (abc::vmem_page_balance_t)bi, (abc::vmem_page_balance_t)be, s.pool.get(), s.log()); }, &id, limit);
	l0.misopen = [&]() {
		struct Other {
			std::uint8_t b[sizeof(T) + 1];
		};
		struct Smaller {
			std::uint8_t b[sizeof(T) > 1 ? sizeof(T) - 1 : 2];
		};
		using P = typename S::Pool;
		using Excess = abc::vmem_list<Item<4096>, P, Log>;
		abc::vmem_list_state st = s.st()->lists[0], zero = {};
		must_refuse<std::logic_error>("a list over the state of a list of smaller items", [&] { abc::vmem_list<Other, P, Log> l(&s.st()->lists[0], s.pool.get(), s.log()); });
		must_refuse<std::logic_error>("a list over the state of a list of bigger items", [&] { abc::vmem_list<Smaller, P, Log> l(&s.st()->lists[0], s.pool.get(), s.log()); });
		must_refuse<std::logic_error>("a list without a state", [&] { List l(nullptr, s.pool.get(), s.log()); });
		must_refuse<std::logic_error>("a list without a pool", [&] { List l(&zero, nullptr, s.log()); });
		must_refuse<std::logic_error>("a list of items that are bigger than a page", [&] { Excess l(&zero, s.pool.get(), s.log()); });
		CHECK(std::memcmp(&st, &s.st()->lists[0], sizeof(st)) == 0, "the state of a list has changed when opening it with another item size");
	};
	auto audit_all = [&]() {
		l0.state = &s.st()->lists[0];
		l1.state = &s.st()->lists[1];
		l2.state = &s.st()->lists[2];
		RawPool raw(s.path, s.hole);
		Ownership own(raw);
		audit<decltype(l0), abc::vmem_container_page<T, abc::vmem_noheader>>(raw, own, l0);
		audit<decltype(l1), abc::vmem_container_page<T, abc::vmem_noheader>>(raw, own, l1);
		audit<decltype(l2), abc::vmem_container_page<T, Hdr>>(raw, own, l2);
		own.complete();
	};
	std::size_t ops = 1 + src.draw(src.thorough ? 90 : 45);
	for (std::size_t i = 0; i < ops; i++) {
		std::uint64_t which = src.draw(12);
		if (which == 11) {
			audit_all();
		}
		else if (which == 10) {
			l0.compare(true, true);
			l1.compare(true, true);
			l2.compare(true, true);
		}
		else if (which == 9) {
			src.note("close and reopen the pool");
			l0.c.reset();
			l1.c.reset();
			l2.c.reset();
			s.close();
			s.open();
			l0.rebind();
			l1.rebind();
			l2.rebind();
			l0.compare(true, false);
			l1.compare(true, false);
			l2.compare(true, false);
		}
		else if (which < 4) {
			l0.op();
		}
		else if (which < 6) {
			l1.op();
		}
		else {
			l2.op();
		}
	}
	l0.compare(true, true);
	l1.compare(true, true);
	l2.compare(true, true);
	audit_all();
	if ((l0.max_pages_seen > 1 && l0.erased > 0) || (l2.max_pages_seen > 1 && l2.erased > 0)) {
		src.nontrivial();
	}
	l0.c.reset();
	l1.c.reset();
	l2.c.reset();
}

#define CONFIGS(X) \
	X(0, 0, (list_case<8, QLog, Item<900>>))	/* 4 per page */ \
	X(1, 0, (list_case<8, QLog, Item<1300>>))	/* 3 per page */ \
	X(2, 0, (list_case<8, QLog, Item<1900>>))	/* 2 per page */ \
	X(3, 1, (list_case<8, QLog, Item<3000>>))	/* 1 per page */ \
	X(4, 1, (list_case<8, QLog, Item<500>>))	/* 8 per page */ \
	X(5, 1, (list_case<8, NLog, Item<900>>)) \
	X(6, 2, (list_case<16, QLog, Item<130>>)) \
	X(7, 2, (list_case<64, QLog, Item<900>>)) \
	X(8, 3, (list_case<8, QLog, Item<8>>)) \
	X(9, 3, (list_case<8, QLog, Byte>))
#include "configs.h"

#if PART == 0
static pbt::Reg c01("C01", 6000, 60000,
	"a case is a random history of operations over two lists and one generic container sharing a pool; non-trivial when one of them spanned more than one page and had items erased",
	[](Src& src) {
		std::uint64_t k = src.draw(20);
		configs().at(k < 10 ? k : k % 6)(src);
	});
#endif
