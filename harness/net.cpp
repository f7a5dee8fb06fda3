// C22: plain sockets and socket streams.  C23: TLS sockets.
// Everything stays on the loopback interface.  Ports are chosen by the system.
#include <atomic>
#include <thread>
#include <arpa/inet.h>
#include <poll.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include "socket.h"
#include "openssl_socket.h"
#include "streams.h"
#include "ports.h"

#ifndef PART
#define PART 0
#endif

using pbt::Src;

namespace {

	std::size_t open_fds() {
		std::size_t n = 0;
		DIR* d = opendir("/proc/self/fd");
		while (readdir(d) != nullptr) {
			n++;
		}
		closedir(d);
		return n;
	}

	bool has_ipv6() {
		static int r = -1;
		if (r < 0) {
			int fd = ::socket(AF_INET6, SOCK_STREAM, 0);
			sockaddr_in6 a{};
			a.sin6_family = AF_INET6;
			a.sin6_addr = in6addr_loopback;
			r = fd >= 0 && ::bind(fd, (sockaddr*)&a, sizeof a) == 0;
			if (fd >= 0) {
				::close(fd);
			}
		}
		return r == 1;
	}

	std::string port_of(int fd) {
		sockaddr_storage a{};
		socklen_t n = sizeof a;
		CHECK(::getsockname(fd, (sockaddr*)&a, &n) == 0, "getsockname(%d)", fd);
		return std::to_string(ntohs(a.ss_family == AF_INET6 ? ((sockaddr_in6*)&a)->sin6_port : ((sockaddr_in*)&a)->sin_port));
	}

	// One of the addresses of the loopback interface. Ports of connections that are over stay busy for a while, but only at their address.
	std::string& here() {
		static std::string s = "127.0.0.1";
		return s;
	}
	void another_address() {
		static unsigned n = 0;
		std::uint64_t x = pbt::mix((std::uint64_t)getpid() * 1000 + n++ / 100);
		here() = pbt::fmt("127.%u.%u.%u", (unsigned)(x % 250), (unsigned)(x / 250 % 250), (unsigned)(x / 62500 % 250) + 1);
	}

	abc::socket::address loopback(int family, const std::string& port, const std::string& host = here()) {
		abc::socket::address a;
		memset(&a.value, 0, sizeof(sockaddr));
		if (family == AF_INET6) {
			sockaddr_in6 s{};
			s.sin6_family = AF_INET6;
			s.sin6_addr = in6addr_loopback;
			s.sin6_port = htons(atoi(port.c_str()));
			memcpy(&a.value, &s, sizeof s);
			a.size = sizeof s;
		}
		else {
			sockaddr_in s{};
			s.sin_family = AF_INET;
			if (::inet_pton(AF_INET, host.c_str(), &s.sin_addr) != 1) {
				s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
			}
			s.sin_port = htons(atoi(port.c_str()));
			memcpy(&a.value, &s, sizeof s);
			a.size = sizeof s;
		}
		return a;
	}

	template <typename Ex, typename F>
	void must_throw(const char* what, F f) {
		try {
			f();
		}
		catch (const Ex&) {
			return;
		}
		pbt::fail(std::string("no exception from ") + what);
	}

	std::string gen_bytes(Src& src, std::size_t n) {
		std::string s(n, 0);
		std::uint64_t k = src.draw(3);
		std::uint64_t seed = src.draw(1 << 16);
		for (std::size_t i = 0; i < n; i++) {
			std::uint64_t v = pbt::mix(seed * 77777 + i);
			s[i] = k == 0 ? (char)('a' + v % 26) : k == 1 ? (char)v : "\xff\x00\n\r\xfe\x7f\x80z"[v % 8];
		}
		return s;
	}

	// ---------------------------------------------------------------- the two kinds of connections

	template <typename Log>
	struct Plain {
		using Client = abc::tcp_client_socket<Log>;
		using Server = abc::tcp_server_socket<Log>;
		static constexpr bool tls = false;

		static std::unique_ptr<Server> server(int family, Log* log) {
			return std::unique_ptr<Server>(new Server(family, log));
		}
		static std::unique_ptr<Client> client(int family, Log* log) {
			return std::unique_ptr<Client>(new Client(family, log));
		}
	};

	struct Cert {
		std::string cert, pkey, password;
		EVP_PKEY* key = nullptr;

		explicit Cert(const std::string& scratch) {
			std::string dir = scratch + "/vp_pbt_cert";
			mkdir(dir.c_str(), 0700);
			cert = dir + "/cert.pem";
			pkey = dir + "/pkey.pem";
			password = "a password";
			key = EVP_EC_gen("P-256");
			X509* x = X509_new();
			ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
			X509_gmtime_adj(X509_get_notBefore(x), -3600);
			X509_gmtime_adj(X509_get_notAfter(x), 3600 * 24 * 365);
			X509_set_pubkey(x, key);
			X509_NAME* n = X509_get_subject_name(x);
			X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char*)"localhost", -1, -1, 0);
			X509_set_issuer_name(x, n);
			X509_sign(x, key, EVP_sha256());
			FILE* f = fopen(cert.c_str(), "w");
			PEM_write_X509(f, x);
			fclose(f);
			X509_free(x);
			write_key(pkey, password);
		}
		void write_key(const std::string& path, const std::string& pw) const {
			FILE* f = fopen(path.c_str(), "w");
			CHECK(f != nullptr, "fopen");
			CHECK(PEM_write_PKCS8PrivateKey(f, key, EVP_aes_256_cbc(), pw.data(), (int)pw.size(), nullptr, nullptr) == 1, "PEM_write_PKCS8PrivateKey");
			fclose(f);
		}
	};

	std::unique_ptr<Cert>& cert() {
		static std::unique_ptr<Cert> c;
		return c;
	}

	template <typename Log>
	struct Tls {
		using Client = abc::openssl_tcp_client_socket<Log>;
		using Server = abc::openssl_tcp_server_socket<Log>;
		static constexpr bool tls = true;

		static std::unique_ptr<Server> server(int family, Log* log, bool verify = false) {
			return std::unique_ptr<Server>(new Server(cert()->cert.c_str(), cert()->pkey.c_str(), cert()->password.c_str(), verify, family, log));
		}
		static std::unique_ptr<Client> client(int family, Log* log, bool verify = false) {
			return std::unique_ptr<Client>(new Client(verify, family, log));
		}
	};

	struct Where {
		int family;
		std::string host, port;
		std::uint64_t how;
	};

	template <typename Client>
	void connect(Client& c, const Where& w) {
		if (w.how == 0) {
			c.connect(w.host.c_str(), w.port.c_str());
		}
		else {
			c.connect(loopback(w.family, w.port, w.host));
		}
	}

	// ---------------------------------------------------------------- a connection and its model

	// Side 0 connected, side 1 was accepted.
	template <typename Net, typename Log>
	struct Link {
		using Client = typename Net::Client;
		using SB = abc::socket_streambuf<Client, Log>;

		std::unique_ptr<Client> sock[2];
		std::unique_ptr<SB> sb[2];
		bool stream[2] = { false, false };
		std::string put[2];				// what side s has put
		std::size_t sure[2] = { 0, 0 };	// how much of it is sent for sure
		std::size_t taken[2] = { 0, 0 };// how much of what side s has put has the other side taken
		bool closed[2] = { false, false };
		Log* log = nullptr;

		std::size_t avail(int s) const {
			return sure[1 - s] - std::min(sure[1 - s], taken[1 - s]);
		}
	};

	template <typename L>
	void take(L& l, int s, const char* data, std::size_t n) {
		int o = 1 - s;
		CHECK(l.taken[o] + n <= l.put[o].size(), "side %d received %zu bytes after %zu of the %zu bytes that were sent", s, n, l.taken[o], l.put[o].size());
		std::string got(data, n), exp = l.put[o].substr(l.taken[o], n);
		CHECK(got == exp, "side %d received %s instead of %s at %zu", s, pbt::quote(got).c_str(), pbt::quote(exp).c_str(), l.taken[o]);
		l.taken[o] += n;
	}

	template <typename L>
	void do_send(Src& src, L& l, int s) {
		if (l.put[s].size() - std::min(l.put[s].size(), l.taken[s]) > 1500) {
			return;
		}
		if (!l.stream[s]) {
			std::string d = gen_bytes(src, 1 + src.len(600));
			src.note(pbt::fmt("side %d: send %s", s, pbt::quote(d, 60).c_str()));
			std::unique_ptr<char[]> m(new char[d.size()]);
			memcpy(m.get(), d.data(), d.size());
			std::size_t n = l.sock[s]->send(m.get(), d.size());
			CHECK(n == d.size(), "send() of %zu bytes returned %zu", d.size(), n);
			l.put[s] += d;
			l.sure[s] = l.put[s].size();
			return;
		}
		switch (src.draw(4)) {
			case 0: {
				std::string d = gen_bytes(src, 1);
				src.note(pbt::fmt("side %d: sputc %s", s, pbt::quote(d).c_str()));
				int r = l.sb[s]->sputc(d[0]);
				CHECK(r == (unsigned char)d[0], "sputc(%s) returned %d", pbt::quote(d).c_str(), r);
				l.put[s] += d;
				break;
			}
			case 1: {
				std::string d = gen_bytes(src, 1 + src.len(40));
				src.note(pbt::fmt("side %d: sputn %s", s, pbt::quote(d, 60).c_str()));
				std::streamsize r = l.sb[s]->sputn(d.data(), d.size());
				CHECK(r == (std::streamsize)d.size(), "sputn(%zu) returned %ld", d.size(), (long)r);
				l.put[s] += d;
				break;
			}
			case 2: {
				std::ostream out(l.sb[s].get());
				std::string d = gen_bytes(src, 1 + src.len(20));
				src.note(pbt::fmt("side %d: << %s, flush", s, pbt::quote(d, 60).c_str()));
				out << d;
				out.flush();
				CHECK(out.good(), "the output stream isn't good");
				l.put[s] += d;
				l.sure[s] = l.put[s].size();
				break;
			}
			default:
				src.note(pbt::fmt("side %d: pubsync", s));
				CHECK(l.sb[s]->pubsync() == 0, "pubsync() failed");
				l.sure[s] = l.put[s].size();
				break;
		}
	}

	template <typename L>
	void do_receive(Src& src, L& l, int s) {
		std::size_t av = l.avail(s);
		if (av == 0) {
			return;
		}
		if (!l.stream[s]) {
			std::size_t k = 1 + src.len(700);
			std::unique_ptr<char[]> m(new char[k]);
			std::size_t n = l.sock[s]->receive(m.get(), k);
			src.note(pbt::fmt("side %d: receive up to %zu: %zu", s, k, n));
			CHECK(n != 0 && n <= k, "receive(%zu) returned %zu although %zu bytes have been sent", k, n, av);
			take(l, s, m.get(), n);
			return;
		}
		switch (src.draw(5)) {
			case 0: {
				src.note(pbt::fmt("side %d: sgetc", s));
				int c = l.sb[s]->sgetc();
				CHECK(c == (unsigned char)l.put[1 - s][l.taken[1 - s]], "sgetc() returned %d instead of %d", c, (unsigned char)l.put[1 - s][l.taken[1 - s]]);
				break;
			}
			case 1: {
				src.note(pbt::fmt("side %d: sbumpc", s));
				int c = l.sb[s]->sbumpc();
				CHECK(c != EOF, "sbumpc() returned eof although %zu bytes have been sent", av);
				char ch = (char)c;
				take(l, s, &ch, 1);
				if (src.draw(4) == 3) {
					src.note(pbt::fmt("side %d: sungetc", s));
					int u = l.sb[s]->sungetc();
					if (u != EOF) {
						CHECK(u == c, "sungetc() returned %d instead of %d", u, c);
						l.taken[1 - s]--;
					}
				}
				break;
			}
			case 2: {
				if (av < 2) {
					break;
				}
				src.note(pbt::fmt("side %d: snextc", s));
				int c = l.sb[s]->snextc();
				l.taken[1 - s]++;
				CHECK(c == (unsigned char)l.put[1 - s][l.taken[1 - s]], "snextc() returned %d instead of %d", c, (unsigned char)l.put[1 - s][l.taken[1 - s]]);
				break;
			}
			case 3: {
				std::size_t k = 1 + src.draw(av);
				src.note(pbt::fmt("side %d: sgetn %zu", s, k));
				std::unique_ptr<char[]> m(new char[k]);
				std::streamsize n = l.sb[s]->sgetn(m.get(), k);
				CHECK(n == (std::streamsize)k, "sgetn(%zu) returned %ld", k, (long)n);
				take(l, s, m.get(), k);
				break;
			}
			default: {
				std::istream in(l.sb[s].get());
				std::size_t k = 1 + src.draw(av);
				src.note(pbt::fmt("side %d: istream read %zu", s, k));
				std::unique_ptr<char[]> m(new char[k]);
				in.read(m.get(), k);
				CHECK(in.good() && in.gcount() == (std::streamsize)k, "istream.read(%zu): %ld bytes", k, (long)in.gcount());
				take(l, s, m.get(), k);
				break;
			}
		}
	}

	template <typename L>
	void do_move(Src& src, L& l, int s) {
		if (l.stream[s]) {
			src.note(pbt::fmt("side %d: move the streambuf", s));
			std::unique_ptr<typename L::SB> n(new typename L::SB(std::move(*l.sb[s])));
			l.sb[s] = std::move(n);
		}
		else {
			src.note(pbt::fmt("side %d: move the socket", s));
			std::unique_ptr<typename L::Client> n(new typename L::Client(std::move(*l.sock[s])));
			CHECK(n->is_open() && !l.sock[s]->is_open(), "after a move: is_open() %d, moved from %d", n->is_open(), l.sock[s]->is_open());
			must_throw<std::logic_error>("send() of a socket that was moved from", [&] { l.sock[s]->send("x", 1); });
			l.sock[s] = std::move(n);
		}
	}

	template <typename L>
	void do_close(Src& src, L& l, int s) {
		int o = 1 - s;
		if (l.taken[o] < l.put[o].size()) {
			src.label("closed with something unread");
		}
		l.closed[s] = true;
		if (src.draw(2) == 0) {
			src.note(pbt::fmt("side %d: close", s));
			l.sock[s]->close();
			CHECK(!l.sock[s]->is_open(), "open after close()");
			char c = 'x';
			must_throw<std::logic_error>("send() after close()", [&] { l.sock[s]->send(&c, 1); });
			must_throw<std::logic_error>("receive() after close()", [&] { l.sock[s]->receive(&c, 1); });
			if (src.draw(2) == 0) {
				l.sock[s]->close();
			}
		}
		else {
			src.note(pbt::fmt("side %d: destroyed", s));
			l.sb[s].reset();
			l.sock[s].reset();
		}
	}

	// The other side has closed: everything that was sent arrives, and then the end.
	template <typename L>
	void finish(Src& src, L& l, int s) {
		int o = 1 - s;
		src.note(pbt::fmt("side %d: read to the end (%zu of %zu to %zu)", s, l.taken[o], l.sure[o], l.put[o].size()));
		for (;;) {
			char b[64];
			std::size_t n;
			if (l.stream[s]) {
				int c = l.sb[s]->sbumpc();
				n = c != EOF;
				b[0] = (char)c;
			}
			else {
				n = l.sock[s]->receive(b, 1 + src.draw(sizeof b));
			}
			if (n == 0) {
				break;
			}
			take(l, s, b, n);
		}
		CHECK(l.taken[o] >= l.sure[o], "side %d got the end after %zu of the %zu bytes that were sent", s, l.taken[o], l.sure[o]);
		for (int i = 0; i < 2; i++) {
			char b[4];
			if (l.stream[s]) {
				CHECK(l.sb[s]->sgetc() == EOF && l.sb[s]->sbumpc() == EOF && l.sb[s]->sgetn(b, 3) == 0, "a char after the end");
			}
			else {
				CHECK(l.sock[s]->receive(b, 4) == 0, "bytes after the end");
			}
		}
		if (src.draw(3) != 0) {
			forget(l.sock[s]->fd());
			return;
		}
		// Sending to a peer that is gone fails, sooner or later, and is survived.
		src.note(pbt::fmt("side %d: send to the peer that is gone", s));
		src.label("sends to a gone peer");
		bool failed = false;
		for (int i = 0; i < 3000 && !failed; i++) {
			if (l.stream[s]) {
				failed = src.draw(2) == 0 ? l.sb[s]->sputc('z') == EOF : l.sb[s]->sputn("zzz", 3) != 3;
				failed = l.sb[s]->pubsync() != 0 || failed;
			}
			else {
				failed = l.sock[s]->send("zzz", 3) != 3;
			}
			if (i > 20) {
				usleep(1000);
			}
		}
		CHECK(failed, "sending to a peer that is gone never fails");
		CHECK(l.sock[s]->is_open(), "not open before close()");
	}

	template <typename Net, typename Log>
	void make_links(Src& src, std::vector<Link<Net, Log>>& links, typename Net::Server& server, const Where& w0, Log* log) {
		for (auto& l : links) {
			l.log = log;
			l.sock[0] = Net::client(w0.family, log);
		}
		if (Net::tls) {
			for (auto& l : links) {
				Where w = w0;
				w.how = src.draw(2);
				std::string err;
				std::thread t([&] {
					try {
						connect(*l.sock[0], w);
					}
					catch (const std::exception& e) {
						err = e.what();
					}
				});
				try {
					l.sock[1].reset(new typename Net::Client(server.accept()));
				}
				catch (const std::exception& e) {
					t.join();
					pbt::fail(std::string("accept(): ") + e.what());
				}
				t.join();
				CHECK(err.empty(), "connect(): %s", err.c_str());
			}
		}
		else {
			for (auto& l : links) {
				Where w = w0;
				w.how = src.draw(2);
				CHECK(!l.sock[0]->is_open(), "open before connect()");
				connect(*l.sock[0], w);
				CHECK(l.sock[0]->is_open(), "not open after connect()");
				// What is sent before accept() isn't lost.
				if (src.draw(3) == 0) {
					std::string d = gen_bytes(src, 1 + src.len(100));
					src.note(pbt::fmt("sent before accept: %s", pbt::quote(d, 60).c_str()));
					CHECK(l.sock[0]->send(d.data(), d.size()) == d.size(), "send() before accept()");
					l.put[0] += d;
					l.sure[0] = l.put[0].size();
				}
			}
			for (auto& l : links) {
				l.sock[1].reset(new typename Net::Client(server.accept()));
			}
		}
		for (auto& l : links) {
			for (int s = 0; s < 2; s++) {
				CHECK(l.sock[s]->is_open(), "side %d isn't open", s);
				l.stream[s] = src.draw(2) == 1;
				if (l.stream[s]) {
					l.sb[s].reset(new typename Link<Net, Log>::SB(l.sock[s].get(), src.draw(2) == 0 ? log : nullptr));
				}
			}
		}
	}

	template <typename Net>
	std::string listen(Src& src, std::unique_ptr<typename Net::Server>& server, const Where& w) {
		std::uint64_t mv = src.draw(6);
		if (src.draw(2) == 0) {
			server->bind("0");
		}
		else {
			server->bind(w.host.c_str(), "0");
		}
		if (mv == 1) {
			server.reset(new typename Net::Server(std::move(*server)));
		}
		server->listen(8);
		if (mv == 2) {
			server.reset(new typename Net::Server(std::move(*server)));
		}
		return port_of(server->fd());
	}

	template <typename Net, typename Log>
	void history(Src& src, Log* log) {
		Where w;
		w.family = src.draw(3) == 2 && has_ipv6() ? AF_INET6 : AF_INET;
		w.host = w.family == AF_INET6 ? "::1" : src.draw(4) == 3 ? "localhost" : here().c_str();
		auto server = Net::server(w.family, log);
		w.port = listen<Net>(src, server, w);
		src.note(pbt::fmt("%s, %s", Net::tls ? "tls" : "tcp", w.host.c_str()));

		std::vector<Link<Net, Log>> links(1 + src.draw(Net::tls ? 2 : 3));
		make_links<Net, Log>(src, links, *server, w, log);
		std::size_t exchanged = 0;
		std::size_t ops = 1 + src.len(60);
		for (std::size_t i = 0; i < ops; i++) {
			Link<Net, Log>& l = links[src.draw(links.size())];
			int s = (int)src.draw(2);
			if (l.closed[0] || l.closed[1]) {
				continue;
			}
			switch (src.draw(12)) {
				case 0: case 1: case 2: case 3: case 4:
					do_send(src, l, s);
					break;
				case 5: case 6: case 7: case 8: case 9:
					do_receive(src, l, s);
					break;
				case 10:
					do_move(src, l, s);
					src.label("moves");
					break;
				default:
					if (i > 8 && src.draw(3) == 2) {
						do_close(src, l, s);
					}
					break;
			}
			exchanged = std::max(exchanged, l.taken[0] + l.taken[1]);
		}
		for (auto& l : links) {
			if (!l.closed[0] && !l.closed[1]) {
				int s = (int)src.draw(2);
				if (l.stream[s] && src.draw(2) == 0) {
					CHECK(l.sb[s]->pubsync() == 0, "pubsync() failed");
					l.sure[s] = l.put[s].size();
				}
				do_close(src, l, s);
			}
			finish(src, l, l.closed[0] ? 1 : 0);
			exchanged = std::max(exchanged, l.taken[0] + l.taken[1]);
		}
		if (exchanged >= 8) {
			src.nontrivial();
		}
	}

	// ---------------------------------------------------------------- a lot of bytes, both sides at the same time

	inline std::size_t gen_piece(Src& src, std::size_t size) {
		std::size_t most[4] = { size, 500, 30000, size };
		return src.draw(most[src.draw(4)] + 1);
	}

	// A client connects, sends a lot, and leaves right away. Nothing is lost.
	template <typename Net, typename Log>
	void leave(Src& src, Log* log) {
		Where w;
		w.family = AF_INET;
		w.host = here();
		auto server = Net::server(w.family, log);
		w.port = listen<Net>(src, server, w);
		std::size_t size = 1 + src.draw(src.thorough ? 1500000 : 700000);
		std::uint64_t seed = src.draw(1 << 16);
		std::string data(size, 0);
		for (std::size_t i = 0; i < size; i += 8) {
			std::uint64_t x = pbt::mix(seed * 1000003 + i);
			memcpy(&data[i], &x, std::min<std::size_t>(8, size - i));
		}
		std::size_t piece = std::max<std::size_t>(1 + gen_piece(src, size), size / 1000 + 1);
		std::size_t want = std::max<std::size_t>(1 + gen_piece(src, size), size / 1000 + 1);
		std::size_t late = src.draw(4) == 0 ? src.draw(20) : 0;
		bool from_client = src.draw(3) != 0;
		src.note(pbt::fmt("the %s sends %zu in pieces of %zu, and leaves; received by %zu after %zu ms", from_client ? "client" : "server", size, piece, want, late));
		std::string err[2], got;
		auto give = [&](typename Net::Client& c) {
			for (std::size_t p = 0; p < size; p += piece) {
				std::size_t n = std::min(piece, size - p);
				if (c.send(data.data() + p, n) != n) {
					throw std::runtime_error("not everything was sent");
				}
			}
		};
		auto take = [&](typename Net::Client& c) {
			std::this_thread::sleep_for(std::chrono::milliseconds(late));
			std::unique_ptr<char[]> m(new char[want]);
			while (got.size() <= size) {
				std::size_t n = c.receive(m.get(), want);
				if (n == 0) {
					break;
				}
				got.append(m.get(), n);
			}
			forget(c.fd());
		};
		std::thread t([&] {
			try {
				auto c = Net::client(w.family, log);
				connect(*c, w);
				if (from_client) {
					give(*c);
				}
				else {
					take(*c);
				}
			}
			catch (const std::exception& e) {
				err[0] = e.what();
			}
		});
		try {
			typename Net::Client c = server->accept();
			if (from_client) {
				take(c);
			}
			else {
				give(c);
			}
		}
		catch (const std::exception& e) {
			err[1] = e.what();
		}
		t.join();
		CHECK(err[0].empty() && err[1].empty(), "client: %s, server: %s", err[0].c_str(), err[1].c_str());
		CHECK(got.size() == size, "received %zu bytes instead of %zu", got.size(), size);
		CHECK(got == data, "the bytes received aren't the bytes sent");
		src.label("leaves");
		src.nontrivial();
	}

	template <typename Net, typename Log>
	void bulk(Src& src, Log* log) {
		Where w;
		w.family = AF_INET;
		w.host = here();
		auto server = Net::server(w.family, log);
		w.port = listen<Net>(src, server, w);
		std::vector<Link<Net, Log>> links(1);
		make_links<Net, Log>(src, links, *server, w, log);
		Link<Net, Log>& l = links[0];
		int s = (int)src.draw(2);
		// TLS sockets can't be used from two threads at the same time, so the bytes go one way.
		std::string data = gen_bytes(src, 1 + src.draw(l.stream[0] || l.stream[1] ? 20000 : src.thorough ? 3000000 : 400000));
		std::string rest = l.put[0].substr(l.taken[0]);
		std::string expected = (s == 0 ? rest : std::string()) + data;
		std::size_t piece = 1 + gen_piece(src, data.size());
		std::size_t want = 1 + gen_piece(src, data.size());
		if (data.size() / piece > 20000) {
			piece = data.size() / 20000;
		}
		src.note(pbt::fmt("bulk: side %d sends %zu in pieces of %zu, received by %zu", s, data.size(), piece, want));
		bool sent_all = true;
		std::thread t([&] {
			for (std::size_t p = 0; p < data.size(); p += piece) {
				std::size_t n = std::min(piece, data.size() - p);
				if (l.stream[s]) {
					sent_all = l.sb[s]->sputn(data.data() + p, n) == (std::streamsize)n && sent_all;
				}
				else {
					sent_all = l.sock[s]->send(data.data() + p, n) == n && sent_all;
				}
			}
			if (l.stream[s]) {
				sent_all = l.sb[s]->pubsync() == 0 && sent_all;
			}
			l.sb[s].reset();
			l.sock[s].reset();
		});
		std::string got;
		std::unique_ptr<char[]> m(new char[want]);
		int r = 1 - s;
		while (got.size() < expected.size() + 1) {
			std::size_t n;
			if (l.stream[r]) {
				n = (std::size_t)l.sb[r]->sgetn(m.get(), want);
			}
			else {
				n = l.sock[r]->receive(m.get(), want);
			}
			if (n == 0) {
				break;
			}
			got.append(m.get(), n);
		}
		t.join();
		forget(l.sock[r]->fd());
		CHECK(sent_all, "not everything was sent");
		CHECK(got.size() == expected.size(), "received %zu bytes instead of %zu", got.size(), expected.size());
		CHECK(got == expected, "the bytes received aren't the bytes sent");
		src.label("bulk");
		src.nontrivial();
	}

#if PART == 0
	// ---------------------------------------------------------------- datagrams

	template <typename Log>
	void datagrams(Src& src, Log* log) {
		here() = "127.0.0.1";
		using Udp = abc::udp_socket<Log>;
		int family = src.draw(3) == 2 && has_ipv6() ? AF_INET6 : AF_INET;
		std::string host = family == AF_INET6 ? std::string("::1") : here();
		std::size_t n = 2 + src.draw(2);
		struct Gram {
			std::size_t from;
			std::string data;
		};
		std::vector<std::unique_ptr<Udp>> u;
		std::vector<std::string> port;
		std::vector<std::vector<Gram>> queue(n);
		std::vector<std::size_t> peer(n, n);
		std::vector<abc::socket::address> addr(n * n);
		std::vector<bool> known(n * n, false);
		for (std::size_t i = 0; i < n; i++) {
			u.emplace_back(new Udp(family, log));
			if (src.draw(2) == 0) {
				u[i]->bind(host.c_str(), "0");
			}
			else {
				u[i]->bind("0");
			}
			port.push_back(port_of(u[i]->fd()));
		}
		std::size_t got = 0;
		std::size_t ops = 2 + src.len(40);
		for (std::size_t o = 0; o < ops; o++) {
			std::size_t i = src.draw(n);
			std::size_t pending = 0;
			for (auto& q : queue) {
				pending += q.size();
			}
			switch (src.draw(6)) {
				case 0: case 1: {
					std::size_t to = src.draw(n);
					if (queue[to].size() > 6) {
						break;
					}
					std::string d = gen_bytes(src, src.len(1200));
					abc::socket::address a = known[i * n + to] ? addr[i * n + to] : loopback(family, port[to]);
					if (peer[to] != n && peer[to] != i) {
						break;		// the system refuses it, and tells the sender later
					}
					src.note(pbt::fmt("%zu -> %zu: %s%s", i, to, pbt::quote(d, 50).c_str(), known[i * n + to] ? " (reply)" : ""));
					std::size_t r = u[i]->send(d.data(), d.size(), &a);
					CHECK(r == d.size(), "send() of a datagram of %zu bytes returned %zu", d.size(), r);
					queue[to].push_back(Gram{ i, d });
					break;
				}
				case 2: {
					// From here on, send() and receive() are with this peer.
					std::size_t to = src.draw(n);
					if (to == i || !queue[i].empty() || peer[i] != n) {
						break;
					}
					src.note(pbt::fmt("%zu connects to %zu", i, to));
					if (src.draw(2) == 0) {
						u[i]->connect(host.c_str(), port[to].c_str());
					}
					else {
						u[i]->connect(known[i * n + to] ? addr[i * n + to] : loopback(family, port[to]));
					}
					peer[i] = to;
					break;
				}
				case 3: {
					std::size_t to = peer[i];
					if (to == n || queue[to].size() > 6 || (peer[to] != n && peer[to] != i)) {
						break;
					}
					std::string d = gen_bytes(src, src.len(1200));
					src.note(pbt::fmt("%zu -> peer %zu: %s", i, to, pbt::quote(d, 50).c_str()));
					CHECK(u[i]->send(d.data(), d.size()) == d.size(), "send() of a datagram to the peer");
					queue[to].push_back(Gram{ i, d });
					break;
				}
				case 4: {
					src.note(pbt::fmt("%zu is moved", i));
					std::unique_ptr<Udp> m(new Udp(std::move(*u[i])));
					CHECK(m->is_open() && !u[i]->is_open(), "is_open() after a move");
					u[i] = std::move(m);
					break;
				}
				default: {
					if (queue[i].empty()) {
						break;
					}
					Gram g = queue[i].front();
					queue[i].erase(queue[i].begin());
					std::size_t k = src.draw(3) == 0 ? src.draw(g.data.size() + 1) : g.data.size() + src.draw(20);
					std::unique_ptr<char[]> m(new char[k]);
					abc::socket::address a;
					bool with = src.draw(3) != 0;
					std::size_t r = u[i]->receive(m.get(), k, with ? &a : nullptr);
					src.note(pbt::fmt("%zu receives up to %zu: %zu", i, k, r));
					CHECK(r == std::min(k, g.data.size()), "receive(%zu) of a datagram of %zu bytes returned %zu", k, g.data.size(), r);
					CHECK(memcmp(m.get(), g.data.data(), r) == 0, "the datagram received isn't the datagram sent");
					if (with) {
						abc::socket::address e = loopback(family, port[g.from]);
						CHECK(a.size == e.size, "the size of the address of the sender is %u instead of %u", (unsigned)a.size, (unsigned)e.size);
						if (family == AF_INET6) {
							CHECK(((sockaddr_in6*)&a.value)->sin6_port == ((sockaddr_in6*)&e.value)->sin6_port
								&& memcmp(&((sockaddr_in6*)&a.value)->sin6_addr, &((sockaddr_in6*)&e.value)->sin6_addr, 16) == 0, "not the address of the sender");
						}
						else {
							CHECK(((sockaddr_in*)&a.value)->sin_port == ((sockaddr_in*)&e.value)->sin_port
								&& ((sockaddr_in*)&a.value)->sin_addr.s_addr == ((sockaddr_in*)&e.value)->sin_addr.s_addr, "not the address of the sender");
						}
						addr[i * n + g.from] = a;
						known[i * n + g.from] = true;
						src.label("replies possible");
					}
					got++;
					break;
				}
			}
		}
		if (got >= 2) {
			src.nontrivial();
		}
		src.label("datagrams");
	}

	// ---------------------------------------------------------------- misuse and refusals

	template <typename Log>
	void misuse(Src& src, Log* log) {
		using Client = abc::tcp_client_socket<Log>;
		using Server = abc::tcp_server_socket<Log>;
		int family = src.draw(2) == 1 && has_ipv6() ? AF_INET6 : AF_INET;
		std::string host = family == AF_INET6 ? std::string("::1") : here();
		Server server(family, log);
		must_throw<std::runtime_error>("accept() when not open", [&] { server.accept(); });
		must_throw<std::runtime_error>("listen() when not open", [&] { server.listen(3); });
		server.bind(host.c_str(), "0");
		must_throw<std::runtime_error>("bind() when open", [&] { server.bind(host.c_str(), "0"); });
		CHECK(server.is_open(), "not open after the second bind()");
		std::string port = port_of(server.fd());

		Client client(family, log);
		char c = 'x';
		must_throw<std::logic_error>("send() when not open", [&] { client.send(&c, 1); });
		must_throw<std::logic_error>("receive() when not open", [&] { client.receive(&c, 1); });
		if (src.draw(2) == 0) {
			must_throw<std::runtime_error>("connect() to a port that doesn't listen", [&] { client.connect(host.c_str(), port.c_str()); });
		}
		if (src.draw(2) == 0) {
			must_throw<std::runtime_error>("connect(address) to a port that doesn't listen", [&] { client.connect(loopback(family, port)); });
		}
		if (src.draw(2) == 0) {
			must_throw<std::runtime_error>("connect() to no service", [&] { client.connect(host.c_str(), "no-such-service"); });
		}
		server.listen(3);
		{
			Server second(family, log);
			must_throw<std::runtime_error>("bind() to a port in use", [&] { second.bind(host.c_str(), port.c_str()); });
			CHECK(!second.is_open(), "open after bind() has failed");
			second.bind(host.c_str(), "0");
			CHECK(second.is_open() && port_of(second.fd()) != port, "bind() after bind() has failed");
		}
		client.connect(host.c_str(), port.c_str());
		Client peer = server.accept();
		std::string d = gen_bytes(src, 1 + src.len(50));
		abc::socket::address a = loopback(family, port);
		CHECK(client.send(d.data(), d.size()) == d.size(), "send()");
		must_throw<std::logic_error>("send() to an address over a stream", [&] { client.send(&c, 1, &a); });
		must_throw<std::logic_error>("receive() of an address over a stream", [&] { peer.receive(&c, 1, &a); });
		must_throw<std::runtime_error>("connect() when connected", [&] { client.connect(host.c_str(), port.c_str()); });
		client.close();
		std::string got;
		char b[7];
		while (std::size_t n = peer.receive(b, sizeof b)) {
			got.append(b, n);
		}
		CHECK(got == d, "received %s instead of %s", pbt::quote(got).c_str(), pbt::quote(d).c_str());
		// The same object connects again.
		client.connect(loopback(family, port));
		Client peer2 = server.accept();
		CHECK(peer2.send(d.data(), d.size()) == d.size(), "send() on the second connection");
		peer2.close();
		got.clear();
		while (std::size_t n = client.receive(b, sizeof b)) {
			got.append(b, n);
		}
		CHECK(got == d, "second connection: received %s instead of %s", pbt::quote(got).c_str(), pbt::quote(d).c_str());
		must_throw<std::logic_error>("a streambuf without a socket", [&] { abc::socket_streambuf<Client, Log> sb(nullptr, log); });
		src.label("misuse");
		src.nontrivial();
	}

	template <typename Log>
	void plain_case(Src& src) {
		LogBox<Log> box;
		std::uint64_t k = src.draw(12);
		if (k < 6) {
			history<Plain<Log>, Log>(src, box.get());
		}
		else if (k < 8) {
			datagrams<Log>(src, box.get());
		}
		else if (k < 9) {
			misuse<Log>(src, box.get());
		}
		else if (std::is_same<Log, NullLog>::value && k < 11) {
			bulk<Plain<Log>, Log>(src, box.get());
		}
		else if (std::is_same<Log, NullLog>::value) {
			leave<Plain<Log>, Log>(src, box.get());
		}
		else {
			history<Plain<Log>, Log>(src, box.get());
		}
	}

	void sockets(Src& src) {
		pbt::case_wall_limit() = 60;
		another_address();
		calm_ports(100000);
		std::size_t fds = open_fds();
		if (src.draw(10) == 9) {
			plain_case<RealLog>(src);
		}
		else {
			plain_case<NullLog>(src);
		}
		CHECK(open_fds() == fds, "%zu descriptors are open instead of %zu", open_fds(), fds);
	}
	pbt::Reg r22("C22", 0, 0, "at least 8 bytes are exchanged over one connection, or at least 2 datagrams are received", sockets);
	pbt::Racy racy22("C22", 5);
#endif

#if PART == 1
	// ---------------------------------------------------------------- TLS

	// Forwards bytes between a client and a server, and harms one byte on its way.
	struct Relay {
		int lfd = -1;
		std::string port;
		std::string wire[2];			// what has passed: from the client, from the server
		int dir = 0;
		std::size_t at = (std::size_t)-1;
		int what = 0;					// 1 = flip a bit, 2 = cut, 3 = insert a byte, 4 = repeat the byte
		unsigned char mask = 1;
		std::atomic<bool> harmed{ false };
		std::thread t;

		void start(const std::string& to) {
			lfd = ::socket(AF_INET, SOCK_STREAM, 0);
			abc::socket::address a = loopback(AF_INET, "0");
			CHECK(::bind(lfd, &a.value, a.size) == 0 && ::listen(lfd, 1) == 0, "relay");
			port = port_of(lfd);
			t = std::thread([this, to] { run(to); });
		}
		void run(const std::string& to) {
			int fd[2];
			fd[0] = ::accept(lfd, nullptr, nullptr);
			fd[1] = ::socket(AF_INET, SOCK_STREAM, 0);
			abc::socket::address a = loopback(AF_INET, to);
			::connect(fd[1], &a.value, a.size);
			bool eof[2] = { false, false };
			while (!eof[0] || !eof[1]) {
				pollfd p[2] = { { eof[0] ? -1 : fd[0], POLLIN, 0 }, { eof[1] ? -1 : fd[1], POLLIN, 0 } };
				int r = ::poll(p, 2, harmed ? 40 : 10000);
				if (r <= 0) {
					break;
				}
				bool stop = false;
				for (int d = 0; d < 2; d++) {
					if (p[d].revents == 0) {
						continue;
					}
					char b[4096];
					ssize_t n = ::recv(fd[d], b, sizeof b, 0);
					if (n <= 0) {
						eof[d] = true;
						::shutdown(fd[1 - d], SHUT_WR);
						continue;
					}
					std::string s(b, n);
					std::size_t before = wire[d].size();
					wire[d] += s;
					if (d == dir && at >= before && at < wire[d].size()) {
						std::size_t i = at - before;
						harmed = true;
						switch (what) {
							case 1:
								s[i] ^= mask;
								break;
							case 2:
								s.resize(i);
								stop = true;
								break;
							case 3:
								s.insert(i, 1, (char)mask);
								break;
							default:
								s.insert(i, 1, s[i]);
								break;
						}
					}
					::send(fd[1 - d], s.data(), s.size(), MSG_NOSIGNAL);
				}
				if (stop) {
					break;
				}
			}
			::shutdown(fd[0], SHUT_RDWR);
			::shutdown(fd[1], SHUT_RDWR);
			::close(fd[0]);
			::close(fd[1]);
		}
		~Relay() {
			if (t.joinable()) {
				t.join();
			}
			if (lfd >= 0) {
				::close(lfd);
			}
		}
	};

	template <typename Client>
	std::string receive_all(Client& c, std::size_t want) {
		std::string got;
		char b[200];
		while (got.size() < want) {
			std::size_t n = c.receive(b, std::min(sizeof b, want - got.size()));
			if (n == 0) {
				break;
			}
			got.append(b, n);
		}
		return got;
	}

	template <typename Log>
	void harmed(Src& src, Log* log) {
		using Client = typename Tls<Log>::Client;
		auto server = Tls<Log>::server(AF_INET, log);
		server->bind(here().c_str(), "0");
		server->listen(3);
		Relay relay;
		bool harm = src.draw(4) != 0;
		if (harm) {
			relay.dir = (int)src.draw(2);
			relay.what = 1 + (int)src.draw(4);
			relay.mask = (unsigned char)(1 << src.draw(8));
			// The handshake is about 500 bytes from the client and 1200 from the server.
			relay.at = src.draw(src.draw(2) == 0 ? 1500 : 4000);
		}
		std::string a = gen_bytes(src, 16 + src.len(900)), b = gen_bytes(src, 16 + src.len(900));
		src.note(pbt::fmt("relay: %s byte %zu from the %s, %zu bytes and %zu bytes", relay.what == 0 ? "leaves" : relay.what == 1 ? "flips a bit of" : relay.what == 2 ? "cuts at" : relay.what == 3 ? "inserts before" : "repeats", relay.at, relay.dir == 0 ? "client" : "server", a.size(), b.size()));
		relay.start(port_of(server->fd()));
		std::string at_client, at_server;
		std::atomic<int> connected{ 0 };
		std::thread t([&] {
			try {
				auto c = Tls<Log>::client(AF_INET, log);
				c->connect(here().c_str(), relay.port.c_str());
				connected++;
				c->send(a.data(), a.size());
				at_client = receive_all(*c, b.size() + 1);
			}
			catch (const std::exception&) {
			}
		});
		try {
			Client c = server->accept();
			connected++;
			at_server = receive_all(c, a.size());
			c.send(b.data(), b.size());
		}
		catch (const std::exception&) {
		}
		t.join();
		relay.t.join();
		src.note(pbt::fmt("%d connected, client received %zu, server received %zu", (int)connected, at_client.size(), at_server.size()));
		CHECK(at_server == a.substr(0, at_server.size()) && at_server.size() <= a.size(), "the server received what was not sent");
		CHECK(at_client == b.substr(0, at_client.size()) && at_client.size() <= b.size(), "the client received what was not sent");
		if (!relay.harmed) {
			CHECK(connected == 2 && at_server.size() == a.size() && at_client.size() == b.size(), "not everything arrived over a connection that was left alone");
		}
		else {
			src.label(connected == 2 ? "harmed after the handshake" : "harmed in the handshake");
		}
		CHECK(relay.wire[0].find(a.substr(0, 16)) == std::string::npos && relay.wire[1].find(b.substr(0, 16)) == std::string::npos, "what was sent can be read on its way");
		src.nontrivial();
	}

	template <typename Log>
	void refused(Src& src, Log* log) {
		using Client = typename Tls<Log>::Client;
		std::uint64_t k = src.draw(5);
		auto server = Tls<Log>::server(AF_INET, log, k == 1);
		server->bind(here().c_str(), "0");
		server->listen(8);
		std::string port = port_of(server->fd());
		src.note(k == 0 ? "verify_server" : k == 1 ? "verify_client" : "not TLS");
		src.nontrivial();
		std::string d = gen_bytes(src, 1 + src.len(200));
		if (k == 0) {
			bool threw = false;
			std::thread t([&] {
				auto c = Tls<Log>::client(AF_INET, log, true);
				try {
					c->connect(here().c_str(), port.c_str());
				}
				catch (const std::exception&) {
					threw = true;
				}
			});
			try {
				Client c = server->accept();
				char b[8];
				CHECK(c.receive(b, 8) == 0, "bytes from a client that has refused the server");
			}
			catch (const std::exception&) {
			}
			t.join();
			CHECK(threw, "a client that verifies the server has accepted one it doesn't trust");
			src.label("untrusted server refused");
		}
		else if (k == 1) {
			bool received = false;
			std::thread t([&] {
				auto c = Tls<Log>::client(AF_INET, log);
				try {
					c->connect(here().c_str(), port.c_str());
					char b[8];
					received = c->receive(b, 8) != 0;
				}
				catch (const std::exception&) {
				}
			});
			bool threw = false;
			try {
				Client c = server->accept();
				c.send("secret!", 7);
			}
			catch (const std::exception&) {
				threw = true;
			}
			t.join();
			CHECK(threw && !received, "a server that verifies clients has accepted one without a certificate");
			src.label("client without certificate refused");
		}
		else {
			// Clients that don't talk TLS, or leave.
			std::size_t bad = 1 + src.draw(2);
			for (std::size_t i = 0; i < bad; i++) {
				abc::tcp_client_socket<Log> c(AF_INET, log);
				c.connect(here().c_str(), port.c_str());
				std::string g = src.draw(4) == 0 ? std::string() : src.draw(2) == 0 ? "GET / HTTP/1.1\r\n\r\n" : src.draw(2) == 0 ? gen_bytes(src, src.len(300)) : std::string("\x16\x03\x01", 3) + gen_bytes(src, src.len(300));
				src.note("sends " + pbt::quote(g, 80));
				if (!g.empty()) {
					c.send(g.data(), g.size());
				}
				c.close();
				bool threw = false;
				try {
					Client s = server->accept();
				}
				catch (const std::exception&) {
					threw = true;
				}
				CHECK(threw, "accept() has accepted a client that doesn't talk TLS");
			}
			src.label("not TLS");
		}
		// The server goes on.
		if (k != 1) {
			std::string err;
			auto c = Tls<Log>::client(AF_INET, log);
			std::thread t([&] {
				try {
					c->connect(here().c_str(), port.c_str());
					c->send(d.data(), d.size());
				}
				catch (const std::exception& e) {
					err = e.what();
				}
			});
			std::string got;
			try {
				Client s = server->accept();
				got = receive_all(s, d.size());
			}
			catch (const std::exception& e) {
				err = e.what();
			}
			t.join();
			CHECK(err.empty() && got == d, "a good client after a refused one: %s", err.c_str());
		}
	}

	template <typename Log>
	void keys(Src& src, Log* log) {
		using Server = typename Tls<Log>::Server;
		std::string dir = pbt::case_dir(src);
		std::size_t n = src.draw(3) == 0 ? 240 + src.draw(20) : 1 + src.len(200);
		std::string pw(n, 'x');
		std::uint64_t seed = src.draw(1 << 16);
		bool plain = src.draw(2) == 0;
		for (std::size_t i = 0; i < n; i++) {
			pw[i] = (char)(plain ? 33 + pbt::mix(seed * 31 + i) % 94 : 1 + pbt::mix(seed * 31 + i) % 255);
		}
		std::string key = dir + "/k.pem";
		cert()->write_key(key, pw);
		const char* c = cert()->cert.c_str();
		src.note(pbt::fmt("password of %zu chars", n));
		if (n < 256) {
			Server s(c, key.c_str(), pw.c_str(), false, AF_INET, log);
		}
		else {
			must_throw<std::logic_error>("a password that is too long", [&] { Server s(c, key.c_str(), pw.c_str(), false, AF_INET, log); });
		}
		std::string other = pw;
		switch (src.draw(6)) {
			case 0:
				other.pop_back();
				break;
			case 1:
				other += "y \n\t\r"[src.draw(5)];
				break;
			case 2: {
				char& x = other[src.draw(n)];
				x = x == ' ' ? '_' : ' ';
				break;
			}
			case 3:
				other[src.draw(n)] ^= 0x20;
				break;
			case 4:
				other.insert(other.begin(), " \n\t\x01"[src.draw(4)]);
				break;
			default:
				other = pw.substr(0, src.draw(n));
				break;
		}
		must_throw<std::logic_error>("a wrong password", [&] { Server s(c, key.c_str(), other.c_str(), false, AF_INET, log); });
		must_throw<std::logic_error>("no certificate", [&] { Server s((dir + "/none.pem").c_str(), key.c_str(), pw.c_str(), false, AF_INET, log); });
		must_throw<std::logic_error>("no key", [&] { Server s(c, (dir + "/none.pem").c_str(), pw.c_str(), false, AF_INET, log); });
		must_throw<std::logic_error>("not a key", [&] { Server s(c, c, pw.c_str(), false, AF_INET, log); });
		src.label("keys");
		src.nontrivial();
	}

	// Something else has got the descriptor.
	struct Taken {
		int fd;
		int seen;

		explicit Taken(int fd) : fd(fd) {
			int p[2];
			CHECK(::socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "socketpair");
			seen = p[0] == fd ? p[1] : p[0];
			if (p[0] != fd && p[1] != fd) {
				::dup2(p[1], fd);
				::close(p[1]);
			}
		}
		void check() {
			char ch;
			ssize_t n = ::recv(seen, &ch, 1, MSG_DONTWAIT);
			bool still = ::fcntl(fd, F_GETFD) >= 0;
			CHECK(n < 0, "a socket that is closed has %s its former descriptor", n == 0 ? "shut down" : "sent on");
			CHECK(still, "a socket that is closed has closed its former descriptor");
		}
		~Taken() {
			::close(fd);
			::close(seen);
		}
	};

	// An object that is closed doesn't touch its former descriptor, and connects again.
	template <typename Log>
	void reuse(Src& src, Log* log) {
		using Client = typename Tls<Log>::Client;
		auto server = Tls<Log>::server(AF_INET, log);
		server->bind(here().c_str(), "0");
		server->listen(8);
		std::string port = port_of(server->fd());
		std::unique_ptr<Client> c = Tls<Log>::client(AF_INET, log);
		std::size_t rounds = 1 + src.draw(3);
		for (std::size_t r = 0; r < rounds; r++) {
			std::string a = gen_bytes(src, 1 + src.len(100)), b = gen_bytes(src, 1 + src.len(100));
			Where w{ AF_INET, here(), port, src.draw(2) };
			std::string err, at_client, at_server;
			std::thread t([&] {
				try {
					connect(*c, w);
					c->send(a.data(), a.size());
					at_client = receive_all(*c, b.size());
				}
				catch (const std::exception& e) {
					err = e.what();
				}
			});
			std::unique_ptr<Client> s;
			try {
				s.reset(new Client(server->accept()));
				at_server = receive_all(*s, a.size());
				s->send(b.data(), b.size());
			}
			catch (const std::exception& e) {
				err = e.what();
			}
			if (!err.empty()) {
				s.reset();
			}
			t.join();
			CHECK(err.empty() && at_client == b && at_server == a, "connection %zu of the same object: %s, received %zu of %zu and %zu of %zu", r, err.c_str(), at_client.size(), b.size(), at_server.size(), a.size());
			// Which side is closed, and its descriptor taken by something else.
			std::unique_ptr<Client>& x = src.draw(2) == 0 ? c : s;
			bool is_c = &x == &c;
			int fd = x->fd();
			src.note(pbt::fmt("round %zu: the %s is closed", r, is_c ? "client" : "server side"));
			x->close();
			Taken taken(fd);
			std::uint64_t then = src.draw(3);
			if (then == 0) {
				x.reset();
			}
			else if (then == 1) {
				std::unique_ptr<Client> m(new Client(std::move(*x)));
				x = std::move(m);
				x.reset();
			}
			else {
				x->close();
			}
			taken.check();
			if (!c) {
				c = Tls<Log>::client(AF_INET, log);
			}
			c->close();
		}
		src.label("reuse");
		src.nontrivial();
	}

	template <typename Log>
	void tls_case(Src& src) {
		LogBox<Log> box;
		std::uint64_t k = src.draw(16);
		if (k < 7) {
			history<Tls<Log>, Log>(src, box.get());
		}
		else if (k < 10) {
			harmed<Log>(src, box.get());
		}
		else if (k < 12) {
			refused<Log>(src, box.get());
		}
		else if (k < 13) {
			keys<Log>(src, box.get());
		}
		else if (k < 14) {
			reuse<Log>(src, box.get());
		}
		else if (k < 15) {
			leave<Tls<Log>, Log>(src, box.get());
		}
		else {
			bulk<Tls<Log>, Log>(src, box.get());
		}
	}

	void tls(Src& src) {
		pbt::case_wall_limit() = 60;
		another_address();
		calm_ports(100000);
		if (!cert()) {
			cert().reset(new Cert(src.scratch));
		}
		std::size_t fds = open_fds();
		// The log isn't made for several threads.
		tls_case<NullLog>(src);
		CHECK(open_fds() == fds, "%zu descriptors are open instead of %zu", open_fds(), fds);
	}
	pbt::Reg r23("C23", 0, 0, "at least 8 bytes are exchanged over one connection, or a connection is harmed, refused or repeated", tls);
	pbt::Racy racy23("C23", 8);
#endif
}
