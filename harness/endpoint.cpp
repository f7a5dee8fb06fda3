// C24: what an endpoint answers.  C25: an endpoint under misbehaving clients, and its shutdown.
// Everything is served from a scratch directory, over the loopback interface.
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <future>
#include <mutex>
#include <thread>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include "endpoint.h"
#include "openssl_socket.h"
#include "streams.h"
#include "ports.h"

#ifndef PART
#define PART 0
#endif

using pbt::Src;
using pbt::fmt;
using Log = abc::null_log;

namespace {

	// ---------------------------------------------------------------- sockets that can be counted

	std::atomic<int> live_clients{ 0 }, live_servers{ 0 }, the_port{ 0 }, send_buffer{ 0 }, accept_faults{ 0 };
	std::string the_cert, the_key;
	const char* const the_password = "a password";

	struct CountClient {
		CountClient() {
			live_clients++;
		}
		CountClient(const CountClient&) {
			live_clients++;
		}
		~CountClient() {
			live_clients--;
		}
	};
	struct CountServer {
		CountServer() {
			live_servers++;
		}
		CountServer(const CountServer&) {
			live_servers++;
		}
		~CountServer() {
			live_servers--;
		}
	};

	// The counters are bases, so that they go down after the sockets have been closed.
	template <typename Base>
	struct Counted : CountClient, Base {
		explicit Counted(Base&& b) : Base(std::move(b)) {
			int n = send_buffer;
			if (n != 0) {
				::setsockopt(Base::fd(), SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
			}
		}
		Counted(Counted&& other) noexcept : CountClient(other), Base(std::move(other)) {
		}
	};
	template <typename Base, typename Client>
	struct CountedServer : CountServer, Base {
		template <typename... A>
		explicit CountedServer(A... a) : Base(a...) {
		}
		CountedServer(CountedServer&& other) noexcept : CountServer(other), Base(std::move(other)) {
		}
		void listen(int n) {
			// A queue that overflows makes the system delay connections by seconds.
			Base::listen(std::max(n, 50));
			sockaddr_in a{};
			socklen_t l = sizeof a;
			::getsockname(Base::fd(), (sockaddr*)&a, &l);
			the_port = ntohs(a.sin_port);
		}
		Client accept() const {
			// The system may be out of descriptors for a moment.  The client waits for the next attempt.
			if (accept_faults > 0) {
				accept_faults--;
				throw std::runtime_error("accept");
			}
			return Client(Base::accept());
		}
	};
	using PlainClient = Counted<abc::tcp_client_socket<Log>>;
	using PlainServer = CountedServer<abc::tcp_server_socket<Log>, PlainClient>;
	using TlsClient = Counted<abc::openssl_tcp_client_socket<Log>>;
	using TlsServer = CountedServer<abc::openssl_tcp_server_socket<Log>, TlsClient>;

	void make_cert(const std::string& dir) {
		the_cert = dir + "/cert.pem";
		the_key = dir + "/key.pem";
		EVP_PKEY* key = EVP_EC_gen("P-256");
		X509* x = X509_new();
		ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
		X509_gmtime_adj(X509_get_notBefore(x), -3600);
		X509_gmtime_adj(X509_get_notAfter(x), 3600 * 24 * 365);
		X509_set_pubkey(x, key);
		X509_sign(x, key, EVP_sha256());
		FILE* f = fopen(the_cert.c_str(), "w");
		PEM_write_X509(f, x);
		fclose(f);
		f = fopen(the_key.c_str(), "w");
		PEM_write_PKCS8PrivateKey(f, key, EVP_aes_256_cbc(), the_password, (int)strlen(the_password), nullptr, nullptr);
		fclose(f);
		X509_free(x);
		EVP_PKEY_free(key);
	}

	// ---------------------------------------------------------------- the endpoint under test

	struct Call {
		std::string method, resource, headers, body;
	};
	struct State {
		std::mutex m;
		std::condition_variable cv;
		std::vector<Call> calls;
		std::vector<std::string> entered, released;

		void add(const Call& c) {
			std::lock_guard<std::mutex> l(m);
			calls.push_back(c);
		}
		std::size_t count() {
			std::lock_guard<std::mutex> l(m);
			return calls.size();
		}
		void hold(const std::string& r) {
			std::unique_lock<std::mutex> l(m);
			entered.push_back(r);
			cv.notify_all();
			cv.wait(l, [&] { return std::find(released.begin(), released.end(), r) != released.end(); });
		}
		bool wait_entered(const std::string& r) {
			std::unique_lock<std::mutex> l(m);
			return cv.wait_for(l, std::chrono::seconds(20), [&] { return std::find(entered.begin(), entered.end(), r) != entered.end(); });
		}
		void release(const std::string& r) {
			std::lock_guard<std::mutex> l(m);
			released.push_back(r);
			cv.notify_all();
		}
	};

	struct small_limits {
		static constexpr std::size_t method_size = 12;
		static constexpr std::size_t resource_size = 160;
		static constexpr std::size_t protocol_size = 12;
		static constexpr std::size_t file_chunk_size = 7;
		static constexpr std::size_t fsize_size = 32;
	};

	std::string echo(const Call& c) {
		return "method=" + c.method + " resource=" + c.resource + " headers=" + c.headers + " body=" + c.body + " end";
	}

	template <typename Server, typename Client, typename Limits>
	class Endpoint : public abc::endpoint<Server, Client, Limits, Log> {
		using base = abc::endpoint<Server, Client, Limits, Log>;

	public:
		Endpoint(abc::endpoint_config* config, State* state) : base(config, nullptr), _state(state) {
		}

	protected:
		Server create_server_socket() override {
			return make((Server*)nullptr);
		}
		PlainServer make(PlainServer*) {
			return PlainServer((int)AF_INET, (Log*)nullptr);
		}
		TlsServer make(TlsServer*) {
			return TlsServer(the_cert.c_str(), the_key.c_str(), the_password, false, (int)AF_INET, (Log*)nullptr);
		}
		void process_rest_request(abc::http_server_stream<Log>& http, const char* method, const char* resource) override {
			Call c{ method, resource, "", "" };
			if (c.method == "POST" && c.resource == "/shutdown") {
				base::process_rest_request(http, method, resource);
				_state->add(c);
				return;
			}
			if (c.resource.compare(0, 6, "/throw") == 0) {
				_state->add(c);
				throw std::runtime_error("a request that can't be processed");
			}
			if (c.resource.compare(0, 6, "/hold/") == 0) {
				_state->hold(c.resource);
			}
			std::size_t length = 0;
			for (;;) {
				char name[300], value[600];
				http.get_header_name(name, sizeof name);
				if (http.gcount() == 0) {
					break;
				}
				http.get_header_value(value, sizeof value);
				c.headers += std::string(name) + ":" + value + ";";
				if (strcmp(name, "Content-Length") == 0) {
					length = (std::size_t)atoi(value);
				}
			}
			std::string b(length, 0);
			std::size_t got = 0;
			while (got < length) {
				std::size_t n = std::min<std::size_t>(100, length - got);
				std::unique_ptr<char[]> m(new char[n]);
				http.get_body(m.get(), n);
				std::size_t k = http.gcount();
				if (k == 0) {
					break;
				}
				b.replace(got, k, m.get(), k);
				got += k;
			}
			b.resize(got);
			c.body = b;
			_state->add(c);
			base::send_simple_response(http, abc::status_code::Accepted, abc::reason_phrase::Accepted, abc::content_type::json, echo(c).c_str(), 1);
		}

	private:
		State* _state;
	};

	// ---------------------------------------------------------------- clients

	// The process must not survive a write to a peer that is gone only because the clients of the checks ignore it,
	// so it's ignored in the thread of the clients only, and only there.
	struct NoPipe {
		sigset_t set, old;
		NoPipe() {
			sigemptyset(&set);
			sigaddset(&set, SIGPIPE);
			pthread_sigmask(SIG_BLOCK, &set, &old);
		}
		~NoPipe() {
			timespec t{ 0, 0 };
			while (sigtimedwait(&set, nullptr, &t) == SIGPIPE) {
			}
			pthread_sigmask(SIG_SETMASK, &old, nullptr);
		}
	};

	struct Conn {
		int fd = -1;
		SSL_CTX* ctx = nullptr;
		SSL* ssl = nullptr;
		std::string got;
		bool end = false;
		int error = 0;

		Conn(const Conn&) = delete;
		Conn() = default;

		void dial(bool tls, int rcvbuf = 0) {
			fd = ::socket(AF_INET, SOCK_STREAM, 0);
			if (rcvbuf != 0) {
				::setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
			}
			int one = 1;
			::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
			sockaddr_in s{};
			s.sin_family = AF_INET;
			s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
			s.sin_port = htons((std::uint16_t)(int)the_port);
			CHECK(::connect(fd, (sockaddr*)&s, sizeof s) == 0, "the endpoint doesn't accept connections any more: %s", strerror(errno));
			if (tls) {
				NoPipe guard;
				ctx = SSL_CTX_new(TLS_client_method());
				ssl = SSL_new(ctx);
				SSL_set_fd(ssl, fd);
				CHECK(SSL_connect(ssl) == 1, "the endpoint doesn't accept TLS connections any more");
			}
		}
		void send(const std::string& s) {
			if (s.empty()) {
				return;
			}
			NoPipe guard;
			if (ssl != nullptr) {
				SSL_write(ssl, s.data(), (int)s.size());
				return;
			}
			std::size_t p = 0;
			while (p < s.size()) {
				ssize_t n = ::send(fd, s.data() + p, s.size() - p, MSG_NOSIGNAL);
				if (n <= 0) {
					break;
				}
				p += n;
			}
		}
		// Reads at most n bytes, or until the end.
		void read(std::size_t n) {
			std::size_t want = got.size() + n;
			while (!end && got.size() < want) {
				if (ssl == nullptr || SSL_pending(ssl) == 0) {
					pollfd p{ fd, POLLIN, 0 };
					int r;
					while ((r = ::poll(&p, 1, 30000)) < 0 && errno == EINTR) {
					}
					CHECK(r > 0, "no answer within 30 s; so far: %s", pbt::quote(got).c_str());
				}
				NoPipe guard;
				char b[4096];
				std::size_t k = std::min(sizeof b, want - got.size());
				ssize_t r = ssl != nullptr ? SSL_read(ssl, b, (int)k) : ::recv(fd, b, k, 0);
				if (r <= 0) {
					error = r < 0 ? errno : 0;
					end = true;
				}
				else {
					got.append(b, r);
				}
			}
		}
		void read_all() {
			read((std::size_t)1 << 40);
		}
		void reset() {
			forget(fd);
			close();
		}
		void close() {
			NoPipe guard;
			if (ssl != nullptr) {
				SSL_free(ssl);
				ssl = nullptr;
			}
			if (ctx != nullptr) {
				SSL_CTX_free(ctx);
				ctx = nullptr;
			}
			if (fd >= 0) {
				if (end) {
					forget(fd);
				}
				::close(fd);
				fd = -1;
			}
		}
		~Conn() {
			close();
		}
	};

	// An http response, read by the book.
	struct Response {
		std::string error;
		int status = 0;
		std::string body;
		std::string type;
		bool has_type = false, closes = false;
		long length = -1;

		explicit Response(const std::string& s) {
			std::size_t p = s.find("\r\n\r\n");
			if (p == std::string::npos) {
				error = "no end of the headers";
				return;
			}
			std::string head = s.substr(0, p + 2);
			body = s.substr(p + 4);
			std::size_t e = head.find("\r\n");
			std::string line = head.substr(0, e);
			int used = 0;
			if (sscanf(line.c_str(), "HTTP/1.1 %3d %n", &status, &used) != 1 || used != 13 || line.size() <= 13) {
				error = "the status line";
				return;
			}
			for (e += 2; e < head.size();) {
				std::size_t n = head.find("\r\n", e);
				std::string h = head.substr(e, n - e);
				e = n + 2;
				std::size_t c = h.find(": ");
				if (c == std::string::npos || c == 0) {
					error = "a header";
					return;
				}
				std::string name = h.substr(0, c), value = h.substr(c + 2);
				if (strcasecmp(name.c_str(), "Content-Length") == 0) {
					length = atol(value.c_str());
				}
				else if (strcasecmp(name.c_str(), "Content-Type") == 0) {
					type = value;
					has_type = true;
				}
				else if (strcasecmp(name.c_str(), "Connection") == 0) {
					closes = value == "close";
				}
			}
		}
	};

	Response check_response(const std::string& raw, const std::string& what) {
		Response r(raw);
		CHECK(r.error.empty(), "%s: the response is invalid (%s): %s", what.c_str(), r.error.c_str(), pbt::quote(raw, 300).c_str());
		CHECK(r.length >= 0 && (std::size_t)r.length == r.body.size(), "%s: Content-Length is %ld, but %zu bytes were sent", what.c_str(), r.length, r.body.size());
		CHECK(r.closes, "%s: there is no 'Connection: close', but the connection was closed", what.c_str());
		return r;
	}

	std::size_t open_fds() {
		std::size_t n = 0;
		DIR* d = opendir("/proc/self/fd");
		while (readdir(d) != nullptr) {
			n++;
		}
		closedir(d);
		return n;
	}

	template <typename F>
	bool eventually(F f, int ms = 20000) {
		for (int i = 0; i < ms * 5; i++) {
			if (f()) {
				return true;
			}
			usleep(200);
		}
		return false;
	}

	// Starts an endpoint, and at the end stops it, so that nothing of it is left.
	template <typename Server, typename Client, typename Limits>
	struct Running {
		State state;
		std::string root, prefix;
		std::unique_ptr<abc::endpoint_config> config;
		std::unique_ptr<Endpoint<Server, Client, Limits>> ep;
		std::future<void> done;
		bool tls;

		Running(const std::string& root, const std::string& prefix, bool tls, int queue = 50) : root(root), prefix(prefix), tls(tls) {
			the_port = 0;
			live_clients = 0;
			live_servers = 0;
			config.reset(new abc::endpoint_config("0", queue, this->root.c_str(), this->prefix.c_str()));
			ep.reset(new Endpoint<Server, Client, Limits>(config.get(), &state));
			done = ep->start_async();
			CHECK(eventually([] { return (int)the_port != 0; }), "the endpoint doesn't listen");
		}
		void shutdown(const std::string& what) {
			Conn c;
			c.dial(tls);
			c.send("POST /shutdown HTTP/1.1\r\n\r\n");
			c.read_all();
			Response r = check_response(c.got, what);
			CHECK(r.status == 200, "%s: status %d", what.c_str(), r.status);
		}
		bool ready(int ms) {
			return done.wait_for(std::chrono::milliseconds(ms)) == std::future_status::ready;
		}
		// The thread that accepts leaves after one more connection.
		void join() {
			for (int i = 0; (int)live_servers != 0; i++) {
				CHECK(i < 2000, "the endpoint still accepts after its shutdown");
				int fd = ::socket(AF_INET, SOCK_STREAM, 0);
				sockaddr_in s{};
				s.sin_family = AF_INET;
				s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
				s.sin_port = htons((std::uint16_t)(int)the_port);
				::connect(fd, (sockaddr*)&s, sizeof s);
				::close(fd);
				eventually([] { return (int)live_servers == 0; }, 20);
			}
			CHECK(eventually([] { return (int)live_clients == 0; }), "%d connections haven't been closed by the endpoint", (int)live_clients);
			usleep(200);
		}
	};

	// ---------------------------------------------------------------- requests

	std::string gen_word(Src& src, std::size_t max) {
		static const char abc_[] = "abcdefghijklmnopqrstuvwxyz0123456789_-";
		std::string s;
		std::size_t n = 1 + src.draw(max);
		for (std::size_t i = 0; i < n; i++) {
			s += abc_[src.draw(sizeof abc_ - 1)];
		}
		return s;
	}
	std::string gen_headers(Src& src, std::string& seen) {
		std::string s;
		std::size_t n = src.draw(4);
		for (std::size_t i = 0; i < n; i++) {
			std::string name = "X-" + gen_word(src, 8), value = gen_word(src, 20);
			if (src.draw(3) == 0) {
				value += " " + gen_word(src, 5);
			}
			s += name + ": " + value + "\r\n";
			seen += name + ":" + value + ";";
		}
		return s;
	}
	std::string gen_content(Src& src, std::size_t n) {
		std::string s(n, 0);
		std::uint64_t seed = src.draw(1 << 16);
		bool text = src.draw(2) == 0;
		for (std::size_t i = 0; i < n; i++) {
			std::uint64_t v = pbt::mix(seed * 1237 + i);
			s[i] = text ? (char)(32 + v % 95) : (char)v;
		}
		return s;
	}

	struct File {
		std::string resource;		// with the prefix
		std::string content;
	};
	const char* const extensions[] = { ".html", ".css", ".js", ".txt", ".xml", ".png", ".jpeg", ".jpg", ".gif", ".bmp", ".svg", ".HTML", ".Png", ".bin", "", ".tar.css", ".css.bin", ".", ".htm", ".jsx" };
	// The expected Content-Type, or none.
	const char* type_of(const std::string& name) {
		std::size_t p = name.rfind('.');
		std::string e = p == std::string::npos ? "" : name.substr(p);
		for (auto& c : e) {
			c = (char)tolower(c);
		}
		static const std::map<std::string, const char*> t = {
			{ ".html", "text/html; charset=utf-8" }, { ".css", "text/css; charset=utf-8" }, { ".js", "text/javascript; charset=utf-8" },
			{ ".txt", "text/plain; charset=utf-8" }, { ".xml", "text/xml; charset=utf-8" }, { ".png", "image/png" }, { ".jpeg", "image/jpeg" },
			{ ".jpg", "image/jpeg" }, { ".gif", "image/gif" }, { ".bmp", "image/bmp" }, { ".svg", "image/svg+xml" } };
		auto i = t.find(e);
		return i == t.end() ? nullptr : i->second;
	}
	void write_file(const std::string& path, const std::string& content) {
		FILE* f = fopen(path.c_str(), "w");
		CHECK(f != nullptr && fwrite(content.data(), 1, content.size(), f) == content.size() && fclose(f) == 0, "can't write %s", path.c_str());
	}

	const char* const secret = "!!! this is outside of what is served !!!";

	struct Site {
		std::string dir, root, prefix;
		std::vector<std::string> dirs;
		std::vector<File> files;
		bool favicon = false;

		Site(Src& src, std::size_t max_size) {
			dir = pbt::case_dir(src);
			root = dir + "/root";
			mkdir(root.c_str(), 0755);
			prefix = src.draw(3) == 0 ? "/a/b/" : "/resources/";
			std::string p = root;
			for (std::size_t i = 1; i < prefix.size(); i++) {
				if (prefix[i] == '/') {
					p = root + prefix.substr(0, i);
					mkdir(p.c_str(), 0755);
				}
			}
			dirs.push_back(prefix);
			std::size_t n = src.draw(3);
			for (std::size_t i = 0; i < n; i++) {
				std::string d = dirs[src.draw(dirs.size())] + gen_word(src, 6) + (src.draw(3) == 0 ? ".html" : "");
				if (mkdir((root + d).c_str(), 0755) == 0) {
					dirs.push_back(d + "/");
				}
			}
			n = 1 + src.draw(5);
			for (std::size_t i = 0; i < n; i++) {
				static const std::size_t sizes[] = { 0, 1, 6, 7, 8, 14, 1023, 1024, 1025, 2047, 2048, 2049 };
				std::size_t size = src.draw(2) == 0 ? sizes[src.draw(sizeof sizes / sizeof *sizes)] : src.draw(1 + max_size);
				File f{ dirs[src.draw(dirs.size())] + gen_word(src, 8) + extensions[src.draw(sizeof extensions / sizeof *extensions)], gen_content(src, size) };
				struct stat st;
				if (lstat((root + f.resource).c_str(), &st) == 0) {
					continue;
				}
				write_file(root + f.resource, f.content);
				files.push_back(f);
			}
			if (src.draw(2) == 0) {
				favicon = true;
				files.push_back(File{ "/favicon.ico", gen_content(src, src.draw(300)) });
				write_file(root + "/favicon.ico", files.back().content);
			}
			write_file(dir + "/outside.txt", secret);
			write_file(root + "/inside.txt", secret);
		}
		const File* find(const std::string& resource) const {
			for (auto& f : files) {
				if (f.resource == resource) {
					return &f;
				}
			}
			return nullptr;
		}
	};

	// Sends in pieces.  What comes after an answer makes the system drop the answer, so when the answer needs only the
	// request line, the rest comes together with the end of that line.
	void send_pieces(Src& src, Conn& c, const std::string& s, bool line_only) {
		if (src.draw(2) == 0) {
			c.send(s);
			return;
		}
		std::size_t p = 0;
		std::size_t max = line_only ? s.find("HTTP/") : s.size();
		for (int i = 0; i < 3 && p < max; i++) {
			std::size_t n = 1 + src.draw(max - p);
			c.send(s.substr(p, n));
			p += n;
			if (src.draw(3) == 0) {
				usleep(300);
			}
		}
		c.send(s.substr(p));
	}

	void check_file(const Response& r, const File& f, const std::string& what) {
		CHECK(r.status == 200, "%s: status %d", what.c_str(), r.status);
		CHECK(r.body == f.content, "%s: the body isn't the content of the file (%zu bytes, %zu in the file)", what.c_str(), r.body.size(), f.content.size());
		const char* t = type_of(f.resource);
		if (t != nullptr) {
			CHECK(r.has_type && r.type == t, "%s: Content-Type is '%s' instead of '%s'", what.c_str(), r.type.c_str(), t);
		}
		else {
			CHECK(!r.has_type, "%s: Content-Type is '%s', but the extension is unknown", what.c_str(), r.type.c_str());
		}
	}

#if PART == 0
	template <typename Server, typename Client, typename Limits>
	void answers(Src& src, bool tls) {
		std::size_t fds = open_fds();
		Site site(src, src.draw(3) == 0 ? 20000 : 3000);
		send_buffer = 0;
		{
			Running<Server, Client, Limits> run(site.root, site.prefix, tls);
			src.note(fmt("%s, root of %zu chars, prefix %s, %zu files, limit %zu", tls ? "tls" : "plain", site.root.size(), site.prefix.c_str(), site.files.size(), Limits::resource_size));
			// As long as this, a resource still fits.
			std::size_t fits = Limits::resource_size - site.root.size();
			std::size_t n = 1 + src.draw(7), served = 0;
			for (std::size_t i = 0; i < n; i++) {
				static const char* const methods[] = { "GET", "GET", "GET", "GET", "POST", "PUT", "DELETE", "HEAD" };
				std::string method = methods[src.draw(8)];
				std::string resource;
				std::uint64_t k = src.draw(12);
				if (k < 4 && !site.files.empty()) {
					resource = site.files[src.draw(site.files.size())].resource;
				}
				else if (k < 5) {
					resource = site.dirs[src.draw(site.dirs.size())];
					if (src.draw(2) == 0) {
						resource.pop_back();
						if (resource.size() < site.prefix.size()) {
							resource = site.prefix;
						}
					}
				}
				else if (k < 6) {
					resource = site.dirs[src.draw(site.dirs.size())] + gen_word(src, 5);
					if (src.draw(2) == 0 && !site.files.empty()) {
						resource = site.files[src.draw(site.files.size())].resource + (src.draw(2) == 0 ? "x" : "/");
					}
				}
				else if (k < 8) {
					// Out of the root, or out of the prefix.
					resource = site.dirs[src.draw(site.dirs.size())];
					std::size_t depth = std::count(resource.begin(), resource.end(), '/') - 1;
					static const char* const ups[] = { "../", "..//", "./../", ".././" };
					const char* up = ups[src.draw(4)];
					if (src.draw(3) == 0 && !site.dirs.empty()) {
						resource += "./";
					}
					std::size_t ups_n = src.draw(2) == 0 ? depth + 1 : depth;
					for (std::size_t j = 0; j < ups_n; j++) {
						resource += up;
					}
					resource += ups_n == depth ? "inside.txt" : "outside.txt";
					if (src.draw(6) == 0) {
						resource = site.prefix + "..";
					}
				}
				else if (k < 9) {
					resource = "/favicon.ico";
				}
				else if (k < 11) {
					resource = "/" + gen_word(src, 10) + (src.draw(2) == 0 ? "/" + gen_word(src, 10) : "") + (src.draw(3) == 0 ? "?a=" + gen_word(src, 5) : "");
					if (resource.compare(0, site.prefix.size(), site.prefix) == 0 || resource == "/shutdown" || resource.compare(0, 6, "/throw") == 0 || resource.compare(0, 6, "/hold/") == 0) {
						continue;
					}
				}
				else {
					// About as long as fits.
					std::size_t len = fits - 3 + src.draw(30);
					std::string base = src.draw(2) == 0 ? site.prefix : "/r/";
					if (len < base.size() + 2) {
						continue;
					}
					resource = base + std::string(len - base.size(), 'x');
				}
				std::string seen, body;
				std::string request = method + " " + resource + " HTTP/1.1\r\n" + gen_headers(src, seen);
				if (src.draw(3) == 0) {
					body = gen_content(src, src.len(400));
					body.erase(std::remove(body.begin(), body.end(), '\0'), body.end());
					request += fmt("Content-Length: %zu\r\n", body.size());
					seen += fmt("Content-Length:%zu;", body.size());
				}
				request += "\r\n" + body;
				std::string what = method + " " + (resource.size() > 80 ? resource.substr(0, 80) + fmt("... (%zu)", resource.size()) : resource);
				bool over = resource.size() + 2 > fits;
				bool must_not = resource.size() > fits;
				std::size_t before = run.state.count();
				bool is_file = resource.compare(0, site.prefix.size(), site.prefix) == 0 || (method == "GET" && resource == "/favicon.ico");
				Conn c;
				c.dial(tls);
				send_pieces(src, c, request, is_file || over);
				c.read_all();
				src.note(fmt("%s: %zu bytes of response", what.c_str(), c.got.size()));
				CHECK(c.got.find(secret) == std::string::npos, "%s: the response has a file from outside of what is served", what.c_str());
				if (over) {
					src.label("about as long as fits");
					if (must_not) {
						CHECK(run.state.count() == before, "%s: a resource that doesn't fit was processed", what.c_str());
						if (!c.got.empty()) {
							Response r = check_response(c.got, what);
							CHECK(r.status >= 400, "%s: a resource that doesn't fit got status %d", what.c_str(), r.status);
						}
					}
					continue;
				}
				Response r = check_response(c.got, what);
				served++;
				if (!is_file) {
					CHECK(run.state.count() == before + 1, "%s: processed %zu times", what.c_str(), run.state.count() - before);
					Call x = run.state.calls.back();
					CHECK(x.method == method && x.resource == resource, "%s: processed as %s %s", what.c_str(), x.method.c_str(), x.resource.c_str());
					CHECK(x.headers == seen, "%s: the headers %s were read as %s", what.c_str(), seen.c_str(), x.headers.c_str());
					CHECK(x.body == body, "%s: the body %s was read as %s", what.c_str(), pbt::quote(body, 60).c_str(), pbt::quote(x.body, 60).c_str());
					CHECK(r.status == 202 && r.body == echo(x) && r.has_type && r.type == "application/json", "%s: not the response that was sent", what.c_str());
					src.label("rest");
					continue;
				}
				CHECK(run.state.count() == before, "%s: processed as a REST request", what.c_str());
				const File* f = site.find(resource);
				if (method != "GET") {
					CHECK(r.status == 405, "%s: status %d", what.c_str(), r.status);
					src.label("405");
				}
				else if (f == nullptr) {
					CHECK(r.status == 404, "%s: status %d", what.c_str(), r.status);
					src.label(resource.find("..") != std::string::npos ? "404 parent" : "404");
				}
				else {
					check_file(r, *f, what);
					src.label("200");
					src.nontrivial();
				}
			}
			run.shutdown("POST /shutdown");
			CHECK(run.ready(20000), "the future isn't ready after the shutdown");
			run.join();
		}
		CHECK(open_fds() == fds, "%zu descriptors are open instead of %zu", open_fds(), fds);
	}

	// Things that aren't regular files, and files that change while they are sent.
	void changing(Src& src) {
		std::size_t fds = open_fds();
		Site site(src, 100);
		std::string content = gen_content(src, 60000 + src.draw(20000));
		std::string r1 = site.prefix + "big.bin", path = site.root + r1;
		write_file(path, content);
		std::string fifo = site.prefix + "fifo.txt";
		CHECK(::mkfifo((site.root + fifo).c_str(), 0644) == 0, "mkfifo");
		send_buffer = 2048;
		{
			Running<PlainServer, PlainClient, abc::endpoint_limits> run(site.root, site.prefix, false);
			{
				Conn c;
				c.dial(false);
				c.send("GET " + fifo + " HTTP/1.1\r\n\r\n");
				c.read_all();
				Response r = check_response(c.got, "GET of a pipe");
				CHECK(r.status == 404, "GET of a pipe: status %d", r.status);
			}
			Conn c;
			c.dial(false, 1024);
			c.send("GET " + r1 + " HTTP/1.1\r\n\r\n");
			std::size_t first = 200 + src.draw(3000);
			c.read(first);
			std::uint64_t k = src.draw(3);
			src.note(fmt("%zu bytes, after %zu bytes of the response: %s", content.size(), first, k == 0 ? "it grows" : k == 1 ? "it shrinks" : "it is replaced"));
			if (k == 0) {
				FILE* f = fopen(path.c_str(), "a");
				std::string more(1 + src.draw(5000), '+');
				fwrite(more.data(), 1, more.size(), f);
				fclose(f);
			}
			else if (k == 1) {
				CHECK(::truncate(path.c_str(), src.draw(content.size())) == 0, "truncate");
			}
			else {
				write_file(path + ".new", "replaced");
				::rename((path + ".new").c_str(), path.c_str());
			}
			c.read_all();
			Response r(c.got);
			CHECK(r.error.empty() && r.status == 200 && r.length == (long)content.size(), "GET of a file that changes: %s, status %d, Content-Length %ld", r.error.c_str(), r.status, r.length);
			if (k == 1) {
				CHECK(r.body == content.substr(0, r.body.size()) && r.body.size() <= content.size(), "a file that shrinks: the body isn't from the file");
			}
			else {
				CHECK(r.body.size() == content.size(), "a file that changes: Content-Length is %zu, but %zu bytes were sent", content.size(), r.body.size());
				CHECK(r.body == content, "a file that changes: the body isn't what the file was");
			}
			run.shutdown("POST /shutdown");
			CHECK(run.ready(20000), "the future isn't ready after the shutdown");
			run.join();
		}
		send_buffer = 0;
		src.label("changing");
		src.nontrivial();
		CHECK(open_fds() == fds, "%zu descriptors are open instead of %zu", open_fds(), fds);
	}

	void c24(Src& src) {
		pbt::case_wall_limit() = 90;
		calm_ports();
		if (the_cert.empty()) {
			make_cert(src.scratch);
		}
		switch (src.draw(16)) {
			case 0: case 1: case 2: case 3: case 4: case 5: case 6:
				answers<PlainServer, PlainClient, abc::endpoint_limits>(src, false);
				break;
			case 7: case 8: case 9: case 10: case 11:
				answers<PlainServer, PlainClient, small_limits>(src, false);
				break;
			case 12: case 13: case 14:
				answers<TlsServer, TlsClient, abc::endpoint_limits>(src, true);
				break;
			default:
				changing(src);
				break;
		}
	}
	pbt::Racy racy24("C24", 10);
	pbt::Reg r24("C24", 0, 0, "at least one file is served, or a file changes while it is served", c24);
#endif

#if PART == 1
	// ---------------------------------------------------------------- misbehaving clients, and the shutdown

	struct Guest {
		enum Kind { file, rest, hold, throws, garbage, truncated, idle, aborter, slow_body, shutdown_, kinds };
		Kind kind;
		Conn c;
		std::string request, expected_call;
		std::size_t line = 0;			// length of the request line
		const File* f = nullptr;
		int stage = 0;					// 0 = not connected, 1 = connected, 2 = a part is sent, 3 = all is sent, 4 = done
		std::size_t sent = 0;
		bool held = false;
		bool released = false;
		bool line_before = false;		// the request line was complete before the shutdown was known
		bool must = false;				// the request is known to be in progress
		bool late = false;				// the request line wasn't complete before the shutdown was in effect

		// Is the answer sent as soon as the request line has been received?
		bool line_only() const {
			return kind == file || kind == throws || kind == aborter || kind == shutdown_;
		}
		bool may_be_complete() const {
			return kind == garbage || (line != 0 && sent + 2 >= line);
		}
	};

	template <typename Server, typename Client>
	void guests(Src& src, bool tls) {
		std::size_t fds = open_fds();
		Site site(src, 400);
		File big{ site.prefix + "big.bin", std::string(40000, 'b') };
		write_file(site.root + big.resource, big.content);
		send_buffer = src.draw(2) == 0 ? 2048 : 0;
		bool small = send_buffer != 0;
		accept_faults = 0;
		{
			// The queue is for connections that wait, not for those that have been accepted.
			Running<Server, Client, abc::endpoint_limits> run(site.root, site.prefix, tls, src.draw(3) == 0 ? 1 + (int)src.draw(5) : 50);
			std::size_t n = 2 + src.draw(9);
			bool faults = src.draw(3) == 0;
			std::vector<std::unique_ptr<Guest>> g;
			for (std::size_t i = 0; i < n; i++) {
				std::unique_ptr<Guest> x(new Guest());
				x->kind = (Guest::Kind)src.draw(Guest::kinds - (src.draw(2) == 0 ? 1 : 0));
				std::string id = fmt("%zu", i), seen;
				std::string head = gen_headers(src, seen);
				std::string line;
				switch (x->kind) {
					case Guest::file:
						if (site.files.empty()) {
							x->kind = Guest::rest;
						}
						else {
							x->f = &site.files[src.draw(site.files.size())];
							line = "GET " + x->f->resource;
							break;
						}
						// fall through
					case Guest::rest:
						line = "GET /rest/" + id;
						x->expected_call = "/rest/" + id;
						break;
					case Guest::hold:
						line = "POST /hold/" + id;
						x->expected_call = "/hold/" + id;
						break;
					case Guest::throws:
						line = "PUT /throw/" + id;
						x->expected_call = "/throw/" + id;
						break;
					case Guest::slow_body:
						line = "POST /rest/" + id;
						x->expected_call = "/rest/" + id;
						head += "Content-Length: 10\r\n";
						break;
					case Guest::aborter:
						line = "GET " + big.resource;
						break;
					case Guest::shutdown_:
						line = "POST /shutdown";
						x->expected_call = "/shutdown";
						break;
					default:
						break;
				}
				if (!line.empty()) {
					x->request = line + " HTTP/1.1\r\n";
					x->line = x->request.size();
					x->request += head + "\r\n" + (x->kind == Guest::slow_body ? "0123456789" : "");
				}
				else if (x->kind == Guest::garbage) {
					static const char* const g_[] = { "\r\n\r\n", "GET", "GET ", "GET / HTTP", "GET / HTTP/", "GET  / ", "POST /shutdown FTP/1.1\r\n\r\n", "POST /shutdown \r\n\r\n", "POST /rest/bad HTTP 1.1\r\n\r\n", "POST /shutdown HTTP/1.1 \x80\r\n", "\x16\x03\x01\x02\x00\x01", "POST\x80 /shutdown HTTP/1.1\r\n\r\n", "P\xc3\xb6ST /rest/bad HTTP/1.1\r\n\r\n", "POST /rest/\xff HTTP/1.1\r\n\r\n" };
					x->request = src.draw(4) == 0 ? gen_content(src, src.len(300)) : g_[src.draw(sizeof g_ / sizeof *g_)];
					if (src.draw(6) == 0) {
						x->request = "POST /rest/" + std::string(2060 + src.draw(200), 'q') + " HTTP/1.1\r\n\r\n";
					}
				}
				else if (x->kind == Guest::truncated) {
					std::string full = (src.draw(2) == 0 ? "POST /shutdown" : "DELETE /rest/" + id + "00") + std::string(" HTTP/1.1\r\n");
					// Up to where the protocol is complete but for its end, a request is incomplete.
					x->request = full.substr(0, 1 + src.draw(full.size() - 3));
				}
				g.push_back(std::move(x));
			}
			bool shut = false;				// a response to a shutdown has been received
			bool shut_sent = false;			// a shutdown may be in effect
			std::size_t aborted = 0, held = 0;
			auto open_holds = [&] {
				std::size_t k = 0;
				for (auto& x : g) {
					k += x->held && !x->released;
				}
				return k;
			};
			auto send_some = [&](Guest& x, std::size_t k) {
				bool complete = x.may_be_complete();
				if (x.kind == Guest::shutdown_ && x.sent + k == x.request.size()) {
					// Of more than one at a time, any may be the first.
					x.must = !shut_sent;
					for (auto& y : g) {
						y->must = y->must && (y->kind != Guest::shutdown_ || !shut_sent || y.get() == &x);
					}
					shut_sent = true;
				}
				x.c.send(x.request.substr(x.sent, k));
				x.sent += k;
				x.line_before = x.line_before || (x.line != 0 && x.sent >= x.line && !shut_sent);
				x.late = x.late || (!complete && shut);
			};
			auto verify = [&](Guest& x, std::size_t i) {
				x.c.read_all();
				static const char* const names[] = { "file", "rest", "hold", "throw", "garbage", "truncated", "idle", "abort", "slow body", "shutdown" };
				std::string what = fmt("client %zu (%s%s%s)", i, names[x.kind], small ? ", small buffers" : "", x.c.error != 0 ? strerror(x.c.error) : "");
				bool refused_ok = !x.must && (shut_sent || !x.line_before);
				x.stage = 4;
				if (x.late) {
					CHECK(x.c.got.empty(), "client %zu: a request that came after the shutdown got a response", i);
				}
				if (x.c.got.empty() && refused_ok) {
					src.label(x.late ? "refused after the shutdown" : "refused at the shutdown");
					return;
				}
				if (x.kind == Guest::throws) {
					return;
				}
				Response r = check_response(x.c.got, what);
				if (x.kind == Guest::file) {
					check_file(r, *x.f, what);
				}
				else if (x.kind == Guest::shutdown_) {
					CHECK(r.status == 200, "%s: POST /shutdown got status %d", what.c_str(), r.status);
				}
				else {
					CHECK(r.status == 202 && r.body.find("resource=" + x.expected_call + " ") != std::string::npos, "%s: a wrong response %s", what.c_str(), pbt::quote(r.body).c_str());
				}
			};
			std::size_t steps = n * 3 + src.draw(n * 3);
			for (std::size_t st = 0; st < steps; st++) {
				std::size_t i = src.draw(n);
				Guest& x = *g[i];
				if (x.stage == 4) {
					continue;
				}
				if (faults && src.draw(4) == 0) {
					accept_faults = 1 + (int)src.draw(3);
					src.label("accept() fails");
				}
				if (shut) {
					// While some requests are in progress.
					if (open_holds() > 0) {
						CHECK(!run.ready(src.draw(3) == 0 ? 5 : 0), "the future is ready although %zu requests are in progress", open_holds());
					}
				}
				if (x.stage == 0) {
					if (shut && src.draw(2) == 0) {
						continue;
					}
					if (tls && x.kind == Guest::garbage && !shut_sent) {
						// No TLS at all.  The handshake is done by the thread that accepts, so this is done in one step.
						x.c.dial(false);
						x.c.send(x.request);
						if (src.draw(2) == 0) {
							x.c.reset();
						}
						x.c.close();
						x.stage = 4;
						src.label("no TLS");
						continue;
					}
					if (tls && shut_sent) {
						// The thread that accepts may be gone.
						x.stage = 4;
						continue;
					}
					if (shut_sent) {
						// Nobody may listen any more.
						try {
							x.c.dial(tls, small ? 1024 : 0);
						}
						catch (const pbt::Failure&) {
							x.stage = 4;
							continue;
						}
					}
					else {
						x.c.dial(tls, small ? 1024 : 0);
					}
					x.stage = 1;
					src.note(fmt("client %zu (%d) connects", i, (int)x.kind));
					continue;
				}
				if (x.kind == Guest::idle) {
					continue;
				}
				if (x.stage < 3) {
					std::size_t k = x.request.size() - x.sent;
					if (x.stage == 1 && src.draw(2) == 0 && x.request.size() > 1) {
						k = 1 + src.draw(x.request.size() - 1);
						if (x.line_only() && k > x.line - 11) {
							// What comes after an answer makes the system drop the answer.
							k = x.line - 11;
						}
					}
					send_some(x, k);
					src.note(fmt("client %zu (%d) sends %zu of %zu", i, (int)x.kind, x.sent, x.request.size()));
					x.stage = x.sent == x.request.size() ? 3 : 2;
					if (x.kind == Guest::hold && x.line_before && !x.held && x.sent >= x.line && !shut_sent) {
						CHECK(run.state.wait_entered(x.expected_call), "client %zu: the request isn't processed", i);
						x.held = true;
						x.must = true;
						held++;
						src.label("held");
					}
					continue;
				}
				// Everything has been sent.
				switch (x.kind) {
					case Guest::file: case Guest::rest: case Guest::slow_body: case Guest::throws:
						verify(x, i);
						src.note(fmt("client %zu (%d) has got %zu bytes", i, (int)x.kind, x.c.got.size()));
						break;
					case Guest::shutdown_:
						verify(x, i);
						if (!x.c.got.empty()) {
							shut = true;
						}
						src.note(fmt("client %zu: shutdown", i));
						break;
					case Guest::hold:
						if (x.held && src.draw(2) == 0) {
							run.state.release(x.expected_call);
							x.released = true;
							verify(x, i);
							src.note(fmt("client %zu is released", i));
						}
						else if (!x.held) {
							// It may have been refused, or not.
							run.state.release(x.expected_call);
							verify(x, i);
						}
						break;
					case Guest::aborter:
						x.c.read(src.draw(300));
						x.c.reset();
						x.stage = 4;
						aborted++;
						src.note(fmt("client %zu aborts", i));
						src.label("aborted");
						break;
					default:
						if (src.draw(3) == 0) {
							x.c.reset();
						}
						else {
							if (src.draw(2) == 0 && !tls) {
								::shutdown(x.c.fd, SHUT_WR);
								x.c.read_all();
								if (!x.c.got.empty()) {
									Response r = check_response(x.c.got, fmt("client %zu", i));
									CHECK(r.status >= 400, "client %zu: an invalid request got status %d", i, r.status);
								}
							}
							x.c.close();
						}
						x.stage = 4;
						src.note(fmt("client %zu (%d) is gone", i, (int)x.kind));
						src.label("invalid request");
						break;
				}
			}
			// A shutdown by a client that has done nothing else, unless there was one.
			bool extra = !shut_sent;
			if (extra) {
				shut_sent = true;
				run.shutdown("the last client");
				shut = true;
			}
			// The requests in progress are completed, in any order.
			for (std::size_t i = 0; i < n; i++) {
				Guest& x = *g[i];
				if (!x.held || x.released) {
					continue;
				}
				CHECK(!run.ready(src.draw(2) == 0 ? 10 : 0), "the future is ready although %zu requests are in progress", open_holds());
				send_some(x, x.request.size() - x.sent);
				run.state.release(x.expected_call);
				x.released = true;
				verify(x, i);
				src.label("held at shutdown");
			}
			for (auto& x : g) {
				if (x->kind == Guest::hold && !x->held) {
					run.state.release(x->expected_call);
				}
			}
			// So are those that may be in progress.
			for (std::size_t i = 0; i < n; i++) {
				Guest& x = *g[i];
				if ((x.stage != 2 && x.stage != 3) || !x.may_be_complete()) {
					continue;
				}
				if (x.kind == Guest::aborter || x.kind == Guest::garbage) {
					x.c.reset();
					x.stage = 4;
				}
				else {
					send_some(x, x.request.size() - x.sent);
					verify(x, i);
				}
			}
			// The other clients don't hold up anything.
			CHECK(run.ready(20000), "the future isn't ready although all requests are completed");
			run.done.get();
			std::size_t idle = 0;
			for (auto& x : g) {
				idle += x->stage > 0 && x->stage < 4;
			}
			if (idle != 0) {
				src.label("idle at shutdown");
			}
			// From here on nothing is processed.
			std::size_t calls = run.state.count();
			for (std::size_t i = 0; i < n; i++) {
				Guest& x = *g[i];
				if (x.stage > 0 && x.stage < 4 && x.line != 0) {
					send_some(x, x.request.size() - x.sent);
					x.c.read_all();
					CHECK(x.c.got.empty(), "client %zu: a request that came after the shutdown got a response", i);
					src.label("refused after the shutdown");
				}
				x.c.close();
			}
			run.join();
			CHECK(run.state.count() == calls, "a request that came after the shutdown was processed");
			std::map<std::string, int> seen;
			for (auto& c : run.state.calls) {
				seen[c.resource]++;
			}
			for (std::size_t i = 0; i < n; i++) {
				Guest& x = *g[i];
				if (!x.expected_call.empty() && x.kind != Guest::shutdown_) {
					int k = seen[x.expected_call];
					seen.erase(x.expected_call);
					CHECK(k <= 1, "client %zu: %s was processed %d times", i, x.expected_call.c_str(), k);
					CHECK(k == 1 || x.c.got.empty(), "client %zu: a response although %s wasn't processed", i, x.expected_call.c_str());
				}
			}
			if (extra) {
				seen["/shutdown"]--;
			}
			for (std::size_t i = 0; i < n; i++) {
				if (g[i]->kind == Guest::shutdown_ && g[i]->sent > 0) {
					seen["/shutdown"] -= seen["/shutdown"] > 0;
				}
			}
			for (auto& s : seen) {
				CHECK(s.second == 0, "%s was processed, but nobody has asked for it", s.first.c_str());
			}
			if (held != 0 || aborted != 0) {
				src.nontrivial();
			}
		}
		send_buffer = 0;
		CHECK(open_fds() == fds, "%zu descriptors are open instead of %zu", open_fds(), fds);
	}

	// Many requests at the moment of the shutdown.
	void burst(Src& src) {
		std::size_t fds = open_fds();
		Site site(src, 50);
		send_buffer = 0;
		{
			Running<PlainServer, PlainClient, abc::endpoint_limits> run(site.root, site.prefix, false);
			std::size_t n = 2 + src.draw(14), s = 1 + src.draw(3);
			std::vector<std::unique_ptr<Conn>> c;
			for (std::size_t i = 0; i < n; i++) {
				c.emplace_back(new Conn());
				c[i]->dial(false);
				c[i]->send(i < s ? "POST /shutdown HTTP/1.1" : fmt("GET /rest/%zu HTTP/1.1", i));
			}
			usleep(500 + (int)src.draw(2000));
			// The order in which they are completed.
			std::vector<std::size_t> order(n);
			for (std::size_t i = 0; i < n; i++) {
				order[i] = i;
			}
			for (std::size_t i = n - 1; i > 0; i--) {
				std::swap(order[i], order[src.draw(i + 1)]);
			}
			for (auto i : order) {
				c[i]->send("\r\n\r\n");
			}
			CHECK(run.ready(20000), "the future isn't ready although all requests are completed");
			run.done.get();
			std::size_t processed = 0;
			for (std::size_t i = 0; i < n; i++) {
				c[i]->read_all();
				if (!c[i]->got.empty()) {
					Response r = check_response(c[i]->got, fmt("client %zu", i));
					CHECK(r.status == (i < s ? 200 : 202), "client %zu: status %d", i, r.status);
					processed++;
				}
			}
			run.join();
			CHECK(run.state.count() == processed, "%zu requests were processed, but %zu responses were received", run.state.count(), processed);
		}
		CHECK(open_fds() == fds, "%zu descriptors are open instead of %zu", open_fds(), fds);
		src.label("burst");
		src.nontrivial();
	}

	// A port that can't be used is reported.
	void cant_start(Src& src) {
		int fd = ::socket(AF_INET, SOCK_STREAM, 0);
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = 0;
		::bind(fd, (sockaddr*)&a, sizeof a);
		::listen(fd, 1);
		socklen_t l = sizeof a;
		::getsockname(fd, (sockaddr*)&a, &l);
		std::string port = src.draw(3) == 0 ? "no-such-port" : fmt("%d", (int)ntohs(a.sin_port));
		State state;
		live_servers = 0;
		abc::endpoint_config config(port.c_str(), 5, "/nowhere", "/resources/");
		Endpoint<PlainServer, PlainClient, abc::endpoint_limits> ep(&config, &state);
		std::future<void> done = ep.start_async();
		bool threw = false;
		CHECK(done.wait_for(std::chrono::seconds(20)) == std::future_status::ready, "the future isn't ready although the port can't be used");
		try {
			done.get();
		}
		catch (const std::exception&) {
			threw = true;
		}
		CHECK(threw, "no exception although the port can't be used");
		CHECK(eventually([] { return (int)live_servers == 0; }), "the listener is left");
		usleep(1000);
		::close(fd);
		src.label("can't start");
		src.nontrivial();
	}

	void c25(Src& src) {
		pbt::case_wall_limit() = 90;
		calm_ports();
		if (the_cert.empty()) {
			make_cert(src.scratch);
		}
		std::uint64_t k = src.draw(20);
		if (k < 12) {
			guests<PlainServer, PlainClient>(src, false);
		}
		else if (k < 18) {
			burst(src);
		}
		else if (k < 19) {
			cant_start(src);
		}
		else {
			guests<TlsServer, TlsClient>(src, true);
		}
	}
	pbt::RegKnown k1("C25-accepts-after-shutdown", "after POST /shutdown, when the future is ready, the endpoint still listens and its thread stays in accept() until one more connection arrives, so the endpoint object can't be destroyed safely", [] {
		send_buffer = 0;
		Running<PlainServer, PlainClient, abc::endpoint_limits> run("/nowhere", "/resources/", false);
		run.shutdown("POST /shutdown");
		bool ready = run.ready(20000);
		usleep(300000);
		bool listens = (int)live_servers != 0;
		run.join();
		return ready && listens;
	});
	pbt::RegKnown k2("C25-tls-handshake-blocks", "the TLS handshake is done by the thread that accepts, so a client that connects to an endpoint over TLS and sends nothing holds up all other clients until it leaves", [] {
		send_buffer = 0;
		char dir[] = "/tmp/vp_known_XXXXXX";
		if (mkdtemp(dir) == nullptr) {
			return false;
		}
		make_cert(dir);
		bool blocked = false;
		{
			Running<TlsServer, TlsClient, abc::endpoint_limits> run("/nowhere", "/resources/", true);
			Conn silent;
			silent.dial(false);
			std::atomic<bool> served{ false };
			std::thread other([&] {
				try {
					Conn c;
					c.dial(true);
					c.send("GET /rest/1 HTTP/1.1\r\n\r\n");
					c.read_all();
					served = !c.got.empty();
				}
				catch (const pbt::Failure&) {
				}
			});
			blocked = !eventually([&] { return (bool)served; }, 1000);
			silent.close();
			other.join();
			blocked = blocked && served;
			run.shutdown("POST /shutdown");
			run.ready(20000);
			run.join();
		}
		unlink(the_cert.c_str());
		unlink(the_key.c_str());
		rmdir(dir);
		return blocked;
	});
	pbt::Racy racy25("C25", 40);
	pbt::Reg r25("C25", 0, 0, "a request is in progress at the shutdown, a client aborts, or requests are completed at the moment of the shutdown", c25);
#endif
}
