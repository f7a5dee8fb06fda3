// The REST services among the samples.  Unit 0 is the solver of equations, unit 1 tic-tac-toe, unit 2 connect-four.
#include "pbt.h"
#include "clientjson.h"
#include "sim.h"
#include "ascii.h"
#include "endpoint.h"
#include "http.h"
#include "json.h"
#include "log.h"
#include "vmem.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <sstream>

#ifndef PART
#define PART 0
#endif

// The samples use the same namespace; each gets one of its own here.
#if PART == 0
#define SAMPLES equations_samples
#elif PART == 1
#define SAMPLES tictactoe_service_samples
#else
#define SAMPLES connect4_service_samples
#endif
namespace abc { namespace category { namespace abc {
	constexpr category_t SAMPLES = samples;
}}}
#define samples SAMPLES
#if PART == 0
#include "../samples/basic/equations.h"
#elif PART == 1
#include "../samples/tictactoe/game.h"
#else
#include "../samples/connect4/game.h"
#endif
#undef samples

namespace svc = abc::SAMPLES;

using clientjson::Val;
using clientjson::Parser;
using pbt::Src;
using pbt::fmt;

namespace {

	// ---------------------------------------------------------------- requests and responses

	struct Response {
		int status = 0;
		std::string type, body;
		Val json;
	};

	bool same_i(const std::string& a, const std::string& b) {
		return strcasecmp(a.c_str(), b.c_str()) == 0;
	}

	// There is exactly one response, and it's complete.
	Response parse(const std::string& out, const std::string& what) {
		Response r;
		CHECK(!out.empty(), "%s gets no response", what.c_str());
		std::size_t head = out.find("\r\n\r\n");
		CHECK(head != std::string::npos, "%s gets an incomplete response: %s", what.c_str(), pbt::quote(out).c_str());
		std::size_t line = out.find("\r\n");
		CHECK(sscanf(out.substr(0, line).c_str(), "HTTP/1.1 %d ", &r.status) == 1, "%s gets the status line %s", what.c_str(), pbt::quote(out.substr(0, line)).c_str());
		long length = -1;
		while (line < head) {
			std::size_t next = out.find("\r\n", line + 2);
			std::string h = out.substr(line + 2, next - line - 2);
			std::size_t c = h.find(':');
			CHECK(c != std::string::npos, "%s gets the header %s", what.c_str(), pbt::quote(h).c_str());
			std::string v = h.substr(h.find_first_not_of(' ', c + 1));
			if (same_i(h.substr(0, c), "Content-Length")) {
				CHECK(length < 0, "two lengths");
				length = atol(v.c_str());
			}
			else if (same_i(h.substr(0, c), "Content-Type")) {
				r.type = v;
			}
			line = next;
		}
		r.body = out.substr(head + 4);
		CHECK((long)r.body.size() == length, "%s gets a body of %zu bytes, and Content-Length: %ld", what.c_str(), r.body.size(), length);
		if (r.status == 200 && r.type.find("json") != std::string::npos) {
			r.json = Parser(r.body).all();
		}
		return r;
	}

	std::string mixed_case(Src& src, std::string s) {
		if (src.draw(6) == 0) {
			for (char& c : s) {
				c = src.draw(2) ? (char)toupper(c) : (char)tolower(c);
			}
		}
		return s;
	}

	struct Request {
		std::string method, resource, body;
		int type = 1;		// Content-Type: 0 none, 1 JSON, 2 another, 3 twice
		std::string text(Src& src) const {
			std::string s = mixed_case(src, method) + " " + mixed_case(src, resource.substr(0, 6)) + resource.substr(std::min<std::size_t>(6, resource.size())) + " HTTP/1.1\r\n";
			auto junk = [&]() {
				for (std::uint64_t n = src.len(3); n; n--) {
					static const char* const h[] = { "Host: localhost:30301\r\n", "Accept: */*\r\n", "User-Agent: pbt\r\n", "Content-Types: text/html\r\n", "X-Content-Type: text/html\r\n" };
					s += h[src.draw(5)];
				}
			};
			junk();
			for (int n = type == 3 ? 2 : type == 0 ? 0 : 1; n; n--) {
				std::string name = mixed_case(src, "Content-Type"), v = "application/json";
				switch (src.draw(3)) {
					case 0: v = "application/json; charset=utf-8"; break;
					case 1: v = mixed_case(src, v); break;
					default: break;
				}
				if (type == 2) {
					static const char* const t[] = { "text/plain", "application/xml", "application", "json", "application/jso" };
					v = t[src.draw(5)];
				}
				s += name + ": " + v + "\r\n";
				junk();
			}
			s += fmt("Content-Length: %zu\r\n", body.size());
			return s + "\r\n" + body;
		}
	};

	// Puts white space between tokens.
	std::string spaced(Src& src, const std::vector<std::string>& tokens) {
		std::string s;
		bool wide = src.draw(3) == 0;
		for (auto& t : tokens) {
			s += t;
			if (wide) {
				static const char* const w[] = { "", " ", "\n", "\t", "\r\n  " };
				s += w[src.draw(5)];
			}
		}
		return s;
	}

	// A property that services ignore.
	std::vector<std::string> unknown_property(Src& src) {
		static const char* const names[] = { "\"c\"", "\"\"", "\"aa\"", "\"player\"", "\"A\"", "\"version\"" };
		std::vector<std::string> t{ names[src.draw(6)], ":" };
		static const char* const values[] = { "1", "null", "true", "\"a\"", "[ ]", "{}", "[ 1, [ 2 ], { \"a\": 3 } ]", "{ \"a\": [ ], \"b\": { \"players\": 0 } }", "\"\\\"}\"", "-1.5e3" };
		t.push_back(values[src.draw(10)]);
		return t;
	}

	// Something wrong with a body.
	std::string broken(Src& src, std::string body) {
		switch (src.draw(6)) {
			case 0:
				return body.substr(0, src.draw(body.size()));
			case 1: {
				static const char* const b[] = { "", "[]", "1", "\"a\"", "null", "{", "{]", "}", "{}", "x", "{ \"a\" }", "{ 1: 2 }", "{ , }", "{ \"x\": }" };
				return b[src.draw(14)];
			}
			case 2: {
				// Another kind of value.
				std::vector<std::size_t> at;
				for (std::size_t i = 0; i < body.size(); i++) {
					if (strchr("{[:,]}", body[i])) {
						at.push_back(i);
					}
				}
				body[at[src.draw(at.size())]] = "{[:,]}"[src.draw(6)];
				return body;
			}
			case 3:
				body.insert(src.draw(body.size() + 1), std::string(1 + src.draw(2), (char)(src.draw(2) ? src.draw(256) : "\"\\{}[]:,0"[src.draw(9)])));
				return body;
			case 4:
				return body.insert(src.draw(body.size() + 1), std::string(src.draw(3000), src.draw(2) ? 'a' : '1'));
			default: {
				// Too deep, or long.
				std::string s;
				for (std::uint64_t n = src.draw(100); n; n--) {
					s += src.draw(2) ? "[" : "{\"a\":";
				}
				return s;
			}
		}
	}

	struct Config {
		abc::endpoint_config c;
		Config()
			: c("30301", 5, "/nonexistent", "/resources/") {
		}
	};

	template <typename Endpoint>
	struct Service : public Endpoint {
		Service(abc::endpoint_config* c)
			: Endpoint(c, nullptr) {
		}
		// What the endpoint does with a connection.
		template <typename Log>
		std::string serve(const std::string& in) {
			struct Duplex : public std::stringbuf {
				std::string out;
				Duplex(const std::string& in)
					: std::stringbuf(in, std::ios::in) {
				}
				int_type overflow(int_type c) override {
					if (c != traits_type::eof()) {
						out += (char)c;
					}
					return c;
				}
				std::streamsize xsputn(const char* p, std::streamsize n) override {
					out.append(p, n);
					return n;
				}
			} sb(in);
			abc::http_server_stream<Log> http(&sb);
			char method[33], resource[2049], protocol[33];
			http.get_method(method, sizeof method);
			http.get_resource(resource, sizeof resource);
			http.get_protocol(protocol, sizeof protocol);
			try {
				this->process_rest_request(http, method, resource);
			}
			catch (const std::exception& ex) {
				pbt::fail(fmt("the request fails: %s", ex.what()));
			}
			http.flush();
			return sb.out;
		}
	};

#if PART == 0

	// ---------------------------------------------------------------- equations

	using Log = abc::log_ostream<abc::debug_line_ostream<>, abc::log_filter>;
	using Solver = Service<svc::equations_endpoint<abc::endpoint_limits, Log>>;

	std::string number(Src& src, double& v) {
		std::string s;
		switch (src.draw(5)) {
			case 0: s = fmt("%d", (int)src.draw(7) - 3); break;
			case 1: s = fmt("%d", (int)src.draw(20001) - 10000); break;
			case 2: s = fmt("%.3f", ((int)src.draw(20001) - 10000) / 8.0); break;
			case 3: s = fmt("%de%d", (int)src.draw(7) - 3, (int)src.draw(7) - 3); break;
			default: s = src.draw(40) == 0 ? fmt("1e%d", (int)src.draw(617) - 308) : fmt("%d", (int)src.draw(3)); break;
		}
		v = strtod(s.c_str(), nullptr);
		return s;
	}

	void equations_case(Src& src) {
		Config config;
		Solver service(&config.c);
		for (std::uint64_t n = 1 + src.len(5); n; n--) {
			Request rq;
			rq.method = "POST";
			rq.resource = "/problem";
			double a[2][2], b[2];
			std::vector<std::string> t{ "{" };
			bool b_first = src.draw(4) == 0;
			auto junk = [&]() {
				for (std::uint64_t n = src.draw(5) == 0 ? 1 : 0; n; n--) {
					for (auto& x : unknown_property(src)) {
						t.push_back(x);
					}
					t.push_back(",");
				}
			};
			for (int i = 0; i < 2; i++) {
				junk();
				if ((i == 0) != b_first) {
					t.insert(t.end(), { "\"a\"", ":", "[", "[" });
					t.push_back(number(src, a[0][0]));
					t.push_back(",");
					t.push_back(number(src, a[0][1]));
					t.insert(t.end(), { "]", ",", "[" });
					if (src.draw(4) == 0) {
						// Dependent.
						double f = (double)src.draw(5) - 2;
						for (int c = 0; c < 2; c++) {
							a[1][c] = a[0][c] * f;
							t.push_back(fmt("%.17g", a[1][c]));
							t.push_back(c == 0 ? "," : "]");
						}
					}
					else {
						t.push_back(number(src, a[1][0]));
						t.push_back(",");
						t.push_back(number(src, a[1][1]));
						t.push_back("]");
					}
					t.push_back("]");
				}
				else {
					t.insert(t.end(), { "\"b\"", ":", "[" });
					t.push_back(number(src, b[0]));
					t.push_back(",");
					t.push_back(number(src, b[1]));
					t.push_back("]");
				}
				if (i == 0) {
					t.push_back(",");
				}
			}
			if (src.draw(8) == 0) {
				t.push_back(",");
				for (auto& x : unknown_property(src)) {
					t.push_back(x);
				}
			}
			t.push_back("}");
			rq.body = spaced(src, t);
			int expected = 200;
			std::uint64_t k = src.draw(16);
			if (k == 0) {
				static const char* const r[] = { "/problems", "/", "/proble", "/problem/", "", "/shutdown" };
				rq.resource = r[src.draw(6)];
				if (rq.resource.empty()) {
					rq.resource = "x";
				}
				expected = rq.resource == "/shutdown" ? 200 : 404;
			}
			else if (k == 1) {
				static const char* const m[] = { "GET", "PUT", "DELETE", "POSTS", "POS" };
				rq.method = m[src.draw(5)];
				expected = 405;
			}
			else if (k == 2) {
				rq.type = 2 + (int)src.draw(2);
				expected = 400;
			}
			else if (k <= 5) {
				rq.body = broken(src, rq.body);
				expected = 0;
			}
			src.note(rq.method + " " + rq.resource + fmt(" %d ", rq.type) + pbt::quote(rq.body.substr(0, 300)));
			std::string what = rq.method + " " + rq.resource;
			Response r = parse(service.serve<Log>(rq.text(src)), what);
			if (expected == 0) {
				// A change may be harmless.
				CHECK(r.status == 400 || r.status == 200, "an invalid body gets %d", r.status);
				src.label(r.status == 400 ? "invalid" : "harmless");
				continue;
			}
			if (expected == 200 && r.status == 400 && k > 5) {
				// The solution may be out of range.
				double m = 0, l = 1e300;
				for (double v : { a[0][0], a[0][1], a[1][0], a[1][1], b[0], b[1] }) {
					m = std::max(m, std::fabs(v));
					if (v != 0) {
						l = std::min(l, std::fabs(v));
					}
				}
				CHECK(m > 1e100 || l < 1e-100, "%s is refused: %s", pbt::quote(rq.body).c_str(), pbt::quote(r.body).c_str());
				src.label("out of range");
				continue;
			}
			CHECK(r.status == expected, "%s with %s gets %d, expected %d", what.c_str(), pbt::quote(rq.body).c_str(), r.status, expected);
			if (k <= 5) {
				src.label("refused");
				continue;
			}
			// Substitute.
			const Val& x = r.json["x"];
			const Val& y = r.json["y"];
			const Val& status = r.json["status"];
			CHECK(x.kind == Val::number && y.kind == Val::number && status.kind == Val::number, "the response is %s", r.body.c_str());
			double det = a[0][0] * a[1][1] - a[0][1] * a[1][0];
			double scale = std::fabs(a[0][0] * a[1][1]) + std::fabs(a[0][1] * a[1][0]);
			if (!(scale < 1e100) || (scale != 0 && scale < 1e-100) || !(std::fabs(b[0]) < 1e100 && std::fabs(b[1]) < 1e100)) {
				src.label("extreme");
				continue;
			}
			if (det != 0) {
				if (std::fabs(det) < 1e-9 * scale) {
					continue;
				}
				CHECK(status.is(1), "%s has one solution, the status is %g", pbt::quote(rq.body).c_str(), status.num);
				for (int i = 0; i < 2; i++) {
					double l = a[i][0] * x.num + a[i][1] * y.num;
					double tol = 1e-9 * (std::fabs(a[i][0] * x.num) + std::fabs(a[i][1] * y.num) + std::fabs(b[i])) * (1 + scale / std::fabs(det));
					CHECK(std::fabs(l - b[i]) <= tol, "%s: the solution %s doesn't satisfy equation %d (%.17g)", pbt::quote(rq.body).c_str(), r.body.c_str(), i, l - b[i]);
				}
				src.label("solved");
				src.nontrivial();
			}
			else {
				double dx = b[0] * a[1][1] - a[0][1] * b[1], dy = a[0][0] * b[1] - b[0] * a[1][0];
				double tol = 1e-9 * (std::fabs(b[0]) + std::fabs(b[1])) * (std::fabs(a[0][0]) + std::fabs(a[0][1]) + std::fabs(a[1][0]) + std::fabs(a[1][1]));
				if (dx == 0 && dy == 0) {
					CHECK(status.is(2), "%s: the status is %g", pbt::quote(rq.body).c_str(), status.num);
					src.label("dependent");
				}
				else if (std::fabs(dx) > tol || std::fabs(dy) > tol) {
					CHECK(status.is(0), "%s: the status is %g", pbt::quote(rq.body).c_str(), status.num);
					src.label("contradictory");
				}
				src.nontrivial();
			}
		}
	}

#else

	// ---------------------------------------------------------------- games

	using Log = svc::log_ostream;
	using Games = Service<svc::game_endpoint<svc::limits, Log>>;

	constexpr int R = svc::row_count;
	constexpr int C = svc::col_count;

	struct Move {
		int row, col;
	};

	// The game, as the clients know it.
	struct Game {
		bool exists = false;
		std::uint32_t id = 0;
		std::string type[2];
		std::uint32_t player[2] = { 0, 0 };
		bool claimed[2] = { true, true };
		svc::board board;		// C31 is about boards
		std::vector<Move> moves;
		bool over() const {
			return board.is_game_over();
		}
		int turn() const {
			return board.current_player_id() == svc::player_id::x ? 0 : 1;
		}
		bool started() const {
			return claimed[0] && claimed[1];
		}
		bool engine_thinks() const {
			return !over() && type[turn()] != "external" && (started() || !moves.empty());
		}
	};

	void wait_idle(sim::World& w) {
		while (!w.all_done()) {
			sim::sleep_ns(sim::MS);
		}
	}

	void games_case(Src& src) {
		std::string path = pbt::case_dir(src) + "/kb.vmem";
		svc::vmem_bundle kb(path.c_str(), nullptr);
		svc::player_agent::_vmem = &kb;
		sim::World w(src);
		w.preempt = src.draw(2) ? 0 : 4;
		std::srand((unsigned)src.draw(1u << 31));
		Config config;
		std::unique_ptr<Games> service(new Games(&config.c));
		Game g;
		unsigned played = 0;
		std::uint32_t old_id = 0;

		auto send = [&](const Request& rq) {
			std::string what = rq.method + " " + rq.resource;
			src.note(what + fmt(" %d ", rq.type) + pbt::quote(rq.body.substr(0, 200)));
			Response r = parse(service->template serve<Log>(rq.text(src)), what);
			if (src.draw(3)) {
				wait_idle(w);
			}
			return r;
		};
		// The moves of the game since the given one.
		auto fetch = [&](unsigned since) {
			wait_idle(w);
			Request rq;
			rq.method = "GET";
			rq.type = (int)src.draw(2);
			rq.resource = fmt("/games/%u/moves?since=%u", g.id, since);
			Response r = send(rq);
			CHECK(r.status == 200, "the moves are not available: %d", r.status);
			const Val& m = r.json["moves"];
			CHECK(m.kind == Val::array, "the moves are %s", r.body.c_str());
			for (std::size_t i = 0; i < m.arr.size(); i++) {
				const Val& v = m.arr[i]["move"];
				CHECK(m.arr[i]["i"].is((double)(since + i)), "the index of a move is %s", r.body.c_str());
				CHECK(v["row"].kind == Val::number && v["col"].kind == Val::number, "a move is %s", r.body.c_str());
				std::size_t at = since + i;
				Move mv{ (int)v["row"].num, (int)v["col"].num };
				if (at < g.moves.size()) {
					CHECK(g.moves[at].row == mv.row && g.moves[at].col == mv.col, "move %zu was (%d, %d), and is (%d, %d) now", at, g.moves[at].row, g.moves[at].col, mv.row, mv.col);
				}
				else {
					CHECK(at == g.moves.size(), "a move is missing");
					CHECK(g.engine_thinks(), "a move has come from nowhere");
					CHECK(g.board.accept_move({ mv.row, mv.col }), "the engine's move (%d, %d) is illegal", mv.row, mv.col);
					g.moves.push_back(mv);
				}
			}
			CHECK(since >= g.moves.size() ? m.arr.empty() : since + m.arr.size() == g.moves.size(), "%zu moves since %u, expected %zu", m.arr.size(), since, g.moves.size());
			CHECK(!g.engine_thinks(), "the engine doesn't answer after %zu moves", g.moves.size());
			const Val& win = r.json["winner"];
			if (g.over()) {
				CHECK(win.is((double)g.board.winner()), "the winner is %u, the response is %s", (unsigned)g.board.winner(), r.body.c_str());
			}
			else {
				CHECK(win.kind == Val::none, "there is a winner already: %s", r.body.c_str());
			}
		};

		for (std::uint64_t steps = 4 + src.len(60); steps; steps--) {
			if (g.exists && g.engine_thinks()) {
				fetch((unsigned)g.moves.size());
			}
			std::uint64_t k = src.draw(20);
			Request rq;
			rq.method = "POST";
			if (!g.exists || k < 2 || (g.over() && src.draw(2))) {
				// Create a game.
				std::string t[2];
				for (int i = 0; i < 2; i++) {
					std::uint64_t e = src.draw(8);
					t[i] = e < 5 ? "external" : e < 7 || PART == 2 ? "fast_engine" : "slow_engine";
				}
				if (t[0] != "external" && t[1] != "external" && src.draw(3)) {
					t[0] = "external";
				}
				std::vector<std::string> tk{ "{" };
				if (src.draw(5) == 0) {
					for (auto& x : unknown_property(src)) {
						tk.push_back(x);
					}
					tk.push_back(",");
				}
				tk.insert(tk.end(), { "\"players\"", ":", "[", "\"" + t[0] + "\"", ",", "\"" + t[1] + "\"", "]" });
				if (src.draw(5) == 0) {
					tk.push_back(",");
					for (auto& x : unknown_property(src)) {
						tk.push_back(x);
					}
				}
				tk.push_back("}");
				rq.resource = "/games";
				rq.body = spaced(src, tk);
				int expected = g.exists && !g.over() ? 503 : 200;
				std::uint64_t e = src.draw(12);
				if (e == 0) {
					rq.type = 2 + (int)src.draw(2);
					expected = 400;
				}
				else if (e == 1) {
					rq.type = 0;
					expected = 400;
				}
				else if (e == 2) {
					rq.method = src.draw(2) ? "GET" : "PUT";
					expected = 405;
				}
				else if (e == 3) {
					static const char* const b[] = { "internal", "External", "slow", "", "fast_engine ", "external_" };
					std::string bad = src.draw(2) ? b[src.draw(6)] : std::string(src.draw(1500), 'e');
					rq.body = "{\"players\": [ " + (src.draw(2) ? "\"external\", \"" + bad : "\"" + bad + "\", \"external") + "\" ]}";
					expected = 400;
				}
				else if (e == 4) {
					std::string body = broken(src, rq.body);
					if (body.find("players") != std::string::npos) {
						// It may still be understood, so that a game starts.
						body = "{\"players\": [ \"external\" ]}";
					}
					rq.body = body;
					expected = 400;
				}
				Response r = send(rq);
				CHECK(r.status == expected, "%s gets %d, expected %d", rq.body.c_str(), r.status, expected);
				if (expected == 200) {
					const Val& id = r.json["gameId"];
					CHECK(id.kind == Val::number && id.num > 0 && id.num <= 4294967295.0 && id.num == std::floor(id.num), "the response is %s", r.body.c_str());
					old_id = g.id;
					g = Game();
#if PART == 2
					g.board.reset(nullptr);
#endif
					g.exists = true;
					g.id = (std::uint32_t)id.num;
					for (int i = 0; i < 2; i++) {
						g.type[i] = t[i];
						g.claimed[i] = t[i] != "external";
					}
					fetch(0);
					src.label("game");
				}
				continue;
			}
			if (k < 6 || (!g.started() && k < 14)) {
				// Claim a player.
				unsigned who = (unsigned)src.draw(2);
				if (g.claimed[who] && !g.claimed[1 - who]) {
					who = 1 - who;
				}
				std::uint32_t id = g.id;
				int expected = g.claimed[who] ? 403 : 200;
				std::uint64_t e = src.draw(12);
				if (e == 0) {
					who = 2 + (unsigned)src.draw(3000000);
					expected = 400;
				}
				else if (e == 1) {
					id = src.draw(2) && old_id != 0 ? old_id : id + 1;
					if (id == 0 || id == g.id) {
						id = g.id == 1 ? 2 : 1;
					}
					expected = 404;
				}
				else if (e == 2) {
					id = 0;
					expected = 400;
				}
				else if (e == 3) {
					rq.method = src.draw(2) ? "GET" : "DELETE";
					expected = 405;
				}
				rq.type = (int)src.draw(3);
				rq.resource = fmt("/games/%u/players/%u", id, who);
				Response r = send(rq);
				CHECK(r.status == expected, "the claim gets %d, expected %d", r.status, expected);
				if (expected == 200) {
					const Val& p = r.json["playerId"];
					CHECK(p.kind == Val::number && p.num > 0 && p.num <= 4294967295.0 && p.num == std::floor(p.num), "the response is %s", r.body.c_str());
					g.player[who] = (std::uint32_t)p.num;
					g.claimed[who] = true;
					CHECK(g.player[0] != g.player[1], "both players have the same id");
				}
				continue;
			}
			if (k < 16) {
				// Move.
				int who = src.draw(5) == 0 ? 1 - g.turn() : g.turn();
				Move mv{ (int)src.draw(R), (int)src.draw(C) };
				if (src.draw(4)) {
					std::vector<Move> l;
					for (int r = 0; r < R; r++) {
						for (int c = 0; c < C; c++) {
							svc::board b = g.board;
							if (b.accept_move({ r, c })) {
								l.push_back({ r, c });
							}
						}
					}
					if (!l.empty()) {
						mv = l[src.draw(l.size())];
					}
				}
				std::uint32_t id = g.id, player = g.player[who];
				svc::board next = g.board;
				int expected = who == g.turn() && next.accept_move({ mv.row, mv.col }) ? 200 : 403;
				if (player == 0) {
					// Nobody but the clients knows the ids.
					player = 0x7ffffff1;
					if (player == g.player[1 - who]) {
						player++;
					}
					expected = 404;
				}
				std::string row = fmt("%d", mv.row), col = fmt("%d", mv.col);
				std::string word = "moves";
				bool bad = false;
				std::uint64_t e = src.draw(20);
				switch (e) {
					case 0:
						id = id == 1 ? 2 : 1;
						expected = 404;
						break;
					case 1:
						player = player == 0xffffffff ? 1 : 0xffffffff;
						expected = 404;
						if (player == g.player[0] || player == g.player[1]) {
							throw pbt::Discard{};
						}
						break;
					case 2:
						rq.method = "GET";
						expected = 405;
						break;
					case 3:
						rq.type = 2 * (int)src.draw(2);
						expected = 400;
						break;
					case 4: {
						static const char* const b[] = { "-1", "100", "\"0\"", "null", "[0]", "1e9", "-1e99", "true" };
						(src.draw(2) ? row : col) = b[src.draw(8)];
						expected = 400;
						break;
					}
					case 5: {
						static const char* const b[] = { "move", "movesx", "movess", "moves/", "x", "playersandmore" };
						word = b[src.draw(6)];
						expected = 400;
						break;
					}
					case 6:
						(src.draw(2) ? id : player) = 0;
						expected = 400;
						break;
					case 7:
						bad = true;
						expected = 400;
						break;
					default:
						break;
				}
				rq.resource = fmt("/games/%u/players/%u/", id, player) + word;
				rq.body = spaced(src, { "{", "\"row\"", ":", row, ",", "\"col\"", ":", col, "}" });
				if (bad) {
					rq.body = broken(src, rq.body);
					if (rq.body.find("col") != std::string::npos && rq.body.find("row") != std::string::npos) {
						rq.body = "{\"col\": 0, \"row\": 0}";
					}
				}
				unsigned at = (unsigned)g.moves.size();
				Response r = send(rq);
				CHECK(r.status == expected, "the move %s gets %d, expected %d", pbt::quote(rq.body).c_str(), r.status, expected);
				if (expected == 200) {
					g.board.accept_move({ mv.row, mv.col });
					g.moves.push_back(mv);
					played++;
					CHECK(r.json["i"].is(at), "move %u has the index %s", at, r.body.c_str());
					if (g.over()) {
						CHECK(r.json["winner"].is((double)g.board.winner()), "the winner is %u, the response is %s", (unsigned)g.board.winner(), r.body.c_str());
						src.label(g.board.winner() == svc::player_id::none ? "draw" : "won");
					}
					else if (!g.engine_thinks()) {
						CHECK(r.json["winner"].kind == Val::none, "there is a winner already: %s", r.body.c_str());
					}
				}
				continue;
			}
			if (k < 18) {
				fetch((unsigned)(src.draw(4) ? src.draw(g.moves.size() + 2) : src.draw(2) ? 4000000000u : 0));
				continue;
			}
			// Something else.
			static const char* const other[] = { "/", "/game", "/gamesfoo", "/games/", "/games/1", "/games/x/players/0", "/games/1/players", "/games/1/players/x", "/games/1/moves", "/games/1/moves?since=x", "/games/1/moves?since", "/games//players/0", "/x/games" };
			rq.resource = other[src.draw(13)];
			rq.method = src.draw(2) ? "GET" : "POST";
			rq.type = (int)src.draw(3);
			Response r = send(rq);
			CHECK(r.status == 404 || r.status == 400, "%s gets %d", rq.resource.c_str(), r.status);
		}
		if (g.exists) {
			fetch(0);
		}
		wait_idle(w);
		if (src.draw(2)) {
			Request rq;
			rq.method = src.draw(4) ? "POST" : "GET";
			rq.resource = "/shutdown";
			Response r = send(rq);
			CHECK(r.status == (rq.method == "POST" ? 200 : 405), "the shutdown gets %d", r.status);
			wait_idle(w);
		}
		if (played >= 3) {
			src.nontrivial();
		}
		svc::player_agent::_vmem = nullptr;
	}
#endif
}

#if PART != 0
svc::vmem_bundle* svc::player_agent::_vmem = nullptr;
#endif

void tictactoe_service(Src& src);
void connect4_service(Src& src);

#if PART == 1
void tictactoe_service(Src& src) {
	games_case(src);
}
#elif PART == 2
void connect4_service(Src& src) {
	games_case(src);
}
#else
static pbt::Reg c32("C32", 0, 0, "a system of equations that's solved, or three moves in a game", [](Src& src) {
	switch (src.draw(4)) {
		case 0:
			src.note("equations");
			equations_case(src);
			break;
		case 1:
			src.note("connect-four");
			connect4_service(src);
			break;
		default:
			src.note("tic-tac-toe");
			tictactoe_service(src);
			break;
	}
});
#endif
