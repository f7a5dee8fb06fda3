// The car among the samples (PiCar-4WD): its REST service over a simulated board, in virtual time.
#include "pbt.h"
#include "clientjson.h"
#include "sim.h"
#include "fakedev.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <set>
#include <sstream>
#include "ascii.h"
#include "endpoint.h"
#include "gpio.h"
#include "http.h"
#include "json.h"
#include "log.h"
#include "../samples/picar_4wd/car.h"

using pbt::Src;
using pbt::fmt;
using sim::MS;
using sim::US;
using sim::SEC;

namespace {

	using Log = abc::null_log;

	struct Reply {
		int status = 0;
		std::string body;
		std::map<std::string, std::string> headers;
	};

	// The car's service.
	struct Car : public abc::samples::car_endpoint<abc::endpoint_limits, Log> {
		using Base = abc::samples::car_endpoint<abc::endpoint_limits, Log>;
		Car(abc::endpoint_config* c)
			: Base(c, nullptr) {
		}
		bool stopping() const {
			return this->is_shutdown_requested();
		}
		// What the endpoint does with a connection.
		Reply serve(const std::string& in) {
			struct Duplex : public std::stringbuf {
				std::string out;
				Duplex(const std::string& in)
					: std::stringbuf(in, std::ios::in) {
				}
				int_type overflow(int_type c) override {
					if (c != traits_type::eof()) {
						out += (char)c;
					}
					return c;
				}
				std::streamsize xsputn(const char* p, std::streamsize n) override {
					out.append(p, n);
					return n;
				}
			} sb(in);
			std::string error;
			{
				abc::http_server_stream<Log> http(&sb);
				char method[33], resource[2049], protocol[33];
				http.get_method(method, sizeof method);
				http.get_resource(resource, sizeof resource);
				http.get_protocol(protocol, sizeof protocol);
				try {
					this->process_rest_request(http, method, resource);
				}
				catch (const std::exception& ex) {
					error = ex.what();
				}
				http.flush();
			}
			if (!error.empty()) {
				pbt::fail(fmt("the request %s fails: %s", pbt::quote(in).c_str(), error.c_str()));
			}
			const std::string& s = sb.out;
			Reply r;
			CHECK(s.compare(0, 9, "HTTP/1.1 ") == 0, "the response is %s", pbt::quote(s).c_str());
			r.status = atoi(s.c_str() + 9);
			std::size_t p = s.find("\r\n"), e = s.find("\r\n\r\n");
			CHECK(e != std::string::npos, "the response has no end of the headers: %s", pbt::quote(s).c_str());
			while (p != e) {
				std::size_t q = s.find("\r\n", p + 2);
				std::string h = s.substr(p + 2, q - p - 2);
				std::size_t c = h.find(": ");
				CHECK(c != std::string::npos, "the header %s", pbt::quote(h).c_str());
				r.headers[h.substr(0, c)] = h.substr(c + 2);
				p = q;
			}
			r.body = s.substr(e + 4);
			CHECK(r.headers["Content-Length"] == std::to_string(r.body.size()), "Content-Length is %s of a body of %zu", r.headers["Content-Length"].c_str(), r.body.size());
			return r;
		}
	};

	std::string mixed_case(Src& src, std::string s) {
		if (src.chance(1, 4)) {
			for (char& c : s) {
				if (src.draw(2)) {
					c = (char)(isupper((unsigned char)c) ? tolower((unsigned char)c) : toupper((unsigned char)c));
				}
			}
		}
		return s;
	}

	std::string request(Src& src, const std::string& method, const std::string& resource, const std::string& body, bool json = true) {
		std::string s = mixed_case(src, method) + " " + mixed_case(src, resource) + " HTTP/1.1\r\n";
		if (src.draw(2)) {
			s += "Host: car:30305\r\n";
		}
		if (json) {
			s += mixed_case(src, "Content-Type") + ": application/json" + (src.draw(3) == 0 ? "; charset=utf-8" : "") + "\r\n";
		}
		if (src.draw(2)) {
			s += "Accept: */*\r\n";
		}
		return s + fmt("Content-Length: %zu\r\n\r\n", body.size()) + body;
	}

	std::string number_body(Src& src, const char* name, int v) {
		switch (src.draw(3)) {
			case 0: return fmt("{\"%s\":%d}", name, v);
			case 1: return fmt("{ \"%s\" : %d.0 }", name, v);
			default: return fmt("{\r\n\t\"%s\": %d\r\n}", name, v);
		}
	}

	// What the car is told to do.
	struct Drive {
		bool forward = true;
		int power = 0;
		int turn = 0;
		bool operator==(const Drive& o) const {
			return forward == o.forward && power == o.power && turn == o.turn;
		}
		void set_power(int p) {
			forward = p >= 0;
			power = std::abs(p);
			if (p == 0) {
				turn = 0;
			}
		}
		int side(bool left) const {
			int d = 0;
			switch (std::abs(turn)) {
				case 30: d = 11; break;
				case 60: d = 25; break;
				case 90: d = 50; break;
			}
			d = turn < 0 ? -d : d;
			int l = power + d, r = power - d;
			// Both are shifted, so that they fit.
			int over = std::max(std::max(l, r) - 100, 0), under = std::min(std::min(l, r), 0);
			return (left ? l : r) - over - under;
		}
		std::string str() const {
			return fmt("%s power %d turn %d", forward ? "forward" : "backward", power, turn);
		}
	};

	// What the sensor for obstacles allows.
	int cap(int cm) {
		return cm < 5 ? 0 : cm < 10 ? 25 : cm < 20 ? 50 : cm < 30 ? 75 : 100;
	}

	const unsigned HAT = 0x14, MOTION = 0x68, RESET = 21, TRIGGER = 5, ECHO_LINE = 6;
	struct Wheel {
		unsigned reg, timer, line;
		bool left;
		const char* name;
	};
	const Wheel WHEELS[] = {
		{ 0x20 + 0x0d, 0x0d / 4, 23, true, "front left" },
		{ 0x20 + 0x0c, 0x0c / 4, 24, false, "front right" },
		{ 0x20 + 0x08, 0x08 / 4, 13, true, "rear left" },
		{ 0x20 + 0x09, 0x09 / 4, 20, false, "rear right" },
	};
	const unsigned SERVO = 0x20, SERVO_TIMER = 0;
	const unsigned GRAY[3] = { 0x12, 0x11, 0x10 };
	const char* const GRAY_NAMES[3] = { "left", "center", "right" };

	std::uint16_t swapped(std::uint16_t w) {
		return (std::uint16_t)(w >> 8 | w << 8);
	}

	struct Board {
		sim::World& w;
		dev::Bench b;
		dev::Chip* chip;
		dev::Bus* bus;
		std::map<unsigned, std::uint16_t> adc;
		int obstacle_cm = 60;			// -1: nothing in sight
		sim::ns_t echo_from = -1, echo_to = -1;
		std::vector<std::pair<sim::ns_t, unsigned>> trigger;
		std::uint64_t shots = 0, resets = 0;
		int accel = 0, rest = 0;		// what the sensor measures, and what it does at rest
		bool calibrating = false;
		bool watch_flips = false;
		std::string flip;				// a motor that changed its direction under power
		std::vector<std::pair<sim::ns_t, unsigned>> servo;

		Board(Src& src, sim::World& world)
			: w(world) {
			b.ioctl_cost = src.range(5, 20) * US;
			b.chips.push_back(dev::Chip());
			chip = &b.chips.back();
			chip->path = "/dev/gpiochip0";
			chip->name = "gpiochip0";
			chip->lines.resize(54);
			b.buses.push_back(dev::Bus());
			bus = &b.buses.back();
			bus->path = "/dev/i2c-1";
			bus->funcs = ~0ul;
			bus->targets[HAT];
			bus->targets[MOTION];
			for (unsigned r : GRAY) {
				adc[r] = (std::uint16_t)src.draw(65536);
			}
			dev::Target& h = hat();
			h.on_word = [this](unsigned reg, std::uint16_t word) {
				for (unsigned r : GRAY) {
					if (reg == r) {
						std::uint16_t v = adc[reg];
						dev::Target& t = hat();
						t.queue.clear();
						t.queue.push_back((std::uint8_t)(v >> 8));
						t.queue.push_back((std::uint8_t)(v & 0xff));
					}
				}
				if (reg == SERVO) {
					servo.push_back({ w.now, swapped(word) });
				}
			};
			bus->targets[MOTION].word = [this](unsigned reg) -> std::uint16_t {
				return reg == 0x3b ? swapped((std::uint16_t)(rest + (calibrating ? 0 : accel))) : 0;
			};
			chip->lines[ECHO_LINE].input = [this](sim::ns_t t) -> unsigned {
				return t >= echo_from && t < echo_to;
			};
			b.on_put = [this](dev::Chip&, unsigned line, unsigned level) {
				if (line == TRIGGER) {
					if (level == 0 && !trigger.empty() && trigger.back().second == 1) {
						shots++;
						if (obstacle_cm >= 0) {
							echo_from = w.now + 150 * US;
							echo_to = echo_from + (sim::ns_t)((obstacle_cm + 0.5) / 100.0 * 2 / 343 * SEC);
						}
					}
					trigger.push_back({ w.now, level });
				}
				else if (line == RESET && level == 0) {
					// The controller on the hat starts over.
					resets++;
					hat().words.clear();
				}
				else if (watch_flips) {
					for (const Wheel& x : WHEELS) {
						if (x.line == line && level != last_level(line) && ccr(x.reg) != 0 && flip.empty()) {
							flip = fmt("the %s motor changed its direction while its duty cycle was %.0f", x.name, duty(x.reg, x.timer));
						}
					}
				}
			};
		}
		dev::Target& hat() {
			return bus->targets[HAT];
		}
		unsigned last_level(unsigned line) {
			auto& t = chip->lines[line].trace;
			return t.size() < 2 ? 0 : t[t.size() - 2].second;
		}
		unsigned ccr(unsigned reg) {
			auto i = hat().words.find(reg);
			return i == hat().words.end() ? 0 : swapped(i->second);
		}
		double duty(unsigned reg, unsigned timer) {
			unsigned ar = ccr(0x44 + timer) + 1;
			return 100.0 * ccr(reg) / ar;
		}
		// How the wheels differ from what they have to do, or nothing.
		std::string differs(const Drive& d) {
			for (const Wheel& x : WHEELS) {
				double is = duty(x.reg, x.timer);
				int want = d.side(x.left);
				if (std::fabs(is - want) > 0.5) {
					return fmt("the duty cycle of the %s wheel is %.1f instead of %d (%s)", x.name, is, want, d.str().c_str());
				}
				if (want != 0 && (chip->lines[x.line].level == 0) != d.forward) {
					return fmt("the %s wheel turns %s (%s)", x.name, d.forward ? "backward" : "forward", d.str().c_str());
				}
			}
			return "";
		}
		bool stands() {
			for (const Wheel& x : WHEELS) {
				if (ccr(x.reg) != 0) {
					return false;
				}
			}
			return true;
		}
	};

	// A number in the response, which has to be valid JSON.
	double json_number(const std::string& s, const char* a, const char* b) {
		const clientjson::Val all = clientjson::Parser(s).all();
		const clientjson::Val& v = all[a][b];
		CHECK(v.kind == clientjson::Val::number, "there is no number %s.%s in %s", a, b, pbt::quote(s).c_str());
		if (strcmp(a, "grayscale") != 0) {
			CHECK(all[a]["units"].kind == clientjson::Val::string && all[a]["units"].str == "cm", "the units of %s are missing in %s", a, pbt::quote(s).c_str());
		}
		return v.num;
	}

	void car_case(Src& src) {
		sim::World w(src);
		w.preempt = src.chance(1, 3) ? 0 : 1 + (unsigned)src.draw(8);
		w.oversleep = src.chance(1, 2) ? 0 : src.range(1, 1000) * US;
		w.start_delay = src.chance(2, 3) ? 0 : src.range(1, 300) * MS;
		Board board(src, w);
		board.b.ioctl_cost = src.range(5, 20) * US;
		static const int far[] = { 35, 60, 90, -1 };
		board.obstacle_cm = far[src.draw(4)];
		board.accel = src.chance(1, 3) ? (int)src.range(-2000, 2000) : 0;
		abc::endpoint_config config("30305", 5, "/nonexistent", "/resources/");
		// The memory of the service isn't clean.
		void* mem = malloc(sizeof(Car));
		memset(mem, (int)src.draw(256), sizeof(Car));
		struct Free {
			void* p;
			~Free() { free(p); }
		} freed{ mem };
		board.rest = src.chance(1, 2) ? (int)src.range(-1000, 1000) : 0;
		board.calibrating = true;
		Car* car = new (mem) Car(&config);
		board.calibrating = false;
		board.b.check();
		CHECK(board.resets >= 1, "the hat was not reset");

		if (src.chance(1, 8)) {
			// Not measured yet, or just so.
			Reply r = car->serve(request(src, "GET", "/autos", "", src.draw(2)));
			CHECK(r.status == 200, "autos got %d", r.status);
			for (int k = 0; k < 3; k++) {
				double g = json_number(r.body, "grayscale", GRAY_NAMES[k]);
				CHECK(g == 0 || g == board.adc[GRAY[k]], "the %s grayscale is %g in the beginning, instead of %u or 0", GRAY_NAMES[k], g, board.adc[GRAY[k]]);
			}
		}
		Drive now;					// what the car does
		bool fuzzy = false;			// the sensor may have lowered the power since
		std::size_t requests = 0, changes = 0, limited = 0, raced = 0, tracked = 0;
		const sim::ns_t loop = 250 * MS + 60 * MS + w.oversleep + w.start_delay;	// longer than one round of the car's own thread
		auto settle = [&] {
			sim::sleep_ns(6 * loop);
			if (now.forward && board.obstacle_cm >= 0) {
				int c = std::min(now.power, cap(board.obstacle_cm));
				limited += c < now.power;
				now.power = c;
			}
			fuzzy = false;
			std::string d = board.differs(now);
			CHECK(d.empty(), "%s, obstacle at %d cm", d.c_str(), board.obstacle_cm);
		};
		auto near = [&] { return board.obstacle_cm >= 0 && cap(board.obstacle_cm) < 100; };
		auto check_now = [&](const char* what) {
			board.b.check();
			if (near()) {
				fuzzy = fuzzy || (now.forward && now.power > cap(board.obstacle_cm));
			}
			if (!fuzzy) {
				std::string d = board.differs(now);
				CHECK(d.empty(), "after %s, %s", what, d.c_str());
			}
		};
		static const int powers[] = { -100, -75, -50, -25, 0, 25, 50, 75, 100 };
		static const int turns[] = { -90, -60, -30, 0, 30, 60, 90 };
		CHECK(board.stands(), "the car moves before the first request");
		std::size_t steps = 2 + src.len(12);
		double depth = 0;
		bool parked = false;		// the car has been standing since depth was read
		for (std::size_t s = 0; s < steps; s++) {
			switch (src.draw(11)) {
				case 0:
				case 1:
				case 2: {
					if (fuzzy) {
						settle();
					}
					int p = powers[src.draw(9)];
					src.note(fmt("power %d", p));
					board.watch_flips = p != 0 && now.power != 0;
					Reply r = car->serve(request(src, "POST", "/power", number_body(src, "power", p)));
					board.watch_flips = false;
					CHECK(r.status == 200, "power %d got %d %s", p, r.status, r.body.c_str());
					CHECK(board.flip.empty(), "%s", board.flip.c_str());
					changes += now.power != 0 && p != 0 && now.forward != (p > 0);
					now.set_power(p);
					parked = parked && p == 0;
					check_now("a request for power");
					if (!fuzzy) {
						CHECK(r.body == fmt("power: forward=%d, power=%d, turn=%d", now.forward, now.power, now.turn), "the response is %s, expected %s", r.body.c_str(), now.str().c_str());
					}
					requests++;
					break;
				}
				case 3:
				case 4: {
					if (fuzzy) {
						settle();
					}
					int t = turns[src.draw(7)];
					src.note(fmt("turn %d", t));
					Reply r = car->serve(request(src, "POST", "/turn", number_body(src, "turn", t)));
					CHECK(r.status == 200, "turn %d got %d %s", t, r.status, r.body.c_str());
					now.turn = t;
					check_now("a request for a turn");
					if (!fuzzy) {
						CHECK(r.body == fmt("turn: power=%d, turn=%d", now.power, now.turn), "the response is %s, expected %s", r.body.c_str(), now.str().c_str());
					}
					requests++;
					break;
				}
				case 5: {
					// An obstacle appears or disappears.
					static const int at[] = { 2, 7, 15, 25, 35, 60, 90, -1 };
					if (fuzzy) {
						settle();
					}
					board.obstacle_cm = at[src.draw(8)];
					src.note(fmt("obstacle at %d cm", board.obstacle_cm));
					fuzzy = true;
					settle();
					break;
				}
				case 6: {
					settle();
					for (unsigned r : GRAY) {
						board.adc[r] = (std::uint16_t)src.draw(65536);
					}
					sim::sleep_ns(2 * loop);
					Reply r = car->serve(request(src, "GET", "/autos", "", src.draw(2)));
					src.note("autos: " + r.body);
					CHECK(r.status == 200 && r.headers["Content-Type"] == "application/json", "the response is %d, %s", r.status, r.headers["Content-Type"].c_str());
					double o = json_number(r.body, "obstacle", "distance");
					double want = board.obstacle_cm < 0 ? 100 : board.obstacle_cm;
					CHECK(std::fabs(o - want) <= 2, "an obstacle at %d cm is reported at %g cm", board.obstacle_cm, o);
					for (int k = 0; k < 3; k++) {
						double g = json_number(r.body, "grayscale", GRAY_NAMES[k]);
						CHECK(g == board.adc[GRAY[k]], "the %s grayscale is %g instead of %u", GRAY_NAMES[k], g, board.adc[GRAY[k]]);
					}
					double d = json_number(r.body, "depth", "distance");
					json_number(r.body, "width", "distance");
					CHECK(!parked || d == depth, "the depth changed from %g to %g while the car was standing", depth, d);
					depth = d;
					parked = now.power == 0 && !near() && board.stands();
					CHECK(board.accel != 0 || std::fabs(d) < 0.001, "the depth is %g while there's no acceleration", d);
					if (now.power != 0 && !near() && std::abs(board.accel) >= 300) {
						// It accelerates since it began to drive.
						sim::sleep_ns(300 * MS);
						r = car->serve(request(src, "GET", "/autos", "", false));
						double from = json_number(r.body, "depth", "distance");
						sim::sleep_ns(100 * MS);
						r = car->serve(request(src, "GET", "/autos", "", false));
						double to = json_number(r.body, "depth", "distance");
						CHECK(board.accel > 0 ? to > from : to < from, "the depth goes from %g to %g in 100 ms of driving while the acceleration is %d", from, to, board.accel);
						depth = to;
						tracked++;
					}
					requests++;
					break;
				}
				case 7: {
					static const int angles[] = { -90, -60, -30, 0, 30, 60, 90 };
					int a = angles[src.draw(7)];
					src.note(fmt("servo %d", a));
					board.servo.clear();
					sim::ns_t t0 = w.now;
					Reply r = car->serve(request(src, "POST", "/servo", number_body(src, "angle", a)));
					CHECK(r.status == 200, "the angle %d got %d %s", a, r.status, r.body.c_str());
					// From 2.5 ms at the one end to 0.5 ms at the other.
					CHECK(board.servo.size() == 2 && board.servo[1].second == 0, "the servo was set %zu times", board.servo.size());
					unsigned ps = board.ccr(0x40 + SERVO_TIMER) + 1;
					double us = board.servo[0].second * (double)ps / 72.0;
					double want = 1500 - 1000.0 * a / 92;
					CHECK(std::fabs(us - want) <= 25, "the angle %d makes pulses of %.0f us instead of %.0f us", a, us, want);
					CHECK(board.servo[1].first - board.servo[0].first >= 250 * MS, "the pulses for the angle %d last %lld us", a, (long long)((board.servo[1].first - board.servo[0].first) / US));
					CHECK(r.body == fmt("servo: angle=%d", a), "the response is %s", r.body.c_str());
					CHECK(w.now - t0 < 400 * MS + w.oversleep, "the angle took %lld us", (long long)((w.now - t0) / US));
					check_now("an angle");
					requests++;
					break;
				}
				case 8: {
					// A request that has to be refused.
					if (fuzzy) {
						settle();
					}
					static const char* const res[] = { "/power", "/turn", "/servo" };
					static const char* const prop[] = { "power", "turn", "angle" };
					std::size_t k = src.draw(3);
					std::string method = "POST", path = res[k], body;
					bool json = true;
					int want = 400;
					static const int good[] = { 25, 30, -30 };
					switch (src.draw(7)) {
						case 0: {
							int v;
							do {
								v = (int)src.range(-300, 300);
							} while (std::abs(v) <= (k == 0 ? 100 : 90) && v % (k == 0 ? 25 : 30) == 0);
							body = number_body(src, prop[k], v);
							break;
						}
						case 1: body = number_body(src, prop[(k + 1 + src.draw(2)) % 3], 0); break;
						case 2: {
							static const char* const b[] = { "", "[]", "0", "\"power\"", "{", "{}", "null", "[{\"power\": 0}]", "{\"power\"}", "{\"power\": \"25\"}", "{\"turn\": null}", "{\"angle\": [0]}", "{\"power\": true}", "{\"POWER\": 25}" };
							body = b[src.draw(14)];
							break;
						}
						case 3: body = number_body(src, prop[k], good[k]); json = false; break;
						case 4: {
							static const char* const m[] = { "GET", "PUT", "DELETE", "POS", "POSTS" };
							method = m[src.draw(5)];
							body = number_body(src, prop[k], good[k]);
							want = 405;
							break;
						}
						case 5: {
							static const char* const p[] = { "/", "/powers", "/turn/", "/auto", "/engine", "/power?x", "/shutdowns" };
							path = p[src.draw(7)];
							body = number_body(src, prop[k], good[k]);
							want = 404;
							break;
						}
						default:
							path = src.draw(2) ? "/autos" : "/shutdown";
							method = path == "/autos" ? "POST" : "GET";
							want = 405;
							break;
					}
					src.note("refused: " + method + " " + path + " " + body);
					std::size_t before = board.servo.size();
					Reply r = car->serve(request(src, method, path, body, json));
					CHECK(r.status == want, "%s %s %s got %d %s, expected %d", method.c_str(), path.c_str(), pbt::quote(body).c_str(), r.status, r.body.c_str(), want);
					CHECK(board.servo.size() == before, "a refused request moved the servo");
					CHECK(!car->stopping(), "a refused request shut the service down");
					check_now("a refused request");
					requests++;
					break;
				}
				case 9: {
					// Requests at the same time.
					settle();
					if (near()) {
						break;
					}
					std::size_t n = 2 + src.draw(2);
					std::vector<std::pair<bool, int>> r;
					std::vector<std::string> text;
					for (std::size_t i = 0; i < n; i++) {
						bool p = src.draw(2);
						int v = p ? powers[src.draw(9)] : turns[src.draw(7)];
						r.push_back({ p, v });
						text.push_back(request(src, "POST", p ? "/power" : "/turn", number_body(src, p ? "power" : "turn", v)));
						src.note(fmt("at the same time: %s %d", p ? "power" : "turn", v));
					}
					{
						std::vector<std::thread> t;
						for (std::size_t i = 0; i < n; i++) {
							t.emplace_back([car, &text, i] {
								Reply r = car->serve(text[i]);
								CHECK(r.status == 200, "one of several requests got %d %s", r.status, r.body.c_str());
							});
						}
						for (auto& x : t) {
							x.join();
						}
					}
					board.b.check();
					// The outcome is that of some order.
					std::vector<std::size_t> order;
					for (std::size_t i = 0; i < n; i++) {
						order.push_back(i);
					}
					bool found = false;
					std::string why;
					Drive result;
					std::vector<Drive> matches;
					do {
						Drive d = now;
						for (std::size_t i : order) {
							r[i].first ? d.set_power(r[i].second) : (void)(d.turn = r[i].second);
						}
						std::string x = board.differs(d);
						if (x.empty()) {
							matches.push_back(d);
							found = true;
						}
						else {
							why = x;
						}
					} while (std::next_permutation(order.begin(), order.end()));
					CHECK(found, "after requests at the same time, the wheels do what no order of them makes them do: %s", why.c_str());
					raced++;
					requests += n;
					// Which one exactly shows after the next turn.
					Reply q = car->serve(request(src, "POST", "/turn", number_body(src, "turn", matches[0].turn)));
					int power = -1;
					CHECK(q.status == 200 && sscanf(q.body.c_str(), "turn: power=%d", &power) == 1, "the response is %d %s", q.status, q.body.c_str());
					bool same = false;
					for (Drive d : matches) {
						Drive e = d;
						e.turn = matches[0].turn;
						if (e.power == power && board.differs(e).empty()) {
							now = e;
							same = true;
						}
					}
					CHECK(same, "after requests at the same time, %s doesn't go with what the wheels do", q.body.c_str());
					parked = false;
					// A standing car keeps the direction of the last request.
					if (now.power == 0) {
						Reply z = car->serve(request(src, "POST", "/power", number_body(src, "power", 0)));
						CHECK(z.status == 200, "power 0 got %d", z.status);
						now.set_power(0);
						check_now("a stop");
					}
					break;
				}
				default:
					src.note("wait");
					sim::sleep_ns(src.range(1, 700) * MS);
					if (fuzzy) {
						settle();
					}
					check_now("a while");
					break;
			}
			board.b.check();
		}
		// The end, possibly just while the sensor is slowing the car down.
		if (src.draw(2)) {
			settle();
			int p = 25 * (int)(1 + src.draw(4));
			Reply r = car->serve(request(src, "POST", "/power", number_body(src, "power", p)));
			CHECK(r.status == 200, "power %d got %d", p, r.status);
			board.obstacle_cm = 2;
			sim::sleep_ns(src.range(0, 600) * MS);
		}
		src.note("shutdown");
		bool twice = src.chance(1, 4);
		sim::ns_t t0 = w.now;
		std::thread late;
		if (src.chance(1, 4)) {
			std::string text = request(src, "POST", "/power", number_body(src, "power", powers[src.draw(9)]));
			late = std::thread([car, text] {
				Reply r = car->serve(text);
				CHECK(r.status == 200, "a request during the shutdown got %d %s", r.status, r.body.c_str());
			});
		}
		Reply r = car->serve(request(src, "POST", "/shutdown", "", src.draw(2)));
		if (late.joinable()) {
			late.join();
			src.label("a request during the shutdown");
		}
		CHECK(r.status == 200, "shutdown got %d %s", r.status, r.body.c_str());
		CHECK(car->stopping(), "the service doesn't stop");
		CHECK(w.now - t0 < SEC, "shutdown took %lld us", (long long)((w.now - t0) / US));
		CHECK(board.resets >= 2, "the hat was not reset on shutdown");
		CHECK(board.stands(), "the car moves after the shutdown");
		std::uint64_t shots = board.shots;
		sim::sleep_ns(SEC);
		CHECK(board.stands(), "the car moves again after the shutdown");
		CHECK(board.shots == shots, "the sensors are still read after the shutdown");
		if (twice) {
			r = car->serve(request(src, "POST", "/shutdown", "", src.draw(2)));
			CHECK(r.status == 200, "a second shutdown got %d %s", r.status, r.body.c_str());
			src.label("shut down twice");
		}
		car->~Car();
		board.b.check();
		CHECK(board.b.open.empty(), "%zu descriptors are still open in the end", board.b.open.size());
		CHECK(w.all_done(), "a thread is left behind");
		if (limited) src.label("slowed down by an obstacle");
		if (changes) src.label("changed its direction");
		if (tracked) src.label("tracked its motion");
		if (raced) src.label("requests at the same time");
		if (requests >= 4) {
			src.nontrivial();
		}
	}
}

static int limits = (pbt::case_wall_limit() = 120, 0);
static pbt::Reg r33("C33", 0, 0, "a case is a car, a sequence of requests, some at the same time, and obstacles; non-trivial with at least 4 requests before the shutdown", car_case);
