// HTTP: the reader on well-formed messages, the reader on anything, the writer, the parameters of a resource.
#include "pbt.h"
#include "streams.h"
#include "http.h"

using pbt::Src;
using pbt::fmt;
namespace item = abc::http::item;

// ---------------------------------------------------------------- chars

static bool is_sp(char c) {
	return c == ' ' || c == '\t';
}
static bool is_print(char c) {
	return c > 0x20 && c < 0x7f;
}
static bool is_token(char c) {
	return is_print(c) && strchr("()<>[]{}@,;:\\/\"?=", c) == nullptr;
}
static bool is_alpha(char c) {
	return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
}
static bool is_digit(char c) {
	return c >= '0' && c <= '9';
}
static bool is_print_sp(char c) {
	return is_print(c) || is_sp(c);
}

template <typename P>
static std::string gen_run(Src& src, P pred, std::size_t len) {
	std::string s;
	while (s.size() < len) {
		char c;
		if (src.draw(3) == 2) {
			c = (char)(0x20 + src.draw(0x5f));
		}
		else {
			c = "aZ0-x_.~!9"[src.draw(10)];
		}
		s.push_back(pred(c) ? c : pred('a') ? 'a' : '1');
	}
	return s;
}

static std::string gen_digits(Src& src, std::size_t len) {
	std::string s;
	while (s.size() < len) {
		s.push_back((char)('0' + src.draw(10)));
	}
	return s;
}

static std::string gen_token(Src& src) {
	static const std::vector<std::string> known = { "GET", "POST", "Host", "Content-Length", "Content-Type", "X", "HTTP" };
	if (src.draw(2) == 0) {
		return src.pick(known);
	}
	return gen_run(src, is_token, 1 + src.len(300));
}

static std::string gen_protocol(Src& src) {
	std::string s = "HTTP";
	if (src.draw(4) == 3) {
		for (auto& c : s) {
			if (src.draw(2)) {
				c = (char)(c | 0x20);
			}
		}
	}
	if (src.draw(3) != 2) {
		return s + "/1." + (char)('0' + src.draw(2));
	}
	return s + "/" + gen_digits(src, 1 + src.draw(5)) + "." + gen_digits(src, 1 + src.draw(5));
}

// ---------------------------------------------------------------- messages

struct Msg {
	bool request = true;
	std::string method, resource, protocol, status, reason;
	std::vector<std::pair<std::string, std::vector<std::string>>> headers;		// name, words of the value
	std::string body;
};

static std::string joined(const std::vector<std::string>& words) {
	std::string s;
	for (auto& w : words) {
		if (!s.empty()) {
			s += ' ';
		}
		s += w;
	}
	return s;
}

static Msg gen_msg(Src& src, bool request) {
	Msg m;
	m.request = request;
	m.protocol = gen_protocol(src);
	if (request) {
		m.method = gen_token(src);
		m.resource = "/" + (src.draw(2) ? gen_run(src, is_print, src.len(400)) : std::string("a?b=c"));
	}
	else {
		m.status = src.draw(3) ? "200" : gen_digits(src, 1 + src.draw(6));
		if (src.draw(4)) {
			// No space at the front, anything at the end.
			m.reason = gen_run(src, is_print, 1) + gen_run(src, is_print_sp, src.len(100));
		}
	}
	std::size_t n = src.len(20);
	for (std::size_t i = 0; i < n; i++) {
		std::vector<std::string> words;
		std::size_t w = src.draw(5);
		for (std::size_t j = 0; j < w; j++) {
			words.push_back(gen_run(src, is_print, 1 + src.len(j == 0 ? 200 : 20)));
		}
		m.headers.emplace_back(gen_token(src), words);
	}
	std::size_t b = src.draw(3) == 0 ? 0 : src.len(2000);
	bool text = src.draw(2);
	for (std::size_t i = 0; i < b; i++) {
		m.body.push_back(text ? (char)(0x20 + src.draw(0x5f)) : (char)src.draw(256));
	}
	return m;
}

static std::string gen_sp(Src& src, std::size_t min) {
	std::string s;
	std::size_t n = min + (src.draw(4) == 3 ? src.draw(4) : 0);
	for (std::size_t i = 0; i < n; i++) {
		s.push_back(src.draw(4) == 3 ? '\t' : ' ');
	}
	return s;
}

static std::string gen_gap(Src& src, std::size_t min, bool fold) {
	std::string s = gen_sp(src, min);
	while (fold && src.draw(6) == 5) {
		s += "\r\n";
		s += gen_sp(src, 1);
	}
	return s;
}

static std::string render(Src& src, const Msg& m) {
	std::string s;
	bool fold = src.draw(2);
	if (m.request) {
		s = m.method + gen_sp(src, 1) + m.resource + gen_sp(src, 1) + m.protocol + gen_sp(src, 0) + "\r\n";
	}
	else {
		s = m.protocol + gen_sp(src, 1) + m.status;
		s += m.reason.empty() ? gen_sp(src, 0) : gen_sp(src, 1) + m.reason;
		s += "\r\n";
	}
	for (auto& h : m.headers) {
		s += h.first + gen_sp(src, 0) + ":";
		for (std::size_t i = 0; i < h.second.size(); i++) {
			s += gen_gap(src, i == 0 ? 0 : 1, fold);
			s += h.second[i];
		}
		s += gen_gap(src, 0, fold);
		s += "\r\n";
	}
	return s + "\r\n" + m.body;
}

// ---------------------------------------------------------------- reference reader
//
// Reads the parts of a message one by one from a text.  ok: the part is there, completely.  loose: the text is not
// well-formed around the part, although the part could be delivered; refusing it is just as good.

struct Part {
	std::string value;
	bool ok = true;
	bool loose = false;
	bool end = false;		// the end of the headers
	bool is_short = false;	// the buffer is too short
};

class Ref {
public:
	explicit Ref(const std::string& t) : _t(t) {
	}
	bool dirty = false;		// the text has left the grammar; positions are those of a lenient reader
	std::size_t pos() const {
		return _p;
	}

	Part simple(bool (*pred)(char), std::size_t max, bool at_line_end, bool crlf, bool spaces_in = false) {
		Part r;
		r.value = run(pred, max, r);
		if (!r.ok) {
			return r;
		}
		if (r.value.empty() && !spaces_in) {
			r.loose = true;
		}
		std::size_t sp = spaces(r);
		if (!at_line_end && sp == 0) {
			r.loose = true;
		}
		if (r.ok && crlf) {
			line_end(r);
		}
		return r;
	}
	Part protocol(std::size_t max, bool request) {
		Part r;
		r.value = run(is_alpha, max, r);
		if (!r.ok || r.value.size() != 4 || strcasecmp(r.value.c_str(), "HTTP") != 0) {
			r.ok = false;
			return r;
		}
		for (char c : { '/', '.' }) {
			if (r.value.size() == max) {
				r.ok = false;
				r.is_short = true;
				return r;
			}
			if (peek() != c) {
				r.ok = false;
				return r;
			}
			_p++;
			r.value.push_back(c);
			std::string d = run(is_digit, max - r.value.size(), r);
			r.value += d;
			if (!r.ok) {
				return r;
			}
			if (d.empty()) {
				r.loose = true;
			}
		}
		std::size_t sp = spaces(r);
		if (request) {
			if (r.ok) {
				line_end(r);
			}
		}
		else if (sp == 0) {
			r.loose = true;
		}
		return r;
	}
	Part header_name(std::size_t max) {
		Part r;
		r.value = run(is_token, max, r);
		if (!r.ok) {
			return r;
		}
		std::size_t sp = spaces(r);
		if (!r.ok) {
			return r;
		}
		if (r.value.empty()) {
			r.end = true;
			if (sp > 0) {
				r.loose = true;
			}
			line_end(r);
			return r;
		}
		if (peek() != ':') {
			r.ok = false;
			return r;
		}
		_p++;
		spaces(r);
		return r;
	}
	Part header_value(std::size_t max) {
		Part r;
		for (;;) {
			std::size_t sp = spaces(r);
			if (!r.ok) {
				return r;
			}
			if (is_print(_t[_p])) {
				if (!r.value.empty() && sp > 0) {
					if (r.value.size() == max) {
						r.ok = false;
						r.is_short = true;
						return r;
					}
					r.value.push_back(' ');
				}
				r.value += run(is_print, max - r.value.size(), r);
				if (!r.ok) {
					return r;
				}
				continue;
			}
			line_end(r);
			if (!r.ok) {
				return r;
			}
			if (!look(r)) {
				return r;
			}
			if (!is_sp(_t[_p])) {
				return r;
			}
			_fold = true;
		}
	}
	Part body(std::size_t n) {
		Part r;
		r.value = _t.substr(_p, n);
		_p += r.value.size();
		r.ok = r.value.size() == n;
		return r;
	}

private:
	int peek() const {
		return _p < _t.size() ? (unsigned char)_t[_p] : -1;
	}
	// The reader looks at the next char: it must be there, and be ASCII.
	bool look(Part& r) {
		if (_p == _t.size() || (unsigned char)_t[_p] >= 0x80) {
			r.ok = false;
		}
		return r.ok;
	}
	std::string run(bool (*pred)(char), std::size_t max, Part& r) {
		std::string s;
		while (look(r) && pred(_t[_p])) {
			if (s.size() == max) {
				r.ok = false;
				r.is_short = true;
				break;
			}
			s.push_back(_t[_p++]);
		}
		return s;
	}
	std::size_t spaces(Part& r) {
		std::size_t n = 0;
		while (look(r) && is_sp(_t[_p])) {
			_p++;
			n++;
		}
		return n;
	}
	void line_end(Part& r) {
		if (_p + 1 < _t.size() && _t[_p] == '\r' && _t[_p + 1] == '\n') {
			_p += 2;
		}
		else {
			r.ok = false;
		}
	}

	std::string _t;
	std::size_t _p = 0;
	bool _fold = false;
};

// ---------------------------------------------------------------- the reader under test

// A reader of requests or of responses, alone or as a part of a two-way stream; it can be moved.
template <typename In, typename Both, typename Log>
struct Reader {
	std::unique_ptr<In> alone;
	std::unique_ptr<Both> both;

	Reader(Src& src, std::streambuf* sb, Log* log) {
		if (src.draw(2) == 0) {
			alone.reset(new In(sb, log));
		}
		else {
			both.reset(new Both(sb, log));
		}
	}
	In& in() {
		return alone ? *alone : static_cast<In&>(*both);
	}
	void move() {
		if (alone) {
			std::unique_ptr<In> o(new In(std::move(*alone)));
			alone = std::move(o);
		}
		else {
			std::unique_ptr<Both> o(new Both(std::move(*both)));
			both = std::move(o);
		}
	}
};

struct ReadStats {
	std::size_t parts = 0, folded = 0, moved = 0, misordered = 0, refused = 0, shorts = 0, messages = 0;
};

static const char* item_name(unsigned i) {
	static const char* names[] = { "method", "resource", "protocol", "status_code", "reason_phrase", "header_name", "header_value", "body" };
	return i < 8 ? names[i] : "?";
}

template <typename Log>
using ReqIn = Reader<abc::http_request_istream<Log>, abc::http_server_stream<Log>, Log>;
template <typename Log>
using RespIn = Reader<abc::http_response_istream<Log>, abc::http_client_stream<Log>, Log>;

template <typename Log>
static void call(ReqIn<Log>& rd, unsigned it, char* b, std::size_t n) {
	auto& in = rd.in();
	switch (it) {
		case item::method: in.get_method(b, n); break;
		case item::resource: in.get_resource(b, n); break;
		case item::protocol: in.get_protocol(b, n); break;
		case item::header_name: in.get_header_name(b, n); break;
		case item::header_value: in.get_header_value(b, n); break;
		default: in.get_body(b, n); break;
	}
}
template <typename Log>
static void call(RespIn<Log>& rd, unsigned it, char* b, std::size_t n) {
	auto& in = rd.in();
	switch (it) {
		case item::protocol: in.get_protocol(b, n); break;
		case item::status_code: in.get_status_code(b, n); break;
		case item::reason_phrase: in.get_reason_phrase(b, n); break;
		case item::header_name: in.get_header_name(b, n); break;
		case item::header_value: in.get_header_value(b, n); break;
		default: in.get_body(b, n); break;
	}
}
static const std::vector<unsigned> req_items = { item::method, item::resource, item::protocol, item::header_name, item::header_value, item::body };
static const std::vector<unsigned> resp_items = { item::protocol, item::status_code, item::reason_phrase, item::header_name, item::header_value, item::body };

// Reads the messages in text.  strict: every part has to be delivered.
template <typename R, typename Log>
static ReadStats read_messages(Src& src, const std::string& text, const std::vector<std::size_t>& bodies, bool request, bool strict, bool shorts) {
	ReadStats st;
	LogBox<Log> lb;
	src.note(fmt("%s text=%s", request ? "request" : "response", pbt::quote(text, 3000).c_str()));
	Source so(src, text);
	R rd(src, so.sb.get(), lb.get());
	Ref ref(text);
	const std::vector<unsigned>& items = request ? req_items : resp_items;
	unsigned size_mode = src.draw(3);
	for (std::size_t m = 0; m < bodies.size(); m++) {
		if (m > 0) {
			rd.in().reset();
			src.note("reset()");
		}
		unsigned it = items[0];
		std::size_t body_left = bodies[m];
		for (std::size_t calls = 0;; calls++) {
			CHECK(calls <= 4 * text.size() + 40, "the reader delivered more parts than the text can hold");
			if (src.draw(12) == 11) {
				src.note("move the reader");
				rd.move();
				st.moved++;
			}
			CHECK(rd.in().next() == it, "next() is %s, expected %s", item_name(rd.in().next()), item_name(it));
			if (src.draw(16) == 15) {
				unsigned wrong = src.pick(items);
				if (wrong != it) {
					char b[64];
					memset(b, 0x5a, sizeof b);
					bool threw = false;
					try {
						call(rd, wrong, b, sizeof b);
					}
					catch (const std::logic_error&) {
						threw = true;
					}
					CHECK(threw, "%s was read where %s is due", item_name(wrong), item_name(it));
					CHECK(rd.in().next() == it, "a refused call changed next() to %s", item_name(rd.in().next()));
					CHECK(!rd.in().fail(), "a refused call failed the stream");
					for (char c : b) {
						CHECK(c == 0x5a, "a refused call wrote to the buffer");
					}
					st.misordered++;
				}
			}
			if (it == item::body && body_left == 0) {
				break;
			}
			// What is there?  First with all the space of the world, to know what is needed.
			Ref probe = ref;
			std::size_t body_n = 0;
			auto next = [&](Ref& r, std::size_t max) {
				switch (it) {
					case item::method: return r.simple(is_token, max, false, false);
					case item::resource: return r.simple(is_print, max, false, false);
					case item::protocol: return r.protocol(max, request);
					case item::status_code: {
						Part p = r.simple(is_digit, max, true, false);
						return p;
					}
					case item::reason_phrase: return r.simple(is_print_sp, max, true, true, true);
					case item::header_name: return r.header_name(max);
					case item::header_value: return r.header_value(max);
					default: return r.body(body_n);
				}
			};
			std::size_t term = it == item::body ? 0 : it == item::resource ? 2 : 1;
			std::size_t size;
			if (it == item::body) {
				body_n = 1 + src.draw(body_left);
				if (src.draw(2)) {
					body_n = body_left;
				}
				size = body_n;
			}
			else {
				std::size_t need = next(probe, (std::size_t)1 << 40).value.size() + term;
				size = need + (size_mode == 1 ? src.draw(40) : size_mode == 2 && !strict ? 200 : 0);
				if (shorts && need > term && src.draw(6) == 5) {
					size = term + src.draw(need - term);
				}
			}
			Part e = next(ref, size - term);
			// An exact allocation: an access outside is reported by the sanitizer.
			std::unique_ptr<char[]> b(new char[size]);
			memset(b.get(), 0x5a, size);
			call(rd, it, b.get(), size);
			std::size_t g = rd.in().gcount();
			bool failed = rd.in().fail();
			CHECK(g + term <= size, "%s: gcount() is %zu with a buffer of %zu", item_name(it), g, size);
			std::string got(b.get(), g);
			src.note(fmt("get_%s(%zu) -> %s%s", item_name(it), size, pbt::quote(got).c_str(), failed ? ", failed" : ""));
			for (std::size_t i = 0; i < term; i++) {
				if (it != item::header_name && it != item::header_value && it != item::protocol) {
					CHECK(b[g + i] == 0, "%s: the buffer is not terminated", item_name(it));
				}
				else if (i == 0 && !failed) {
					CHECK(b[g] == 0, "%s: the buffer is not terminated", item_name(it));
				}
			}
			CHECK(memchr(b.get(), 0, size) != nullptr || it == item::body, "%s: the buffer is not terminated", item_name(it));
			st.parts++;
			if (strict) {
				CHECK(e.ok && !e.loose, "harness: a rendered message is not well-formed at %s", item_name(it));
			}
			if (e.ok && !e.loose && !ref.dirty) {
				CHECK(!failed, "%s was refused, although it is well-formed", item_name(it));
			}
			if (!e.ok) {
				CHECK(failed, "%s: a %s was accepted", item_name(it), e.is_short ? "buffer that is too short" : "malformed or truncated text");
			}
			if (!failed) {
				CHECK(got == e.value, "%s: delivered %s, expected %s", item_name(it), pbt::quote(got).c_str(), pbt::quote(e.value).c_str());
			}
			else {
				CHECK(e.value.compare(0, g, got) == 0, "%s: delivered %s before it was refused; the text has %s", item_name(it), pbt::quote(got).c_str(), pbt::quote(e.value).c_str());
				st.refused++;
				st.shorts += e.is_short;
				// It stays refused, and nothing more is delivered.
				for (int i = 0; i < 3; i++) {
					unsigned nx = rd.in().next();
					char c[8];
					memset(c, 0x5a, sizeof c);
					call(rd, nx, c, sizeof c);
					CHECK(rd.in().fail(), "the reader recovered from a failure by itself");
					CHECK(rd.in().gcount() == 0, "after a failure the reader delivered %zu chars of %s", rd.in().gcount(), item_name(nx));
				}
				return st;
			}
			if (e.loose) {
				ref.dirty = true;
			}
			switch (it) {
				case item::method: it = item::resource; break;
				case item::resource: it = item::protocol; break;
				case item::protocol: it = request ? item::header_name : item::status_code; break;
				case item::status_code: it = item::reason_phrase; break;
				case item::reason_phrase: it = item::header_name; break;
				case item::header_name: it = e.end ? item::body : item::header_value; break;
				case item::header_value: it = item::header_name; break;
				default: body_left -= g; break;
			}
		}
		st.messages++;
	}
	return st;
}

template <typename Log>
static ReadStats read_either(Src& src, const std::string& text, const std::vector<std::size_t>& bodies, bool request, bool strict, bool shorts) {
	if (request) {
		return read_messages<ReqIn<Log>, Log>(src, text, bodies, true, strict, shorts);
	}
	return read_messages<RespIn<Log>, Log>(src, text, bodies, false, strict, shorts);
}

static ReadStats read_any(Src& src, const std::string& text, const std::vector<std::size_t>& bodies, bool request, bool strict, bool shorts) {
	if (src.draw(6) == 5) {
		src.label("with a log attached");
		return read_either<RealLog>(src, text, bodies, request, strict, shorts);
	}
	return read_either<NullLog>(src, text, bodies, request, strict, shorts);
}

static void c17(Src& src) {
	bool request = src.draw(2) == 0;
	std::size_t n = src.draw(4) == 3 ? 1 + src.draw(3) : 1;
	std::string text;
	std::vector<std::size_t> bodies;
	std::size_t headers = 0, words = 0;
	for (std::size_t i = 0; i < n; i++) {
		Msg m = gen_msg(src, request);
		text += render(src, m);
		bodies.push_back(m.body.size());
		headers += m.headers.size();
		for (auto& h : m.headers) {
			words += h.second.size() > 1;
		}
	}
	ReadStats st = read_any(src, text, bodies, request, true, false);
	if (headers > 0 && words > 0) {
		src.nontrivial();
	}
	if (n > 1) {
		src.label("several messages on one stream");
	}
	if (st.moved) {
		src.label("moved between parts");
	}
	if (st.misordered) {
		src.label("a part out of order refused");
	}
}

// Damages a text a little.
static std::string mutate(Src& src, std::string s) {
	std::size_t n = 1 + src.draw(3);
	for (std::size_t i = 0; i < n; i++) {
		std::size_t p = src.draw(s.size() + 1);
		switch (src.draw(6)) {
			case 0: s.resize(p); break;
			case 1: if (p < s.size()) { s.erase(p, 1 + src.draw(3)); } break;
			case 2: s.insert(p, 1, (char)src.draw(256)); break;
			case 3: if (p < s.size()) { s[p] = (char)src.draw(256); } break;
			case 4: s.insert(p, 1, " \t\r\n:/.?"[src.draw(8)]); break;
			case 5: if (p < s.size()) { s[p] = " \t\r\n:/.\x7f"[src.draw(8)]; } break;
		}
	}
	return s;
}

static void c18(Src& src) {
	bool request = src.draw(2) == 0;
	std::string text;
	std::size_t body;
	unsigned k = src.draw(8);
	bool shorts = false;
	if (k == 0) {
		std::size_t n = src.len(200);
		for (std::size_t i = 0; i < n; i++) {
			text.push_back(src.draw(2) ? (char)src.draw(256) : "GETHP/1.0 \r\n:a"[src.draw(14)]);
		}
		body = src.draw(20);
		src.label("random text");
	}
	else {
		Msg m = gen_msg(src, request);
		text = render(src, m);
		body = m.body.size();
		if (k < 3) {
			text.resize(src.draw(text.size() + 1));
			src.label("truncated");
		}
		else if (k < 6) {
			text = mutate(src, text);
			src.label("mutated");
		}
		else if (k == 6) {
			body += 1 + src.draw(10);
			src.label("body longer than the text");
		}
		if (k == 7 || src.draw(3) == 2) {
			shorts = true;
		}
	}
	ReadStats st = read_any(src, text, { body }, request, false, shorts);
	if (st.refused && st.parts > 1) {
		src.nontrivial();
	}
	src.label(st.refused ? "refused" : "accepted");
	if (st.shorts) {
		src.label("a part that does not fit");
	}
}

// ---------------------------------------------------------------- the writer

enum class Verdict { accept, refuse, either };

struct Put {
	unsigned item = 0;
	std::string content;
	bool null = false;			// reason phrase: nullptr
	bool end_headers = false;
	bool use_strlen = false;
	Verdict verdict = Verdict::accept;
};

static bool all(const std::string& s, bool (*pred)(char)) {
	for (char c : s) {
		if (!pred(c)) {
			return false;
		}
	}
	return true;
}

static Verdict judge(const Put& p) {
	const std::string& s = p.content;
	switch (p.item) {
		case item::method:
		case item::header_name:
			return !s.empty() && all(s, is_token) ? Verdict::accept : Verdict::refuse;
		case item::resource:
			return !s.empty() && all(s, is_print) ? Verdict::accept : Verdict::refuse;
		case item::status_code:
			return !s.empty() && all(s, is_digit) ? Verdict::accept : Verdict::refuse;
		case item::reason_phrase:
			return all(s, is_print_sp) ? Verdict::accept : Verdict::refuse;
		case item::protocol: {
			if (s.size() < 5 || strncasecmp(s.c_str(), "HTTP/", 5) != 0) {
				return Verdict::refuse;
			}
			std::size_t dot = s.find('.', 5);
			if (dot == std::string::npos || dot == 5 || dot + 1 == s.size()) {
				return Verdict::refuse;
			}
			return all(s.substr(5, dot - 5), is_digit) && all(s.substr(dot + 1), is_digit) ? Verdict::accept : Verdict::refuse;
		}
		case item::header_value: {
			std::size_t i = 0;
			bool fold_at_end = false;
			while (i < s.size()) {
				if (is_print_sp(s[i])) {
					fold_at_end = fold_at_end && is_sp(s[i]);
					i++;
				}
				else if (i + 2 < s.size() && s[i] == '\r' && s[i + 1] == '\n' && is_sp(s[i + 2])) {
					fold_at_end = true;
					i += 3;
				}
				else {
					return Verdict::refuse;
				}
			}
			return fold_at_end ? Verdict::either : Verdict::accept;
		}
	}
	return Verdict::accept;
}

// A value as it reads back.
static std::string normal(unsigned it, const std::string& s) {
	std::string r;
	switch (it) {
		case item::header_value: {
			bool gap = false;
			for (char c : s) {
				if (is_print(c)) {
					if (gap && !r.empty()) {
						r.push_back(' ');
					}
					r.push_back(c);
					gap = false;
				}
				else {
					gap = true;
				}
			}
			return r;
		}
		case item::reason_phrase: {
			std::size_t i = 0;
			while (i < s.size() && is_sp(s[i])) {
				i++;
			}
			return s.substr(i);
		}
		case item::protocol:
			for (char c : s) {
				r.push_back((char)toupper((unsigned char)c));
			}
			return r;
	}
	return s;
}

static Put gen_put(Src& src, unsigned it, unsigned bad_den) {
	Put p;
	p.item = it;
	switch (it) {
		case item::method:
		case item::header_name: p.content = gen_token(src); break;
		case item::resource: p.content = gen_run(src, is_print, 1 + src.len(200)); break;
		case item::protocol: p.content = gen_protocol(src); break;
		case item::status_code: p.content = gen_digits(src, 1 + src.draw(5)); break;
		case item::reason_phrase:
			p.null = src.draw(4) == 3;
			if (!p.null) {
				p.content = gen_run(src, is_print_sp, src.len(60));
			}
			break;
		case item::header_value: {
			std::size_t w = src.draw(5);
			bool fold = src.draw(2);
			p.content = gen_gap(src, 0, false);
			for (std::size_t j = 0; j < w; j++) {
				p.content += gen_run(src, is_print, 1 + src.len(40));
				p.content += gen_gap(src, j + 1 < w ? 1 : 0, fold);
			}
			break;
		}
		default: {
			std::size_t n = src.len(500);
			for (std::size_t i = 0; i < n; i++) {
				p.content.push_back((char)src.draw(256));
			}
			break;
		}
	}
	if (!p.null && it != item::body && src.draw(bad_den) == bad_den - 1) {
		switch (src.draw(5)) {
			case 0: p.content.clear(); break;
			case 1: p.content.insert(src.draw(p.content.size() + 1), 1, (char)src.draw(256)); break;
			case 2: {
				static const std::vector<std::string> evil = { "\r\n", "\r\nX: y\r\n\r\n", " ", ":", "\r", "\n", std::string(1, '\0'), "\r\n ", "\x7f", "\xe9" };
				p.content.insert(src.draw(p.content.size() + 1), src.pick(evil));
				break;
			}
			case 3: p.content.resize(src.draw(p.content.size() + 1)); break;
			case 4:
				if (!p.content.empty()) {
					p.content.erase(src.draw(p.content.size()), 1);
				}
				break;
		}
	}
	p.use_strlen = src.draw(2) && p.content.find('\0') == std::string::npos;
	p.verdict = judge(p);
	return p;
}

template <typename Log>
using ReqOut = Reader<abc::http_request_ostream<Log>, abc::http_client_stream<Log>, Log>;
template <typename Log>
using RespOut = Reader<abc::http_response_ostream<Log>, abc::http_server_stream<Log>, Log>;

struct Raw {
	std::unique_ptr<char[]> mem;
	std::size_t size;
	explicit Raw(const Put& p) {
		// An exact allocation, terminated only when the writer is to look for the end.
		mem.reset(new char[p.content.size() + (p.use_strlen ? 1 : 0)]);
		memcpy(mem.get(), p.content.data(), p.content.size());
		if (p.use_strlen) {
			mem[p.content.size()] = 0;
		}
		size = p.use_strlen ? abc::size::strlen : p.content.size();
	}
};

template <typename Log>
static void put(ReqOut<Log>& w, const Put& p) {
	Raw r(p);
	auto& o = w.in();
	if (p.end_headers) {
		o.end_headers();
		return;
	}
	switch (p.item) {
		case item::method: o.put_method(r.mem.get(), r.size); break;
		case item::resource: o.put_resource(r.mem.get(), r.size); break;
		case item::protocol: o.put_protocol(r.mem.get(), r.size); break;
		case item::header_name: o.put_header_name(r.mem.get(), r.size); break;
		case item::header_value: o.put_header_value(r.mem.get(), r.size); break;
		default: o.put_body(r.mem.get(), r.size); break;
	}
}
template <typename Log>
static void put(RespOut<Log>& w, const Put& p) {
	Raw r(p);
	auto& o = w.in();
	if (p.end_headers) {
		o.end_headers();
		return;
	}
	switch (p.item) {
		case item::protocol: o.put_protocol(r.mem.get(), r.size); break;
		case item::status_code: o.put_status_code(r.mem.get(), r.size); break;
		case item::reason_phrase: o.put_reason_phrase(p.null ? nullptr : r.mem.get(), r.size); break;
		case item::header_name: o.put_header_name(r.mem.get(), r.size); break;
		case item::header_value: o.put_header_value(r.mem.get(), r.size); break;
		default: o.put_body(r.mem.get(), r.size); break;
	}
}

struct Scenario {
	bool request = true;
	std::vector<std::vector<Put>> messages;
};

static Scenario gen_scenario(Src& src) {
	Scenario sc;
	sc.request = src.draw(2) == 0;
	std::size_t n = src.draw(5) == 4 ? 2 : 1;
	unsigned bad_den = src.draw(2) ? 1000000 : 12;
	for (std::size_t i = 0; i < n; i++) {
		std::vector<Put> m;
		std::vector<unsigned> first = sc.request ? std::vector<unsigned>{ item::method, item::resource, item::protocol } : std::vector<unsigned>{ item::protocol, item::status_code, item::reason_phrase };
		for (unsigned it : first) {
			m.push_back(gen_put(src, it, bad_den));
		}
		std::size_t h = src.len(12);
		for (std::size_t j = 0; j < h; j++) {
			m.push_back(gen_put(src, item::header_name, bad_den));
			m.push_back(gen_put(src, item::header_value, bad_den));
		}
		Put e;
		e.item = item::header_name;
		e.end_headers = true;
		m.push_back(e);
		std::size_t b = src.draw(4);
		for (std::size_t j = 0; j < b; j++) {
			m.push_back(gen_put(src, item::body, bad_den));
		}
		sc.messages.push_back(m);
	}
	return sc;
}

struct WriteStats {
	std::size_t accepted = 0, refused = 0, misordered = 0, moved = 0, folds = 0;
	bool sink_full = false;
};

template <typename W, typename Log>
static std::string write_scenario(Src& src, const Scenario& sc, Dest& d, bool limited, bool quiet, std::vector<std::vector<Put>>& accepted, bool& stopped, WriteStats& st) {
	LogBox<Log> lb;
	W w(src, d.sb.get(), lb.get());
	stopped = false;
	std::string at_failure;
	std::size_t complete = 0;		// the output of the accepted parts
	const std::vector<unsigned>& items = sc.request ? req_items : resp_items;
	for (std::size_t m = 0; m < sc.messages.size(); m++) {
		if (m > 0) {
			w.in().reset();
		}
		accepted.emplace_back();
		for (const Put& p : sc.messages[m]) {
			if (!quiet && src.draw(12) == 11) {
				w.move();
				st.moved++;
				src.note("move the writer");
			}
			CHECK(w.in().next() == p.item, "next() is %s, expected %s", item_name(w.in().next()), item_name(p.item));
			if (!quiet && src.draw(16) == 15) {
				Put x;
				x.item = src.pick(items);
				x.content = "1";
				x.end_headers = src.draw(8) == 7;
				if (x.end_headers) {
					x.item = item::header_name;
				}
				if (x.item != p.item) {
					std::string before = d.data();
					bool was = w.in().fail();
					bool threw = false;
					try {
						put(w, x);
					}
					catch (const std::logic_error&) {
						threw = true;
					}
					CHECK(threw, "%s was written where %s is due", item_name(x.item), item_name(p.item));
					CHECK(d.data() == before, "a refused call has written %s", pbt::quote(d.data().substr(before.size())).c_str());
					CHECK(w.in().next() == p.item, "a refused call changed next()");
					CHECK(w.in().fail() == was, "a refused call changed the state of the stream");
					st.misordered++;
				}
			}
			std::size_t before = d.data().size();
			put(w, p);
			bool failed = w.in().fail();
			if (!quiet) {
				src.note(fmt("put_%s(%s) -> wrote %s%s", p.end_headers ? "end_headers" : item_name(p.item), pbt::quote(p.content).c_str(), pbt::quote(d.data().substr(before)).c_str(), failed ? ", failed" : ""));
			}
			if (stopped) {
				CHECK(failed, "the writer recovered from a failure by itself");
				CHECK(d.data() == at_failure, "after a failure the writer has written %s", pbt::quote(d.data().substr(at_failure.size())).c_str());
				continue;
			}
			if (!failed) {
				CHECK(p.verdict != Verdict::refuse, "%s was written as %s", item_name(p.item), pbt::quote(p.content).c_str());
				accepted.back().push_back(p);
				st.accepted++;
				complete = d.data().size();
				continue;
			}
			CHECK(p.verdict != Verdict::accept || limited, "%s %s was refused", item_name(p.item), pbt::quote(p.content).c_str());
			stopped = true;
			st.refused++;
			at_failure = d.data();
			if (!quiet) {
				CHECK(at_failure.find('\n', complete) == std::string::npos, "%s was refused, but it has written a whole line: %s", item_name(p.item), pbt::quote(at_failure.substr(complete)).c_str());
			}
		}
	}
	return quiet ? d.data() : d.data().substr(0, complete);
}

template <typename Log>
static std::string write_either(Src& src, const Scenario& sc, Dest& d, bool limited, bool quiet, std::vector<std::vector<Put>>& accepted, bool& stopped, WriteStats& st) {
	if (sc.request) {
		return write_scenario<ReqOut<Log>, Log>(src, sc, d, limited, quiet, accepted, stopped, st);
	}
	return write_scenario<RespOut<Log>, Log>(src, sc, d, limited, quiet, accepted, stopped, st);
}

// What makes a whole message of the accepted parts.
static std::string completion(bool request, const std::vector<std::vector<Put>>& accepted) {
	const Put* last = nullptr;
	for (auto& m : accepted) {
		for (auto& p : m) {
			last = &p;
		}
	}
	if (last == nullptr || last->end_headers) {
		return "";
	}
	switch (last->item) {
		case item::method: return " r HTTP/1.1\r\n\r\n";
		case item::resource: return " HTTP/1.1\r\n\r\n";
		case item::protocol: return request ? "\r\n" : " 200 OK\r\n\r\n";
		case item::status_code: return " OK\r\n\r\n";
		case item::reason_phrase: return "\r\n";
		case item::header_name: return "v\r\n\r\n";
		case item::header_value: return "\r\n";
	}
	return "";
}

// The accepted parts, read back by the reference and by the reader of the library.
static void read_back(Src& src, std::string text, bool request, const std::vector<std::vector<Put>>& accepted) {
	text += completion(request, accepted);
	auto check = [&](const Put& p, const Part& e, const char* who) {
		CHECK(e.ok, "%s cannot read %s back from %s", who, item_name(p.item), pbt::quote(text, 2000).c_str());
		std::string want = normal(p.item, p.content);
		std::string got = p.item == item::protocol ? normal(item::protocol, e.value) : e.value;
		CHECK(got == want, "%s was put as %s and %s reads it back as %s", item_name(p.item), pbt::quote(want).c_str(), who, pbt::quote(got).c_str());
	};
	Ref ref(text);
	ChunkBuf cb(text, 7);
	abc::http_request_istream<NullLog> rq(&cb, nullptr);
	abc::http_response_istream<NullLog> rs(&cb, nullptr);
	for (std::size_t m = 0; m < accepted.size(); m++) {
		if (m > 0) {
			rq.reset();
			rs.reset();
		}
		for (const Put& p : accepted[m]) {
			Part e;
			std::size_t inf = (std::size_t)1 << 40;
			switch (p.item) {
				case item::method: e = ref.simple(is_token, inf, false, false); break;
				case item::resource: e = ref.simple(is_print, inf, false, false); break;
				case item::protocol: e = ref.protocol(inf, request); break;
				case item::status_code: e = ref.simple(is_digit, inf, true, false); break;
				case item::reason_phrase: e = ref.simple(is_print_sp, inf, true, true, true); break;
				case item::header_name: e = ref.header_name(inf); break;
				case item::header_value: e = ref.header_value(inf); break;
				default: e = ref.body(p.content.size()); break;
			}
			check(p, e, "an independent reader");
			CHECK(!e.loose, "%s is not well-formed in %s", item_name(p.item), pbt::quote(text, 2000).c_str());
			CHECK(p.end_headers == e.end, "the headers end at the wrong place");
			std::vector<char> b(p.content.size() + 64);
			std::size_t n = p.item == item::body ? p.content.size() : b.size();
			std::size_t g;
			bool failed;
			if (request) {
				switch (p.item) {
					case item::method: rq.get_method(b.data(), n); break;
					case item::resource: rq.get_resource(b.data(), n); break;
					case item::protocol: rq.get_protocol(b.data(), n); break;
					case item::header_name: rq.get_header_name(b.data(), n); break;
					case item::header_value: rq.get_header_value(b.data(), n); break;
					default: rq.get_body(b.data(), n); break;
				}
				g = rq.gcount();
				failed = rq.fail();
			}
			else {
				switch (p.item) {
					case item::protocol: rs.get_protocol(b.data(), n); break;
					case item::status_code: rs.get_status_code(b.data(), n); break;
					case item::reason_phrase: rs.get_reason_phrase(b.data(), n); break;
					case item::header_name: rs.get_header_name(b.data(), n); break;
					case item::header_value: rs.get_header_value(b.data(), n); break;
					default: rs.get_body(b.data(), n); break;
				}
				g = rs.gcount();
				failed = rs.fail();
			}
			Part own;
			own.ok = !failed;
			own.value.assign(b.data(), g);
			check(p, own, "the reader of the library");
		}
	}
}

static void c19(Src& src) {
	Scenario sc = gen_scenario(src);
	bool real = src.draw(6) == 5;
	WriteStats st;
	std::vector<std::vector<Put>> accepted;
	bool stopped;
	Dest d(src, 1 << 16);
	std::string full = real ? write_either<RealLog>(src, sc, d, false, false, accepted, stopped, st) : write_either<NullLog>(src, sc, d, false, false, accepted, stopped, st);
	read_back(src, full, sc.request, accepted);
	if (!stopped) {
		src.label("complete");
		if (src.draw(4) == 3 && !full.empty()) {
			// The same, into a medium that takes less.
			std::size_t limit = src.draw(full.size() + 1);
			Dest d2(src, limit);
			std::vector<std::vector<Put>> acc2;
			bool stopped2;
			WriteStats st2;
			std::string cut = write_either<NullLog>(src, sc, d2, true, true, acc2, stopped2, st2);
			CHECK(cut == full.substr(0, limit), "a medium for %zu chars has %s of %s", limit, pbt::quote(cut).c_str(), pbt::quote(full).c_str());
			CHECK(stopped2 == (limit < full.size()), "a medium for %zu chars of %zu: the writer %s", limit, full.size(), stopped2 ? "has failed" : "has not failed");
			src.label("medium that runs full");
		}
	}
	else {
		src.label("a part refused");
	}
	if (st.accepted >= 5) {
		src.nontrivial();
	}
	if (st.misordered) {
		src.label("a part out of order refused");
	}
	if (st.moved) {
		src.label("moved between parts");
	}
	if (real) {
		src.label("with a log attached");
	}
}

// ---------------------------------------------------------------- resource parameters

static std::string gen_word(Src& src, const char* extra, std::size_t min) {
	std::string s;
	std::size_t n = min + src.len(30);
	std::string alphabet = std::string("ab1-%.+") + extra;
	for (std::size_t i = 0; i < n; i++) {
		s.push_back(alphabet[src.draw(alphabet.size())]);
	}
	return s;
}

static void c20(Src& src) {
	std::string path = "/" + gen_word(src, "/=&", 0);
	std::string res = path;
	std::size_t n = src.draw(3) == 0 ? src.draw(2) : src.draw(8);
	std::vector<std::pair<std::string, std::string>> params;
	bool prefix = false;
	for (std::size_t i = 0; i < n; i++) {
		std::string name;
		if (i > 0 && src.draw(3) == 2) {
			// Close to another name.
			name = params[src.draw(i)].first;
			std::size_t k = src.draw(4);
			if (k == 0) {
				name += gen_word(src, "", 1);
			}
			else if (k == 1 && name.size() > 1) {
				name.pop_back();
			}
			else if (k == 2) {
				name = "a" + name;
			}
			prefix = true;
		}
		else {
			name = gen_word(src, "", 1);
		}
		bool flag = src.draw(8) == 7;
		std::string value = flag ? "" : gen_word(src, "=?/;", 0);
		res += i == 0 ? '?' : '&';
		res += name;
		if (!flag) {
			res += "=" + value;
			params.emplace_back(name, value);
		}
		else {
			params.emplace_back(name, "\x01");
		}
	}
	bool tail = n > 0 && src.draw(8) == 7;
	if (tail) {
		res += '&';
	}
	bool empty_query = n == 0 && src.draw(3) == 2;
	if (empty_query) {
		res += '?';
	}
	src.note(pbt::quote(res));
	std::size_t size = res.size() + 2 + (src.draw(2) ? src.draw(40) : 0);
	std::unique_ptr<char[]> b(new char[size]);
	memset(b.get(), 'a' + (int)src.draw(3), size);
	using In = abc::http_request_istream<NullLog>;
	if (src.draw(2)) {
		std::string text = "GET " + res + " HTTP/1.1\r\n\r\n";
		Source so(src, text);
		In in(so.sb.get(), nullptr);
		char m[8];
		in.get_method(m, sizeof m);
		in.get_resource(b.get(), size);
		CHECK(!in.fail() && in.gcount() == res.size() && memcmp(b.get(), res.c_str(), res.size() + 1) == 0, "the resource was read as %s", pbt::quote(std::string(b.get(), in.gcount())).c_str());
		src.label("read from a stream");
	}
	else {
		memcpy(b.get(), res.c_str(), res.size() + 1);
		b[res.size() + 1] = 0;
	}
	In::split_resource(b.get(), size);
	CHECK(path == b.get(), "the path is %s, expected %s", pbt::quote(b.get()).c_str(), pbt::quote(path).c_str());
	auto look = [&](const std::string& name) {
		const std::string* want = nullptr;
		for (auto& p : params) {
			if (p.first == name && p.second != "\x01") {
				want = &p.second;
				break;
			}
		}
		std::unique_ptr<char[]> key(new char[name.size() + 1]);
		memcpy(key.get(), name.c_str(), name.size() + 1);
		const char* got = In::get_resource_parameter(b.get(), size, key.get());
		if (want == nullptr) {
			CHECK(got == nullptr, "there is no parameter %s, but %s was found", pbt::quote(name).c_str(), pbt::quote(got).c_str());
		}
		else {
			CHECK(got != nullptr, "parameter %s was not found", pbt::quote(name).c_str());
			CHECK(got >= b.get() && got < b.get() + size, "parameter %s is outside of the buffer", pbt::quote(name).c_str());
			CHECK(*want == got, "parameter %s is %s, expected %s", pbt::quote(name).c_str(), pbt::quote(got).c_str(), pbt::quote(*want).c_str());
		}
	};
	for (auto& p : params) {
		look(p.first);
		look(p.first + "a");
		if (p.first.size() > 1) {
			look(p.first.substr(0, p.first.size() - 1));
			look(p.first.substr(1));
		}
	}
	look(gen_word(src, "", 1));
	CHECK(path == b.get(), "the path has changed to %s", pbt::quote(b.get()).c_str());
	if (params.size() >= 2) {
		src.nontrivial();
	}
	if (prefix) {
		src.label("names close to each other");
	}
	if (tail || empty_query) {
		src.label("empty item at the end");
	}
}

// ---------------------------------------------------------------- registration

static int init = (pbt::case_cpu_limit() = 5, 0);

static pbt::Reg r17("C17", 0, 0, "a message with a header value of two or more words was read", c17);
static pbt::Reg r18("C18", 0, 0, "a part was refused after at least one other part was delivered", c18);
static pbt::Reg r19("C19", 0, 0, "at least 5 parts were written and read back", c19);
static pbt::Reg r20("C20", 0, 0, "the resource has two or more parameters", c20);
