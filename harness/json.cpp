// JSON: the reader against a reference tokenizer, the reader on malformed input, the writer against a reference grammar.
#include "pbt.h"
#include "streams.h"
#include "json.h"
#include <cmath>

using pbt::Src;
using pbt::fmt;
namespace js = abc::json;

struct Tok {
	js::item_t item = js::item::none;
	bool boolean = false;
	double number = 0;
	std::string str;
};

static const char* item_name(js::item_t i) {
	switch (i) {
		case js::item::none: return "none";
		case js::item::null: return "null";
		case js::item::boolean: return "boolean";
		case js::item::number: return "number";
		case js::item::string: return "string";
		case js::item::begin_array: return "[";
		case js::item::end_array: return "]";
		case js::item::begin_object: return "{";
		case js::item::end_object: return "}";
		case js::item::property: return "property";
	}
	return "?";
}

static std::string show(const Tok& t) {
	switch (t.item) {
		case js::item::boolean: return t.boolean ? "true" : "false";
		case js::item::number: return fmt("%.17g", t.number);
		case js::item::string: return pbt::quote(t.str);
		case js::item::property: return pbt::quote(t.str) + ":";
		default: return item_name(t.item);
	}
}

static bool same_bits(double a, double b) {
	return memcmp(&a, &b, sizeof a) == 0;
}

// ---------------------------------------------------------------- reference reader
//
// Splits a text in tokens.  strict: the number of leading tokens that belong to well-formed JSON (as far as read).
// refuse: the token whose reading must leave the stream failed, even under a lenient reading (trailing commas, a
// leading '+', leading zeros, raw control chars and values that are not separated at the top level are tolerated,
// neither required nor forbidden).

struct Ref {
	std::vector<Tok> toks;
	std::size_t strict = 0;
	bool refused = false;		// toks.size() is then the index of the call that must fail (or the one before it)
	bool complete = false;		// the text ended at level 0
};

static bool is_ws(char c) {
	return c == ' ' || c == '\t' || c == '\r' || c == '\n';
}

static int hexv(char c) {
	return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}

static Ref ref_read(const std::string& s, std::size_t max_levels) {
	Ref r;
	std::size_t i = 0;
	std::vector<char> st;
	bool strict = true;
	bool after_prop = false;
	bool pending_comma = false;	// the last separator was a comma (a container must not end now)
	bool need_gap = false;
	auto ws = [&] {
		std::size_t b = i;
		while (i < s.size() && is_ws(s[i])) {
			i++;
		}
		return i > b;
	};
	auto str = [&](std::string& out) {
		i++;
		for (;;) {
			if (i >= s.size()) {
				return false;
			}
			char c = s[i++];
			if (c == '"') {
				return true;
			}
			if (c != '\\') {
				if ((unsigned char)c < 0x20) {
					strict = false;
				}
				out += c;
				continue;
			}
			if (i >= s.size()) {
				return false;
			}
			c = s[i++];
			switch (c) {
				case '"': case '\\': case '/': out += c; break;
				case 'b': out += '\b'; break;
				case 'f': out += '\f'; break;
				case 'n': out += '\n'; break;
				case 'r': out += '\r'; break;
				case 't': out += '\t'; break;
				case 'u': {
					int v = 0;
					for (int k = 0; k < 4; k++) {
						if (i >= s.size() || hexv(s[i]) < 0) {
							return false;
						}
						v = v * 16 + hexv(s[i++]);
					}
					if (v > 0xff) {
						return false;	// not supported
					}
					out += (char)v;
					break;
				}
				default: return false;
			}
		}
	};
	for (;;) {
		bool gap = ws();
		if (i >= s.size()) {
			r.complete = st.empty();
			r.refused = true;
			return r;
		}
		Tok t;
		char c = s[i];
		bool in_obj = !st.empty() && st.back() == '{';
		bool value = true;		// a value has been completed
		if (st.empty() && need_gap && !gap) {
			strict = false;
		}
		if (in_obj && !after_prop) {
			if (c == '"') {
				t.item = js::item::property;
				if (!str(t.str)) {
					r.refused = true;
					return r;
				}
				ws();
				if (i >= s.size() || s[i] != ':') {
					r.refused = true;
					return r;
				}
				i++;
				after_prop = true;
				value = false;
				pending_comma = false;
			}
			else if (c == '}') {
				i++;
				t.item = js::item::end_object;
				st.pop_back();
				if (pending_comma) {
					strict = false;
				}
			}
			else {
				r.refused = true;
				return r;
			}
		}
		else {
			if (c == '"') {
				t.item = js::item::string;
				if (!str(t.str)) {
					r.refused = true;
					return r;
				}
			}
			else if (c == 'n' || c == 't' || c == 'f') {
				const char* lit = c == 'n' ? "null" : c == 't' ? "true" : "false";
				if (s.compare(i, strlen(lit), lit) != 0) {
					r.refused = true;
					return r;
				}
				i += strlen(lit);
				t.item = c == 'n' ? js::item::null : js::item::boolean;
				t.boolean = c == 't';
			}
			else if ((c >= '0' && c <= '9') || c == '-' || c == '+') {
				std::size_t b = i;
				auto digits = [&] {
					std::size_t n = 0;
					while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
						i++;
						n++;
					}
					return n;
				};
				if (c == '+') {
					strict = false;
				}
				if (c == '-' || c == '+') {
					i++;
				}
				std::size_t ib = i;
				std::size_t n = digits();
				if (n == 0 || (n > 1 && s[ib] == '0')) {
					strict = false;
				}
				if (i < s.size() && s[i] == '.') {
					i++;
					if (digits() == 0) {
						strict = false;
					}
				}
				if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
					i++;
					if (i < s.size() && (s[i] == '-' || s[i] == '+')) {
						i++;
					}
					if (digits() == 0) {
						strict = false;
					}
				}
				if (i - b > 25) {
					strict = false;
				}
				t.item = js::item::number;
				t.number = strtod(s.substr(b, i - b).c_str(), nullptr);
			}
			else if (c == '[' || c == '{') {
				i++;
				t.item = c == '[' ? js::item::begin_array : js::item::begin_object;
				if (st.size() == max_levels) {
					r.refused = true;
					return r;
				}
				st.push_back(c);
				value = false;
			}
			else if (c == ']' && !st.empty() && st.back() == '[') {
				i++;
				t.item = js::item::end_array;
				st.pop_back();
				if (pending_comma) {
					strict = false;
				}
			}
			else {
				r.refused = true;
				return r;
			}
			after_prop = false;
			pending_comma = false;
		}
		if (value) {
			pending_comma = false;
		}
		if (st.empty()) {
			need_gap = true;
		}
		bool trail_bad = false;
		if (value && !st.empty()) {
			ws();
			if (i < s.size() && s[i] == ',') {
				i++;
				pending_comma = true;
			}
			else if (i >= s.size() || s[i] != (st.back() == '[' ? ']' : '}')) {
				trail_bad = true;
			}
		}
		if (trail_bad) {
			// The separator after this value is wrong: this read fails.
			r.refused = true;
			return r;
		}
		r.toks.push_back(t);
		if (strict) {
			r.strict = r.toks.size();
		}
	}
}

// ---------------------------------------------------------------- generators

static std::string gen_ws(Src& src) {
	if (src.draw(3) != 2) {
		return "";
	}
	std::string w;
	std::size_t n = 1 + src.draw(4);
	for (std::size_t i = 0; i < n; i++) {
		w += " \t\r\n"[src.draw(4)];
	}
	return w;
}

static std::string gen_content(Src& src, std::size_t max) {
	std::size_t n = src.len(max);
	std::string r;
	std::uint64_t mode = src.draw(5);
	for (std::size_t i = 0; i < n; i++) {
		switch (mode) {
			case 0: r += (char)('a' + src.draw(26)); break;
			case 1: r += "\"\\/\b\f\n\r\t:,[]{}"[src.draw(14)]; break;
			case 2: r += (char)src.draw(256); break;
			case 3: r += (char)src.draw(32); break;
			default: r += src.draw(3) == 0 ? "\"\\\xff\xc3\xb1\x7f\x01"[src.draw(7)] : (char)(32 + src.draw(95)); break;
		}
	}
	return r;
}

// The text of a string, escaping what must be and, at random, what may be.
static std::string gen_string_text(Src& src, const std::string& content) {
	std::string r = "\"";
	bool eager = src.draw(4) == 3;
	for (char c : content) {
		const char* sh = "\"\\/\b\f\n\r\t";
		const char* sc = "\"\\/bfnrt";
		const char* p = c != 0 ? strchr(sh, c) : nullptr;
		bool must = c == '"' || c == '\\' || (unsigned char)c < 0x20;
		if (!must && !(eager && src.draw(2) == 1) && !(c == '/' && src.draw(2) == 1)) {
			r += c;
		}
		else if (p != nullptr && src.draw(3) != 2) {
			r += '\\';
			r += sc[p - sh];
		}
		else {
			r += fmt(src.draw(2) == 0 ? "\\u00%02x" : "\\u00%02X", (unsigned)(unsigned char)c);
		}
	}
	return r + "\"";
}

static std::string gen_number_text(Src& src) {
	std::string r;
	switch (src.draw(6)) {
		case 0: return fmt("%d", (int)src.range(-20, 20));
		case 1: return fmt("%lld", (long long)(std::int64_t)src.u64());
		case 2: {
			std::uint64_t bits = src.u64();
			double d;
			memcpy(&d, &bits, sizeof d);
			if (!std::isfinite(d)) {
				d = 1e300;
			}
			return fmt("%.17g", d);
		}
		case 3: return fmt("%.*f", (int)src.draw(12), (double)src.range(-1000000, 1000000) / 977.0);
		default: {
			// By the grammar, up to 25 chars.
			std::string s;
			if (src.draw(2) == 1) {
				s += '-';
			}
			std::size_t n = 1 + src.draw(src.draw(3) == 2 ? 24 : 4);
			s += n > 1 ? (char)('1' + src.draw(9)) : (char)('0' + src.draw(10));
			for (std::size_t i = 1; i < n; i++) {
				s += (char)('0' + src.draw(10));
			}
			if (src.draw(2) == 1) {
				s += '.';
				n = 1 + src.draw(src.draw(3) == 2 ? 20 : 4);
				for (std::size_t i = 0; i < n; i++) {
					s += (char)('0' + src.draw(10));
				}
			}
			if (src.draw(3) == 2) {
				s += "eE"[src.draw(2)];
				s += src.draw(2) == 1 ? "" : (src.draw(2) == 1 ? "+" : "-");
				n = 1 + src.draw(3);
				for (std::size_t i = 0; i < n; i++) {
					s += (char)('0' + src.draw(10));
				}
			}
			return s.size() <= 25 ? s : s.substr(0, 1) == "-" ? "-7" : "7";
		}
	}
}

static void gen_value(Src& src, std::size_t levels, std::size_t& budget, std::size_t max_str, std::string& out) {
	std::uint64_t k = src.draw(levels > 0 && budget > 0 ? 9 : 5);
	if (budget > 0) {
		budget--;
	}
	switch (k) {
		case 0: out += "null"; return;
		case 1: out += src.draw(2) == 0 ? "false" : "true"; return;
		case 2: out += gen_number_text(src); return;
		case 3:
		case 4: out += gen_string_text(src, gen_content(src, max_str)); return;
		default: break;
	}
	bool obj = k & 1;
	out += obj ? '{' : '[';
	out += gen_ws(src);
	std::size_t n = src.draw(src.draw(4) == 3 ? 20 : 4);
	for (std::size_t i = 0; i < n; i++) {
		if (i > 0) {
			out += ',';
			out += gen_ws(src);
		}
		if (obj) {
			out += gen_string_text(src, gen_content(src, max_str));
			out += gen_ws(src);
			out += ':';
			out += gen_ws(src);
		}
		gen_value(src, levels - 1, budget, max_str, out);
		out += gen_ws(src);
	}
	out += obj ? '}' : ']';
}

// Sometimes a chain as deep as the limit, which random branching seldom reaches.
static void gen_deep(Src& src, std::size_t levels, std::string& out) {
	std::string tail;
	std::size_t n = src.draw(4) == 0 ? levels : src.draw(levels + 1);
	for (std::size_t i = 0; i < n; i++) {
		bool obj = src.draw(2);
		out += obj ? "{" + gen_string_text(src, "k") + ":" : "[";
		tail = (src.draw(4) == 3 ? (obj ? ",\"z\":1" : ",2") : "") + gen_ws(src) + (obj ? "}" : "]") + tail;
	}
	out += src.draw(2) == 0 ? "0" : "\"x\"";
	out += tail;
}

static std::string gen_doc(Src& src, std::size_t levels, std::size_t max_str) {
	std::string out = gen_ws(src);
	std::size_t docs = src.draw(5) == 4 ? 2 + src.draw(3) : 1;
	for (std::size_t d = 0; d < docs; d++) {
		if (d > 0) {
			out += " \t\r\n"[src.draw(4)];
			out += gen_ws(src);
		}
		std::size_t budget = src.draw(3) == 2 ? 60 : 12;
		if (src.draw(8) == 7) {
			gen_deep(src, levels, out);
		}
		else {
			gen_value(src, levels, budget, max_str, out);
		}
	}
	return out + gen_ws(src);
}

// ---------------------------------------------------------------- reading

struct ReadStats {
	std::size_t read = 0, skipped = 0, moved = 0, refused = 0, short_buffer = 0;
};

// Reads text with random gets, skips and moves, against the reference.
template <std::size_t Levels, typename Log>
static ReadStats read_case(Src& src, const std::string& text, bool allow_short) {
	Ref ref = ref_read(text, Levels);
	src.note(fmt("MaxLevels=%zu text=%s", Levels, pbt::quote(text, 3000).c_str()));
	Source so(src, text);
	LogBox<Log> lb;
	using S = abc::json_istream<Levels, Log>;
	std::unique_ptr<S> in(new S(so.sb.get(), lb.get()));
	ReadStats st;
	std::size_t k = 0;		// the next token
	std::size_t size_mode = src.draw(3);
	std::size_t calls = 0;
	unsigned skip_den = src.draw(2) == 0 ? 8 : 3;
	std::size_t levels = 0;
	for (;;) {
		if (src.draw(12) == 11) {
			src.note("move the reader");
			std::unique_ptr<S> other(new S(std::move(*in)));
			in = std::move(other);
			st.moved++;
		}
		CHECK(++calls <= text.size() + 64, "the reader returned more tokens than the text can hold");
		bool skip = src.draw(skip_den) == skip_den - 1;
		std::size_t last = k;	// the last token consumed by this call
		if (skip && k < ref.toks.size() && (ref.toks[k].item == js::item::begin_array || ref.toks[k].item == js::item::begin_object)) {
			std::size_t depth = 0;
			for (last = k; last < ref.toks.size(); last++) {
				js::item_t it = ref.toks[last].item;
				if (it == js::item::begin_array || it == js::item::begin_object) {
					depth++;
				}
				else if (it == js::item::end_array || it == js::item::end_object) {
					if (--depth == 0) {
						break;
					}
				}
			}
		}
		bool must_pass = last < ref.strict;
		bool must_fail = last >= ref.toks.size() && ref.refused;
		js::item_t item;
		Tok got;
		std::size_t gcount;
		bool expect_short = false;
		if (skip) {
			item = in->skip_value();
			gcount = in->gcount();
			src.note(fmt("skip_value() -> %s, %s", item_name(item), in->fail() ? "failed" : "ok"));
			st.skipped++;
		}
		else {
			std::size_t need = sizeof(js::token_t);
			if (k < ref.toks.size() && (ref.toks[k].item == js::item::string || ref.toks[k].item == js::item::property)) {
				need = std::max(need, offsetof(js::token_t, value) + ref.toks[k].str.size() + 1);
			}
			std::size_t size = need;
			if (size_mode == 1) {
				size += src.draw(20);
			}
			else if (allow_short && size_mode == 2 && need > sizeof(js::token_t) && src.draw(3) == 2) {
				size = sizeof(js::token_t) + src.draw(need - sizeof(js::token_t));
				expect_short = true;
			}
			if (k >= ref.toks.size()) {
				size = sizeof(js::token_t) + src.draw(40);
			}
			// An exact allocation: a write past its end is reported by the sanitizer.
			std::unique_ptr<std::uint64_t[]> guard;
			char* mem = (char*)malloc(size);
			memset(mem, 0x5a, size);
			js::token_t* t = (js::token_t*)mem;
			struct Free {
				char* p;
				~Free() { free(p); }
			} fr{ mem };
			if (allow_short && src.draw(16) == 15) {
				// A buffer that can't hold any token is refused, and nothing is read.
				std::size_t few = src.draw(sizeof(js::token_t));
				js::token_t* none = src.chance(1, 3) ? nullptr : t;
				bool refused = false;
				try {
					in->get_token(none, none == nullptr ? size : few);
				}
				catch (const std::logic_error&) {
					refused = true;
				}
				src.note(none == nullptr ? "get_token(nullptr)" : fmt("get_token(%zu)", few));
				CHECK(refused, "a buffer that can't hold a token isn't refused");
				for (std::size_t i = 0; i < size; i++) {
					CHECK(mem[i] == 0x5a, "a refused buffer has been written to");
				}
			}
			in->get_token(t, size);
			item = t->item;
			gcount = in->gcount();
			got.item = item;
			if (item == js::item::boolean) {
				unsigned char b;
				memcpy(&b, &t->value.boolean, 1);
				CHECK(b <= 1, "the boolean is neither false nor true");
				got.boolean = b;
			}
			else if (item == js::item::number) {
				got.number = t->value.number;
			}
			else if (item == js::item::string || item == js::item::property) {
				CHECK(gcount >= sizeof(js::item_t), "gcount() is %zu", gcount);
				std::size_t len = gcount - sizeof(js::item_t);
				CHECK(in->fail() || offsetof(js::token_t, value) + len < size, "gcount() %zu does not fit the buffer of %zu", gcount, size);
				if (!in->fail()) {
					CHECK(t->value.string[len] == 0, "the string is not terminated");
					got.str.assign(t->value.string, len);
				}
			}
			src.note(fmt("get_token(%zu) -> %s, %s", size, show(got).c_str(), in->fail() ? "failed" : "ok"));
			st.read++;
		}
		bool failed = in->fail() || in->bad();
		if (expect_short && must_pass) {
			CHECK(failed, "a string of %zu chars was accepted into a buffer without space for it", ref.toks[k].str.size());
			CHECK(item == js::item::none, "a string that does not fit was returned as %s", item_name(item));
			st.short_buffer++;
			return st;
		}
		if (must_pass) {
			CHECK(!failed, "the reader failed at token %zu (%s) of a well-formed text", last, show(ref.toks[last]).c_str());
			CHECK(item == ref.toks[last].item, "token %zu: expected %s, got %s", last, show(ref.toks[last]).c_str(), item_name(item));
			if (!skip) {
				const Tok& e = ref.toks[k];
				std::size_t g = sizeof(js::item_t);
				switch (e.item) {
					case js::item::boolean:
						CHECK(got.boolean == e.boolean, "token %zu: expected %s", k, show(e).c_str());
						g += sizeof(bool);
						break;
					case js::item::number:
						CHECK(same_bits(got.number, e.number), "token %zu: expected %.17g, got %.17g", k, e.number, got.number);
						g += sizeof(double);
						break;
					case js::item::string:
					case js::item::property:
						CHECK(got.str == e.str, "token %zu: expected %s, got %s", k, pbt::quote(e.str).c_str(), pbt::quote(got.str).c_str());
						g += e.str.size();
						break;
				}
				CHECK(gcount == g, "token %zu (%s): gcount() is %zu, expected %zu", k, show(e).c_str(), gcount, g);
			}
			for (std::size_t i = k; i <= last; i++) {
				js::item_t it = ref.toks[i].item;
				if (it == js::item::begin_array || it == js::item::begin_object) {
					levels++;
				}
				else if (it == js::item::end_array || it == js::item::end_object) {
					levels--;
				}
			}
			CHECK(in->levels() == levels, "levels() is %zu, expected %zu", in->levels(), levels);
			k = last + 1;
			continue;
		}
		if (failed) {
			// Once failed, it stays failed, and nothing is returned.
			for (int i = 0; i < 2; i++) {
				js::token_t t;
				if (src.draw(2) == 0) {
					in->get_token(&t, sizeof t);
					CHECK(t.item == js::item::none, "after a failure the reader returned %s", item_name(t.item));
				}
				else {
					js::item_t it = in->skip_value();
					CHECK(it == js::item::none, "after a failure the reader skipped %s", item_name(it));
				}
				CHECK(in->fail() || in->bad(), "the reader recovered from a failure by itself");
			}
			st.refused++;
			return st;
		}
		CHECK(!must_fail, "the reader accepted a malformed or truncated text at token %zu (%s)", k, item_name(item));
		if (last >= ref.strict) {
			// Tolerated: only safety and termination from here on.
			for (std::size_t i = 0; i < text.size() + 2 && !in->fail() && !in->bad(); i++) {
				js::token_t* t = (js::token_t*)malloc(sizeof(js::token_t) + 7);
				struct Free {
					void* p;
					~Free() { free(p); }
				} fr{ t };
				if (src.draw(4) == 3) {
					in->skip_value();
				}
				else {
					in->get_token(t, sizeof(js::token_t) + 7);
				}
			}
			return st;
		}
		k = last + 1;
	}
}

template <std::size_t L>
static ReadStats read_levels(Src& src, bool mutate);

static std::string mutate_text(Src& src, std::string s) {
	std::size_t n = 1 + src.draw(3);
	for (std::size_t i = 0; i < n; i++) {
		static const char* bits = "[]{}\",:\\/untrfles0123456789+-.eE \t\n\xff";
		std::size_t bl = strlen(bits);
		std::size_t p = src.draw(s.size() + 1);
		switch (src.draw(7)) {
			case 0: s.resize(p); break;		// truncate
			case 1: if (p < s.size()) { s.erase(p, 1 + src.draw(3)); } break;
			case 2: s.insert(p, 1, bits[src.draw(bl)]); break;
			case 3: if (p < s.size()) { s[p] = bits[src.draw(bl)]; } break;
			case 4: if (p < s.size()) { s[p] = (char)src.draw(256); } break;
			case 5: {
				std::size_t q = src.draw(s.size() + 1);
				s.insert(p, s.substr(q, src.draw(20)));
				break;
			}
			default: {
				static const std::vector<std::string> pieces = { "\\u00zz", "\\u1234", "\\x", "nul", "tru", "1234567890123456789012345.5", "1e", "[[[[[[[[[[", "]", "}", ",,", "\"\"", ":", "\\u0041F", "\\", "123456789012345678901234567890", "1.5.5", "--1", std::string("\0", 1), "0000000000000000000000001e5", "1234567890123456789012345e10" };
				s.insert(p, src.pick(pieces));
				break;
			}
		}
	}
	return s;
}

template <std::size_t L>
static ReadStats read_levels(Src& src, bool mutate) {
	std::size_t max_str = src.draw(10) == 9 ? 1500 : 40;
	std::string text;
	if (!mutate) {
		text = gen_doc(src, L, max_str);
		Ref r = ref_read(text, L);
		// The generator only makes well-formed texts.
		CHECK(r.complete && r.strict == r.toks.size(), "harness: the generated text is not well-formed: %s", pbt::quote(text).c_str());
		ReadStats st = src.draw(12) == 11 ? read_case<L, RealLog>(src, text, true) : read_case<L, NullLog>(src, text, true);
		bool esc = text.find('\\') != std::string::npos;
		if (r.toks.size() >= 5) {
			src.nontrivial();
		}
		src.label(esc ? "with escapes" : "without escapes");
		if (st.moved) src.label("reader moved");
		if (st.skipped) src.label("values skipped");
		if (st.short_buffer) src.label("buffer too short");
		return st;
	}
	switch (src.draw(4)) {
		case 0: {
			std::size_t n = src.len(60);
			static const char* bits = "[]{}\",:\\/untrfles019+-.eE \n";
			for (std::size_t i = 0; i < n; i++) {
				text += bits[src.draw(27)];
			}
			break;
		}
		case 1: {
			// One level too deep.
			std::string tail;
			std::size_t n = L + src.draw(3);
			for (std::size_t i = 0; i < n; i++) {
				bool obj = src.draw(2);
				text += obj ? "{\"k\":" : "[";
				tail = (obj ? "}" : "]") + tail;
			}
			text += "1" + tail;
			break;
		}
		default:
			text = mutate_text(src, gen_doc(src, L, max_str));
			break;
	}
	if (text.size() > 6000) {
		throw pbt::Discard{};
	}
	Ref r = ref_read(text, L);
	ReadStats st = src.draw(12) == 11 ? read_case<L, RealLog>(src, text, false) : read_case<L, NullLog>(src, text, false);
	bool malformed = !r.complete || r.strict < r.toks.size();
	if (malformed && st.refused && text.size() > 8) {
		src.nontrivial();
	}
	src.label(malformed ? "malformed" : "well-formed");
	if (st.refused) src.label("refused");
	return st;
}

// ---------------------------------------------------------------- writing

template <std::size_t L, typename Log>
static void write_case_l(Src& src) {
	LogBox<Log> lb;
	bool limited = src.draw(10) == 9;
	std::size_t limit = limited ? src.draw(300) : 60000;
	Dest dest(src, limit);
	using S = abc::json_ostream<L, Log>;
	std::unique_ptr<S> out(new S(dest.sb.get(), lb.get()));
	std::vector<Tok> want;
	std::vector<char> st;
	bool prop_next = false;		// a property name is expected
	bool top_done = false;
	bool bad = false;
	bool complete_needed = src.draw(4) != 3;
	std::size_t n = src.len(120);
	std::size_t max_depth = 0, escapes = 0, moves = 0;
	std::size_t i = 0;
	std::size_t max_str = src.draw(10) == 9 ? 600 : 20;
	std::size_t white[4] = { };		// white space put between the tokens
	bool wild = src.draw(5) == 4;		// also operations that are not allowed in the current state
	while (!bad) {
		bool closing = i++ >= n;
		if (closing && st.empty() && !want.empty()) {
			break;
		}
		if (closing && (!complete_needed || i > n + 300)) {
			break;
		}
		if (src.draw(15) == 14) {
			std::unique_ptr<S> other(new S(std::move(*out)));
			out = std::move(other);
			src.note("move the writer");
			moves++;
		}
		if (src.draw(6) == 5) {
			std::size_t w = src.draw(4);
			white[w]++;
			switch (w) {
				case 0: out->put_space(); break;
				case 1: out->put_tab(); break;
				case 2: out->put_cr(); break;
				default: out->put_lf(); break;
			}
		}
		if (st.empty() && top_done) {
			out->put_lf();
			top_done = false;
		}
		bool in_obj = !st.empty() && st.back() == '{';
		Tok t;
		bool want_prop = in_obj && prop_next;
		std::uint64_t k;
		if (wild && src.draw(12) == 11) {
			k = src.draw(10);
		}
		else if (closing) {
			k = !in_obj ? (st.empty() ? 0 : 6) : prop_next ? 8 : 0;
		}
		else if (want_prop) {
			k = src.draw(4) == 3 ? 8 : 9;
		}
		else {
			// A value, or the end of an array.
			static const std::uint64_t ks[] = { 0, 1, 2, 2, 3, 3, 5, 5, 7, 7, 6 };
			k = ks[src.draw(!st.empty() && !in_obj ? 11 : 10)];
			if ((k == 5 || k == 7) && st.size() >= L && !(wild && src.draw(3) == 2)) {
				k = 0;
			}
		}
		bool ok = true;
		bool tokwise = src.draw(3) == 2;
		std::string content;
		double num = 0;
		switch (k) {
			case 0: t.item = js::item::null; ok = !want_prop; break;
			case 1: t.item = js::item::boolean; t.boolean = src.draw(2); ok = !want_prop; break;
			case 2: {
				t.item = js::item::number;
				ok = !want_prop;
				switch (src.draw(5)) {
					case 0: num = (double)src.range(-100, 100); break;
					case 1: num = (double)(std::int64_t)src.u64(); break;
					case 2: num = (double)src.range(-100000, 100000) / (1 + src.draw(1000)); break;
					case 3: num = src.draw(2) ? -0.0 : 0.1 * src.draw(100); break;
					default: {
						std::uint64_t b = src.u64();
						memcpy(&num, &b, sizeof num);
						break;
					}
				}
				if (!std::isfinite(num)) {
					if (src.draw(4) != 0) {
						num = 5;
					}
					else {
						ok = false;
					}
				}
				t.number = num;
				break;
			}
			case 3:
			case 4: t.item = js::item::string; content = gen_content(src, max_str); t.str = content; ok = !want_prop; break;
			case 5: t.item = js::item::begin_array; ok = !want_prop && st.size() < L; break;
			case 6: t.item = js::item::end_array; ok = !st.empty() && !in_obj; break;
			case 7: t.item = js::item::begin_object; ok = !want_prop && st.size() < L; break;
			case 8: t.item = js::item::end_object; ok = want_prop; break;
			default: t.item = js::item::property; content = gen_content(src, max_str); t.str = content; ok = want_prop; break;
		}
		src.note(fmt("put %s%s", show(t).c_str(), ok ? "" : " (not allowed here)"));
		bool by_strlen = content.find('\0') == std::string::npos && src.draw(2) == 0;
		if (tokwise) {
			std::size_t sz = std::max(sizeof(js::token_t), offsetof(js::token_t, value) + content.size() + 1);
			char* mem = (char*)malloc(sz);
			struct Free {
				char* p;
				~Free() { free(p); }
			} fr{ mem };
			js::token_t* tok = (js::token_t*)mem;
			tok->item = t.item;
			if (t.item == js::item::boolean) {
				tok->value.boolean = t.boolean;
			}
			else if (t.item == js::item::number) {
				tok->value.number = t.number;
			}
			else {
				memcpy(mem + offsetof(js::token_t, value), content.c_str(), content.size() + 1);
			}
			if (by_strlen) {
				out->put_token(tok);
			}
			else {
				out->put_token(tok, content.size());
			}
		}
		else {
			std::unique_ptr<char[]> mem(new char[content.size() + (by_strlen ? 1 : 0)]);
			memcpy(mem.get(), content.c_str(), content.size() + (by_strlen ? 1 : 0));
			switch (t.item) {
				case js::item::null: out->put_null(); break;
				case js::item::boolean: out->put_boolean(t.boolean); break;
				case js::item::number: out->put_number(t.number); break;
				case js::item::string: by_strlen ? out->put_string(mem.get()) : out->put_string(mem.get(), content.size()); break;
				case js::item::begin_array: out->put_begin_array(); break;
				case js::item::end_array: out->put_end_array(); break;
				case js::item::begin_object: out->put_begin_object(); break;
				case js::item::end_object: out->put_end_object(); break;
				case js::item::property: by_strlen ? out->put_property(mem.get()) : out->put_property(mem.get(), content.size()); break;
			}
		}
		bool failed = out->fail() || out->bad();
		if (!ok) {
			CHECK(failed, "the writer accepted %s where it is not allowed; output %s", show(t).c_str(), pbt::quote(dest.data()).c_str());
			bad = true;
			src.label("refused a token");
			break;
		}
		if (failed) {
			CHECK(limited && dest.data().size() == limit, "the writer failed on %s; output %s", show(t).c_str(), pbt::quote(dest.data()).c_str());
			bad = true;
			src.label("medium full");
			break;
		}
		for (char c : content) {
			if (c == '"' || c == '\\' || (unsigned char)c < 0x20) {
				escapes++;
			}
		}
		want.push_back(t);
		switch (t.item) {
			case js::item::begin_array: st.push_back('['); prop_next = false; break;
			case js::item::begin_object: st.push_back('{'); prop_next = true; break;
			case js::item::property: prop_next = false; break;
			case js::item::end_array:
			case js::item::end_object: st.pop_back(); prop_next = !st.empty() && st.back() == '{'; break;
			default: prop_next = !st.empty() && st.back() == '{'; break;
		}
		max_depth = std::max(max_depth, st.size());
		if (st.empty()) {
			top_done = true;
		}
		CHECK(out->levels() == st.size(), "levels() is %zu, expected %zu", out->levels(), st.size());
	}
	std::string text = dest.data();
	src.note("output: " + pbt::quote(text, 3000));
	if (bad) {
		return;
	}
	if (!out->fail()) {
		static const char WHITE[] = " \t\r\n";
		std::size_t found[4] = { };
		bool in_string = false;
		for (std::size_t i = 0; i < text.size(); i++) {
			if (text[i] == '"') {
				in_string = !in_string;
			}
			else if (in_string) {
				i += text[i] == '\\';
			}
			else if (text[i] != '\0' && strchr(WHITE, text[i])) {
				found[strchr(WHITE, text[i]) - WHITE]++;
			}
		}
		for (std::size_t w = 0; w < 4; w++) {
			CHECK(found[w] >= white[w], "%zu times the white space \\x%02x was put, %zu are in the output", white[w], WHITE[w], found[w]);
		}
	}
	Ref r = ref_read(text, L);
	if (st.empty() && !want.empty()) {
		CHECK(r.complete && r.strict == r.toks.size(), "the output is not well-formed JSON: %s", pbt::quote(text, 2000).c_str());
		CHECK(r.toks.size() == want.size(), "the output has %zu tokens, %zu were put: %s", r.toks.size(), want.size(), pbt::quote(text, 2000).c_str());
	}
	else {
		// The last value may not be complete without what follows it.
		CHECK(r.toks.size() <= want.size() && r.toks.size() + 1 >= want.size(), "the output has %zu tokens, %zu were put: %s", r.toks.size(), want.size(), pbt::quote(text, 2000).c_str());
	}
	for (std::size_t i = 0; i < r.toks.size(); i++) {
		const Tok& a = r.toks[i];
		const Tok& b = want[i];
		CHECK(a.item == b.item && a.boolean == b.boolean && a.str == b.str && (a.item != js::item::number || same_bits(a.number, b.number)), "token %zu was put as %s and reads as %s", i, show(b).c_str(), show(a).c_str());
	}
	if (st.empty()) {
		// And the library's own reader agrees.
		Source so(src, text);
		abc::json_istream<L, abc::null_log> in(so.sb.get(), nullptr);
		for (std::size_t i = 0; i < want.size(); i++) {
			std::size_t sz = std::max(sizeof(js::token_t), offsetof(js::token_t, value) + want[i].str.size() + 1);
			std::vector<std::uint64_t> mem(sz / 8 + 1);
			js::token_t* t = (js::token_t*)mem.data();
			in.get_token(t, sz);
			CHECK(!in.fail(), "the reader failed on the writer's output at token %zu", i);
			CHECK(t->item == want[i].item, "token %zu was put as %s and read as %s", i, show(want[i]).c_str(), item_name(t->item));
			if (t->item == js::item::number) {
				CHECK(same_bits(t->value.number, want[i].number), "number %.17g read back as %.17g", want[i].number, t->value.number);
			}
			if (t->item == js::item::string || t->item == js::item::property) {
				CHECK(std::string(t->value.string, in.gcount() - sizeof(js::item_t)) == want[i].str, "string %s read back differently", pbt::quote(want[i].str).c_str());
			}
		}
	}
	if (want.size() >= 5 && max_depth > 0) {
		src.nontrivial();
	}
	if (escapes) src.label("with escapes");
	if (moves) src.label("writer moved");
	if (max_depth == L) src.label("at the nesting limit");
}

static int init = (pbt::case_cpu_limit() = 5, 0);

template <std::size_t L>
static void write_case(Src& src) {
	if (src.draw(12) == 11) {
		write_case_l<L, RealLog>(src);
	}
	else {
		write_case_l<L, NullLog>(src);
	}
}

static pbt::Reg c09("C09", 0, 0,
	"a case is a well-formed JSON text (or several) and a random mix of reading and skipping it; non-trivial when it has at least 5 tokens",
	[](Src& src) {
		switch (src.draw(4)) {
			case 0: read_levels<64>(src, false); break;
			case 1: read_levels<4>(src, false); break;
			case 2: read_levels<2>(src, false); break;
			default: read_levels<11>(src, false); break;
		}
	});

static pbt::Reg c10("C10", 0, 0,
	"a case is a mutated, truncated or random text; non-trivial when it is malformed, longer than 8 bytes and was refused",
	[](Src& src) {
		switch (src.draw(4)) {
			case 0: read_levels<64>(src, true); break;
			case 1: read_levels<4>(src, true); break;
			case 2: read_levels<2>(src, true); break;
			default: read_levels<11>(src, true); break;
		}
	});

static pbt::Reg c11("C11", 0, 0,
	"a case is a random sequence of put operations, some of them not allowed; non-trivial when at least 5 tokens with nesting were put and accepted",
	[](Src& src) {
		switch (src.draw(4)) {
			case 0: write_case<64>(src); break;
			case 1: write_case<4>(src); break;
			case 2: write_case<1>(src); break;
			default: write_case<16>(src); break;
		}
	});
