// Media for the stream harnesses: the same bytes delivered in different ways.
#pragma once

#include <memory>
#include <streambuf>
#include <string>
#include <vector>
#include "buffer_streambuf.h"
#include "log.h"
#include "pbt.h"

// Delivers chunks of the given size; at the end it reports the end as often as it is asked.
class ChunkBuf : public std::streambuf {
public:
	ChunkBuf(const std::string& data, std::size_t chunk)
		: _data(data), _chunk(chunk) {
	}

	std::size_t consumed() const {
		return _pos - (egptr() - gptr());
	}

protected:
	int_type underflow() override {
		if (gptr() < egptr()) {
			return traits_type::to_int_type(*gptr());
		}
		if (_pos == _data.size()) {
			return traits_type::eof();
		}
		std::size_t n = std::min(_chunk, _data.size() - _pos);
		// An exact allocation, so that any access outside of the chunk is seen.
		_cur.reset(new char[n]);
		memcpy(_cur.get(), _data.data() + _pos, n);
		_pos += n;
		setg(_cur.get(), _cur.get(), _cur.get() + n);
		return traits_type::to_int_type(*gptr());
	}

private:
	std::string _data;
	std::size_t _chunk;
	std::size_t _pos = 0;
	std::unique_ptr<char[]> _cur;
};

// A source of bytes: the library's own buffer_streambuf, or chunks.
struct Source {
	std::unique_ptr<char[]> mem;
	std::unique_ptr<std::streambuf> sb;

	Source(pbt::Src& src, const std::string& data) {
		std::uint64_t k = src.draw(4);
		if (k == 0) {
			mem.reset(new char[data.size()]);
			memcpy(mem.get(), data.data(), data.size());
			sb.reset(new abc::buffer_streambuf(mem.get(), 0, data.size(), nullptr, 0, 0));
			src.note("source: buffer_streambuf");
		}
		else {
			std::size_t chunk = k == 1 ? 1 : k == 2 ? 1 + src.draw(8) : 1 + src.draw(200);
			sb.reset(new ChunkBuf(data, chunk));
			src.note(pbt::fmt("source: chunks of %zu", chunk));
		}
	}
};

// Collects what is put, without a buffer; refuses after limit bytes.
class SinkBuf : public std::streambuf {
public:
	std::string data;
	std::size_t limit = (std::size_t)-1;
	std::size_t syncs = 0;
	// How much had been put at the last flush.
	std::size_t synced = 0;

protected:
	int_type overflow(int_type ch) override {
		if (traits_type::eq_int_type(ch, traits_type::eof())) {
			return traits_type::not_eof(ch);
		}
		if (data.size() >= limit) {
			return traits_type::eof();
		}
		data.push_back((char)ch);
		return ch;
	}
	int sync() override {
		syncs++;
		synced = data.size();
		return 0;
	}
};

// A destination of bytes: the library's buffer_streambuf over an exact allocation, or a sink.
struct Dest {
	std::unique_ptr<char[]> mem;
	std::size_t size = 0;
	std::unique_ptr<std::streambuf> sb;

	Dest(pbt::Src& src, std::size_t limit) {
		if (limit <= (1 << 16) && src.draw(2) == 0) {
			size = limit;
			mem.reset(new char[size]);
			sb.reset(new Buf(mem.get(), size));
		}
		else {
			auto* s = new SinkBuf();
			s->limit = limit;
			sb.reset(s);
		}
	}
	std::string data() const {
		if (mem) {
			Buf* b = (Buf*)sb.get();
			return std::string(mem.get(), b->count());
		}
		return ((SinkBuf*)sb.get())->data;
	}

private:
	class Buf : public abc::buffer_streambuf {
	public:
		Buf(char* p, std::size_t n) : abc::buffer_streambuf(nullptr, 0, 0, p, 0, n) {
		}
		std::size_t count() const {
			return pptr() - pbase();
		}
	};
};

// Reads every byte it is given and forgets it.
class NoBuf : public std::streambuf {
public:
	unsigned char sum = 0;

protected:
	int_type overflow(int_type ch) override {
		sum = (unsigned char)(sum + ch);
		return traits_type::not_eof(ch);
	}
	std::streamsize xsputn(const char* p, std::streamsize n) override {
		for (std::streamsize i = 0; i < n; i++) {
			sum = (unsigned char)(sum + p[i]);
		}
		return n;
	}
};

// A log for the code under test: none, or a real one that writes every entry.
using NullLog = abc::null_log;
using RealLog = abc::log_ostream<abc::debug_line_ostream<>, abc::log_filter>;

template <typename Log>
struct LogBox {
	Log* get() {
		return nullptr;
	}
};
template <>
struct LogBox<RealLog> {
	NoBuf sink;
	abc::log_filter filter{ abc::severity::abc::debug };
	RealLog log{ &sink, &filter };
	RealLog* get() {
		return &log;
	}
};
