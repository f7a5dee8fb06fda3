// A stand-in for the kernel's GPIO and I2C devices: open(), close() and ioctl() of this program treat paths below
// /dev/gpiochip and /dev/i2c- as devices of the current Bench, and nothing reaches a real device.
// Include after sim.h, in one unit only.
#pragma once

#include <deque>
#include <map>
#include <set>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <linux/gpio.h>
#include <linux/i2c.h>
#include <linux/i2c-dev.h>

namespace dev {

	struct Line {
		std::string name;
		std::string consumer;
		std::uint64_t flags = 0;
		int fd = -1;									// who holds it
		unsigned level = 0;								// of an output
		// The level of an input at a time.
		std::function<unsigned(sim::ns_t)> input;
		std::vector<std::pair<sim::ns_t, unsigned>> trace;	// levels put on an output
	};

	struct Chip {
		std::string path, name, label;
		std::vector<Line> lines;
	};

	// One SMBus transfer as it arrived at the bus.
	struct Transfer {
		unsigned addr = 0;
		bool read = false;
		unsigned command = 0;
		unsigned size = 0;								// I2C_SMBUS_BYTE...
		std::string data;								// written or read bytes
		int thread = 0;
		sim::ns_t when = 0;
		bool failed = false;

		bool operator==(const Transfer& o) const {
			return addr == o.addr && read == o.read && command == o.command && size == o.size && data == o.data;
		}
		std::string str() const {
			std::string r = pbt::fmt("%s addr=%02x command=%02x size=%u data=", read ? "read" : "write", addr, command, size);
			for (unsigned char c : data) {
				r += pbt::fmt("%02x", c);
			}
			return r;
		}
	};

	struct Target {
		std::map<unsigned, std::uint8_t> bytes;
		std::map<unsigned, std::uint16_t> words;
		std::map<unsigned, std::string> blocks;
		std::deque<std::uint8_t> queue;					// answers to reads without a register
		std::function<std::uint16_t(unsigned reg)> word;	// instead of words
		std::function<void(unsigned reg, std::uint16_t word)> on_word;	// a word was written
	};

	struct Bus {
		std::string path;
		unsigned long funcs = 0;
		std::map<unsigned, Target> targets;
		std::vector<Transfer> log;
	};

	enum class Kind { chip, line, bus };
	struct Open {
		Kind kind;
		Chip* chip = nullptr;
		unsigned line = 0;
		bool output = false;
		Bus* bus = nullptr;
		unsigned addr = 0;								// I2C_SLAVE
	};

	class Bench {
	public:
		std::deque<Chip> chips;
		std::deque<Bus> buses;
		std::map<int, Open> open;
		std::set<int> closed;
		int next_fd = 100000;
		std::string error;								// the first misuse
		std::uint64_t ioctls = 0;
		std::uint64_t opens = 0;
		sim::ns_t ioctl_cost = 100;
		// Faults, counted down: the n-th call fails.
		int fail_open = 0, fail_ioctl = 0, fail_close = 0;
		bool fail_all_ioctl = false;
		std::function<void(Chip&, unsigned, unsigned)> on_put;	// chip, line, level

		Bench() { current() = this; }
		~Bench() { current() = nullptr; }
		static Bench*& current() {
			static Bench* b = nullptr;
			return b;
		}

		void wrong(const std::string& s) {
			if (error.empty()) {
				error = s;
			}
		}
		void check() {
			if (!error.empty()) {
				pbt::fail(error);
			}
		}
		static bool due(int& n) {
			return n > 0 && --n == 0;
		}
		static sim::ns_t now() {
			return sim::in_world() ? sim::world()->now : 0;
		}
		static void pass(sim::ns_t cost) {
			if (sim::in_world()) {
				sim::world()->point(cost);
			}
		}

		static bool is_device(const char* path) {
			return strncmp(path, "/dev/gpiochip", 13) == 0 || strncmp(path, "/dev/i2c-", 9) == 0;
		}

		int do_open(const char* path) {
			pass(ioctl_cost);
			opens++;
			if (due(fail_open)) {
				errno = EACCES;
				return -1;
			}
			Open o{};
			bool found = false;
			for (auto& c : chips) {
				if (c.path == path) {
					o.kind = Kind::chip;
					o.chip = &c;
					found = true;
				}
			}
			for (auto& b : buses) {
				if (b.path == path) {
					o.kind = Kind::bus;
					o.bus = &b;
					found = true;
				}
			}
			if (!found) {
				errno = ENOENT;
				return -1;
			}
			open[next_fd] = o;
			return next_fd++;
		}

		int do_close(int fd) {
			pass(ioctl_cost);
			auto i = open.find(fd);
			if (i == open.end()) {
				wrong(closed.count(fd) != 0 ? "a descriptor of a device is closed twice" : "a descriptor that was never open is closed");
				errno = EBADF;
				return -1;
			}
			if (i->second.kind == Kind::line) {
				i->second.chip->lines[i->second.line].fd = -1;
				i->second.chip->lines[i->second.line].consumer.clear();
				i->second.chip->lines[i->second.line].flags &= ~(std::uint64_t)GPIO_V2_LINE_FLAG_USED;
			}
			open.erase(i);
			closed.insert(fd);
			if (due(fail_close)) {
				errno = EIO;
				return -1;
			}
			return 0;
		}

		int fail(int e) {
			errno = e;
			return -1;
		}

		int do_ioctl(int fd, unsigned long req, void* arg) {
			pass(ioctl_cost);
			ioctls++;
			auto i = open.find(fd);
			if (i == open.end()) {
				wrong(closed.count(fd) != 0 ? "a device is used through a descriptor that has been closed" : "a device is used through a descriptor that was never open");
				return fail(EBADF);
			}
			Open& o = i->second;
			bool broken = due(fail_ioctl) || fail_all_ioctl;
			switch (o.kind) {
				case Kind::chip: return chip_ioctl(o, req, arg, broken);
				case Kind::line: return line_ioctl(o, req, arg, broken);
				default: return bus_ioctl(o, req, arg, broken);
			}
		}

		int chip_ioctl(Open& o, unsigned long req, void* arg, bool broken) {
			if (req == GPIO_GET_CHIPINFO_IOCTL) {
				if (broken) {
					return fail(EIO);
				}
				auto* p = static_cast<gpiochip_info*>(arg);
				memset(p, 0, sizeof *p);
				strncpy(p->name, o.chip->name.c_str(), sizeof(p->name) - 1);
				strncpy(p->label, o.chip->label.c_str(), sizeof(p->label) - 1);
				p->lines = o.chip->lines.size();
				return 0;
			}
			if (req == GPIO_V2_GET_LINEINFO_IOCTL) {
				auto* p = static_cast<gpio_v2_line_info*>(arg);
				if (broken) {
					return fail(EIO);
				}
				if (p->offset >= o.chip->lines.size()) {
					return fail(EINVAL);
				}
				Line& l = o.chip->lines[p->offset];
				std::uint32_t offset = p->offset;
				memset(p, 0, sizeof *p);
				p->offset = offset;
				strncpy(p->name, l.name.c_str(), sizeof(p->name) - 1);
				strncpy(p->consumer, l.consumer.c_str(), sizeof(p->consumer) - 1);
				p->flags = l.flags;
				return 0;
			}
			if (req == GPIO_V2_GET_LINE_IOCTL) {
				auto* p = static_cast<gpio_v2_line_request*>(arg);
				if (broken) {
					return fail(EIO);
				}
				if (p->num_lines != 1) {
					wrong(pbt::fmt("%u lines are requested instead of 1", p->num_lines));
					return fail(EINVAL);
				}
				if (strnlen(p->consumer, sizeof(p->consumer)) == sizeof(p->consumer)) {
					wrong("the consumer of a line request isn't terminated");
				}
				unsigned pos = p->offsets[0];
				if (pos >= o.chip->lines.size()) {
					return fail(EINVAL);
				}
				Line& l = o.chip->lines[pos];
				if (l.fd >= 0) {
					return fail(EBUSY);
				}
				std::uint64_t dir = p->config.flags & (GPIO_V2_LINE_FLAG_INPUT | GPIO_V2_LINE_FLAG_OUTPUT);
				if (dir == (GPIO_V2_LINE_FLAG_INPUT | GPIO_V2_LINE_FLAG_OUTPUT)) {
					return fail(EINVAL);
				}
				l.flags = p->config.flags | GPIO_V2_LINE_FLAG_USED;
				l.consumer = p->consumer;
				l.fd = next_fd;
				Open n{};
				n.kind = Kind::line;
				n.chip = o.chip;
				n.line = pos;
				n.output = dir == GPIO_V2_LINE_FLAG_OUTPUT;
				open[next_fd] = n;
				p->fd = next_fd++;
				return 0;
			}
			wrong(pbt::fmt("an unknown request %lx on a chip", req));
			return fail(ENOTTY);
		}

		int line_ioctl(Open& o, unsigned long req, void* arg, bool broken) {
			auto* p = static_cast<gpio_v2_line_values*>(arg);
			Line& l = o.chip->lines[o.line];
			if (req == GPIO_V2_LINE_GET_VALUES_IOCTL) {
				if (broken) {
					p->bits = ~0ull;
					return fail(EIO);
				}
				if ((p->mask & 1) == 0) {
					return fail(EINVAL);
				}
				unsigned v = o.output ? l.level : l.input ? l.input(now()) : 0;
				p->bits = v & p->mask;
				return 0;
			}
			if (req == GPIO_V2_LINE_SET_VALUES_IOCTL) {
				if (broken) {
					return fail(EIO);
				}
				if ((p->mask & 1) == 0) {
					return fail(EINVAL);
				}
				if (!o.output) {
					return fail(EPERM);
				}
				l.level = p->bits & 1;
				l.trace.push_back({ now(), l.level });
				if (on_put) {
					on_put(*o.chip, o.line, l.level);
				}
				return 0;
			}
			wrong(pbt::fmt("an unknown request %lx on a line", req));
			return fail(ENOTTY);
		}

		int bus_ioctl(Open& o, unsigned long req, void* arg, bool broken) {
			Bus& b = *o.bus;
			if (req == I2C_FUNCS) {
				if (broken) {
					return fail(EIO);
				}
				*static_cast<unsigned long*>(arg) = b.funcs;
				return 0;
			}
			if (req == I2C_SLAVE || req == I2C_SLAVE_FORCE) {
				if (broken) {
					return fail(EIO);
				}
				unsigned long a = (unsigned long)arg;
				if (a > 0x7f) {
					return fail(EINVAL);
				}
				o.addr = (unsigned)a;
				return 0;
			}
			if (req == I2C_SMBUS) {
				auto* m = static_cast<i2c_smbus_ioctl_data*>(arg);
				Transfer t;
				t.addr = o.addr;
				t.read = m->read_write == I2C_SMBUS_READ;
				t.command = t.read && m->size == I2C_SMBUS_BYTE ? 0 : m->command;
				t.size = m->size;
				t.thread = sim::in_world() ? sim::self()->id : 0;
				t.when = now();
				if (!t.read) {
					switch (m->size) {
						case I2C_SMBUS_BYTE: break;
						case I2C_SMBUS_BYTE_DATA: t.data.assign(1, (char)m->data->byte); break;
						case I2C_SMBUS_WORD_DATA: t.data = std::string{ (char)(m->data->word & 0xff), (char)(m->data->word >> 8) }; break;
						case I2C_SMBUS_BLOCK_DATA:
							if (m->data->block[0] > I2C_SMBUS_BLOCK_MAX) {
								return fail(EINVAL);
							}
							t.data.assign((const char*)&m->data->block[1], m->data->block[0]);
							break;
						default: wrong(pbt::fmt("an unknown SMBus transfer of size %u", m->size)); return fail(EINVAL);
					}
				}
				if (broken) {
					t.failed = true;
					b.log.push_back(t);
					return fail(EIO);
				}
				auto g = b.targets.find(o.addr);
				if (g == b.targets.end()) {
					t.failed = true;
					b.log.push_back(t);
					return fail(ENXIO);
				}
				Target& d = g->second;
				if (t.read) {
					switch (m->size) {
						case I2C_SMBUS_BYTE: {
							std::uint8_t v = 0;
							if (!d.queue.empty()) {
								v = d.queue.front();
								d.queue.pop_front();
							}
							m->data->byte = v;
							t.data.assign(1, (char)v);
							break;
						}
						case I2C_SMBUS_BYTE_DATA: m->data->byte = d.bytes[m->command]; t.data.assign(1, (char)m->data->byte); break;
						case I2C_SMBUS_WORD_DATA: m->data->word = d.word ? d.word(m->command) : d.words[m->command]; t.data = std::string{ (char)(m->data->word & 0xff), (char)(m->data->word >> 8) }; break;
						case I2C_SMBUS_BLOCK_DATA: {
							const std::string& s = d.blocks[m->command];
							m->data->block[0] = (std::uint8_t)s.size();
							memcpy(&m->data->block[1], s.data(), s.size());
							t.data = s;
							break;
						}
						default: wrong(pbt::fmt("an unknown SMBus transfer of size %u", m->size)); return fail(EINVAL);
					}
				}
				else {
					switch (m->size) {
						case I2C_SMBUS_BYTE_DATA: d.bytes[m->command] = (std::uint8_t)t.data[0]; break;
						case I2C_SMBUS_WORD_DATA:
							d.words[m->command] = m->data->word;
							if (d.on_word) {
								d.on_word(m->command, m->data->word);
							}
							break;
						case I2C_SMBUS_BLOCK_DATA: d.blocks[m->command] = t.data; break;
						default: break;
					}
				}
				b.log.push_back(t);
				return 0;
			}
			wrong(pbt::fmt("an unknown request %lx on a bus", req));
			return fail(ENOTTY);
		}
	};
}

extern "C" {

	static int dev_open(const char* path, int flags, int mode) {
		dev::Bench* b = dev::Bench::current();
		if (b != nullptr && dev::Bench::is_device(path)) {
			return b->do_open(path);
		}
		return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
	}
	int open(const char* path, int flags, ...) {
		va_list v;
		va_start(v, flags);
		int mode = va_arg(v, int);
		va_end(v);
		return dev_open(path, flags, mode);
	}
	int close(int fd) {
		dev::Bench* b = dev::Bench::current();
		if (b != nullptr && fd >= 100000) {
			return b->do_close(fd);
		}
		return (int)syscall(SYS_close, fd);
	}
	int ioctl(int fd, unsigned long req, ...) {
		va_list v;
		va_start(v, req);
		void* arg = va_arg(v, void*);
		va_end(v);
		dev::Bench* b = dev::Bench::current();
		if (b != nullptr && fd >= 100000) {
			return b->do_ioctl(fd, req, arg);
		}
		return (int)syscall(SYS_ioctl, fd, req, arg);
	}
}
