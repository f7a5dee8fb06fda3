// JSON, as a client of a service sees it.
#pragma once
#include "pbt.h"

namespace clientjson {

	struct Val {
		enum Kind { none, number, string, array, object } kind = none;
		double num = 0;
		std::string str;
		std::vector<Val> arr;
		std::vector<std::pair<std::string, Val>> obj;
		const Val& operator[](const char* k) const {
			static const Val nothing;
			for (auto& p : obj) {
				if (p.first == k) {
					return p.second;
				}
			}
			return nothing;
		}
		bool is(double d) const {
			return kind == number && num == d;
		}
	};

	struct Parser {
		const std::string& s;
		std::size_t i = 0;
		Parser(const std::string& s)
			: s(s) {
		}
		void bad() {
			pbt::fail(pbt::fmt("the body isn't valid JSON: %s", pbt::quote(s).c_str()));
		}
		void ws() {
			while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i]) {
				i++;
			}
		}
		bool eat(char c) {
			ws();
			if (i < s.size() && s[i] == c) {
				i++;
				return true;
			}
			return false;
		}
		std::string string() {
			std::string r;
			if (!eat('"')) {
				bad();
			}
			while (i < s.size() && s[i] != '"') {
				r += s[i++];
			}
			if (!eat('"')) {
				bad();
			}
			return r;
		}
		Val value() {
			Val v;
			ws();
			if (eat('{')) {
				v.kind = Val::object;
				if (!eat('}')) {
					do {
						std::string k = string();
						if (!eat(':')) {
							bad();
						}
						v.obj.push_back({ k, value() });
					} while (eat(','));
					if (!eat('}')) {
						bad();
					}
				}
			}
			else if (eat('[')) {
				v.kind = Val::array;
				if (!eat(']')) {
					do {
						v.arr.push_back(value());
					} while (eat(','));
					if (!eat(']')) {
						bad();
					}
				}
			}
			else if (i < s.size() && s[i] == '"') {
				v.kind = Val::string;
				v.str = string();
			}
			else {
				std::size_t b = i;
				while (i < s.size() && strchr("+-.0123456789eE", s[i]) && s[i]) {
					i++;
				}
				std::string t = s.substr(b, i - b);
				char* e;
				v.kind = Val::number;
				v.num = strtod(t.c_str(), &e);
				if (t.empty() || *e) {
					bad();
				}
			}
			return v;
		}
		Val all() {
			Val v = value();
			ws();
			if (i != s.size()) {
				bad();
			}
			return v;
		}
	};

}
