// Shared by the conformance drivers: reads operations (NDJSON), executes them against the library, and writes each
// operation with its observed result (NDJSON). One line per public call, written after the call returned or threw.
#pragma once
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>
#include <zenkit/Stream.hh>

#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <string>
#include <vector>

#include <nlohmann/json.hpp>
#include <typeinfo>

using json = nlohmann::json;
namespace zk = zenkit;

inline std::string g_scratch;

// Strings travel as arrays of byte values, so that the specification can look at the characters.
inline std::string to_str(json const& j) {
	std::string s;
	for (auto& c : j) s.push_back(static_cast<char>(c.get<int>()));
	return s;
}

inline json from_str(std::string_view s) {
	json j = json::array();
	for (unsigned char c : s) j.push_back(static_cast<int>(c));
	return j;
}

template <typename V>
inline json from_bytes(V const& v) {
	json j = json::array();
	for (auto c : v) j.push_back(static_cast<int>(static_cast<unsigned char>(c)));
	return j;
}

inline std::vector<std::byte> to_bytes(json const& j) {
	std::vector<std::byte> v;
	for (auto& c : j) v.push_back(static_cast<std::byte>(c.get<int>()));
	return v;
}

// 32-bit words travel as [high 16 bits, low 16 bits], since TLC's integers are 32 bits wide.
inline json word(uint32_t v) {
	return json::array({static_cast<int>(v >> 16), static_cast<int>(v & 0xFFFF)});
}

inline uint32_t unword(json const& j) {
	return (static_cast<uint32_t>(j[0].get<int>()) << 16) | static_cast<uint32_t>(j[1].get<int>());
}

inline uint32_t fbits(float f) {
	uint32_t v;
	memcpy(&v, &f, 4);
	return v;
}

inline float bitsf(uint32_t v) {
	float f;
	memcpy(&f, &v, 4);
	return f;
}

struct Driver {
	virtual ~Driver() = default;
	virtual void begin() = 0;                 ///< a new, independent scenario starts
	virtual json step(json const& op) = 0;    ///< execute the operation, return the event to record
};

template <typename D>
int run_driver(int argc, char** argv) {
	if (argc < 4) {
		fprintf(stderr, "usage: %s in out scratch\n", argv[0]);
		return 97;
	}
	std::string level = getenv("ZKLOG") ? getenv("ZKLOG") : "";
	if (!level.empty()) zk::Logger::set_default(zk::LogLevel::TRACE);
	g_scratch = argv[3];
	std::ifstream in {argv[1]};
	FILE* out = fopen(argv[2], "w");
	if (!in || !out) return 97;
	std::unique_ptr<D> d;
	std::string line;
	while (std::getline(in, line)) {
		if (line.empty()) continue;
		json op = json::parse(line);
		json ev;
		if (op["op"] == "begin") {
			d.reset();
			fputs("{\"op\":\"begin\"}\n", out);
			fflush(out);
			d = std::make_unique<D>();
			d->begin();
			continue;
		}
		alarm(60);      // a call that does not return is a failure of its own
		ev = d->step(op);
		alarm(0);
		auto s = ev.dump();
		fwrite(s.data(), 1, s.size(), out);
		fputc('\n', out);
		fflush(out);
	}
	d.reset();
	fclose(out);
	return 0;
}
