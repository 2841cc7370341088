// Common part of the harnesses: recording of traces, and helpers to drive the code under test.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
using std::min;
using std::max;

namespace H {

static FILE *out = nullptr;

inline bool thorough()
{
	const char *t = getenv("VERIF_TIER");
	return t && !strcmp(t, "thorough");
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SANITIZED
#endif
#endif
#ifdef SANITIZED
static constexpr bool sanitized = true;
#else
static constexpr bool sanitized = false;
#endif
// Samples of a history that lasts: past 2^16, except for the build with sanitizers
inline int lasting()
{
	return sanitized ? 3000 : thorough() ? 270000 : 66500;
}
inline uint64_t seed()
{
	const char *s = getenv("VERIF_SEED");
	return s ? strtoull(s, nullptr, 10) : 1;
}
inline std::string outdir()
{
	const char *o = getenv("OUT");
	return o ? o : ".";
}
// Start a new trace file
inline void shard(const std::string &name)
{
	if (out)
		fclose(out);
	out = fopen((outdir() + "/" + name + ".ndjson").c_str(), "w");
	if (!out)
		exit(77);
	setvbuf(out, nullptr, _IOFBF, 1 << 16);
}
inline void done()
{
	if (out)
		fclose(out);
	out = nullptr;
}

// splitmix64
struct Rng
{
	uint64_t s;
	// not only steps of the same sequence: mixed, for neighbouring seeds to have nothing in common
	Rng(uint64_t salt) : s(seed()) { s = next() + salt * 0xD1B54A32D192ED03ull; s = next(); }
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	int below(int n) { return int(next() % uint64_t(n)); }
	int range(int a, int b) { return a + int(next() % uint64_t(int64_t(b) - a + 1)); }
	double unit() { return double(next() >> 11) / 9007199254740992.0; }
	double real(double a, double b) { return a + (b - a) * unit(); }
};

inline std::string hex(double v)
{
	char b[64];
	snprintf(b, sizeof b, "%a", v);
	return b;
}
inline std::string hex(float v) { return hex(double(v)); }
inline std::string hex(long double v)
{
	char b[64];
	snprintf(b, sizeof b, "%La", v);
	return b;
}
inline long long clampi(long long v)
{
	return v > 2147483647LL ? 2147483647LL : v < -2147483648LL ? -2147483648LL : v;
}

// Calls f(std::integral_constant<int, N>()) for all small lengths N and for some larger ones,
// mostly around powers of two
template <typename F, int... N>
void each_length(F f, std::integer_sequence<int, N...>)
{
	int t[] = {(f(std::integral_constant<int, N>()), 0)...};
	(void)t;
}
template <typename F, int... N>
void each_length_from_one(F f, std::integer_sequence<int, N...>)
{
	int t[] = {(f(std::integral_constant<int, N + 1>()), 0)...};
	(void)t;
}
template <typename F>
void lengths(F f)
{
	each_length_from_one(f, std::make_integer_sequence<int, 72>());
	each_length(f, std::integer_sequence<int, 96, 97, 99, 127, 128, 129, 191, 255, 256, 257, 333, 511, 512, 513, 777>());
}
template <typename F>
void long_lengths(F f)
{
	each_length(f, std::integer_sequence<int, 1000, 1023, 1024, 1025, 1999, 2047, 2048, 2049, 3333, 4095, 4096, 4097, 8191, 8193, 16385, 32767, 32769, 65535, 65537>());
}

// One event; written when it goes out of scope
struct Ev
{
	std::string s;
	Ev(const char *e) { s.reserve(128); s = "{\"e\":\""; s += e; s += '"'; }
	~Ev() { s += "}\n"; fwrite(s.data(), 1, s.size(), out); }
	void key(const char *k) { s += ",\""; s += k; s += "\":"; }
	Ev &i(const char *k, long long v) { key(k); s += std::to_string(clampi(v)); return *this; }
	Ev &b(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
	Ev &str(const char *k, const std::string &v) { key(k); s += '"'; s += v; s += '"'; return *this; }
	template <typename T> Ev &f(const char *k, T v) { return str(k, hex(v)); }
	template <typename V> Ev &is(const char *k, const V &v)
	{
		key(k);
		s += '[';
		bool first = true;
		for (auto x : v) { if (!first) s += ','; first = false; s += std::to_string(clampi((long long)(x))); }
		s += ']';
		return *this;
	}
	template <typename V> Ev &fs(const char *k, const V &v)
	{
		key(k);
		s += '[';
		bool first = true;
		for (auto x : v) { if (!first) s += ','; first = false; s += '"'; s += hex(x); s += '"'; }
		s += ']';
		return *this;
	}
};

// An object constructed in memory that is filled with a pattern before, in an allocation of
// exactly its size: what the constructor leaves uninitialized is garbage, and what is written
// beyond the object is beyond the allocation.
template <typename T>
struct Obj
{
	void *mem;
	T *p;
	template <typename... A>
	Obj(A &&... a)
	{
		mem = ::operator new(sizeof(T));
		unsigned char *m = static_cast<unsigned char *>(mem);
		for (size_t i = 0; i < sizeof(T); ++i)
			m[i] = 0x5b + 7 * (i % 5);
		asm volatile("" : : "r"(mem) : "memory");
		p = new (mem) T(std::forward<A>(a)...);
	}
	~Obj() { p->~T(); ::operator delete(mem); }
	Obj(const Obj &) = delete;
	T &operator*() { return *p; }
	T *operator->() { return p; }
};

// Something called with one sample at a time, whatever its length
struct Stepper
{
	virtual int step(int v) = 0;
	virtual ~Stepper() {}
};
template <typename M>
struct Step : public Stepper
{
	Obj<M> m;
	template <typename... A> Step(A &&... a) : m(std::forward<A>(a)...) {}
	int step(int v) override { return (*m)(v); }
};

// Runs f in a child process: "abort" if it ended by abort(), as a failed assertion does,
// "returned" if f returned, "other" otherwise
inline std::string outcome(const std::function<void()> &f)
{
	fflush(out);
	pid_t pid = fork();
	if (pid == 0) {
		FILE *n = freopen("/dev/null", "w", stderr);
		(void)n;
		f();
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)
		return "abort";
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
		return "returned";
	return "other";
}

// Call sequences generated from a model: one per line, "op arg;op arg;..."
inline std::vector<std::vector<std::pair<std::string, int>>> scripts(const char *name)
{
	std::vector<std::vector<std::pair<std::string, int>>> r;
	const char *d = getenv("SCRIPTS");
	std::ifstream f(std::string(d ? d : ".") + "/" + name + ".txt");
	std::string line;
	while (std::getline(f, line)) {
		r.emplace_back();
		size_t p = 0;
		while (p < line.size()) {
			size_t q = line.find(';', p);
			if (q == std::string::npos)
				q = line.size();
			std::string w = line.substr(p, q - p);
			size_t sp = w.find(' ');
			r.back().push_back({w.substr(0, sp), sp == std::string::npos ? 0 : atoi(w.c_str() + sp + 1)});
			p = q + 1;
		}
	}
	if (r.empty())
		exit(78);
	return r;
}

}
