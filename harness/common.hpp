// Shared helpers of the harnesses: wire reading, event writing, per-case isolation.
#pragma once
#include <bits/stdc++.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <unistd.h>
#include <sys/resource.h>

struct Rd
{
	std::vector<long long> v; std::size_t p = 0;
	explicit Rd(std::string const& line) { char const* s = line.c_str(); char* e; for (;;) { long long x = std::strtoll(s, &e, 10); if (e == s) break; v.push_back(x); s = e; } }
	bool more() const { return p < v.size(); }
	long long i() { return p < v.size() ? v[p++] : 0; }
	template <typename S> S str() { S s; long long n = i(); for (long long k = 0; k < n; ++k) s.push_back(static_cast<typename S::value_type>(i())); return s; }
};

struct J // tiny JSON writer
{
	std::string s; bool first = true;
	J& key(char const* k) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; return *this; }
	J& raw(char const* k, std::string const& x) { key(k); s += x; return *this; }
	J& i(char const* k, long long x) { key(k); s += std::to_string(x); return *this; }
	J& b(char const* k, bool x) { key(k); s += x ? "true" : "false"; return *this; }
	J& str(char const* k, std::string const& x) { key(k); s += '"'; s += x; s += '"'; return *this; } // plain ASCII only
	std::string obj() const { return "{" + s + "}"; }
	void emit() const { std::fputs("E {", stdout); std::fputs(s.c_str(), stdout); std::fputs("}\n", stdout); std::fflush(stdout); }
};

template <typename S> inline std::string arr(S const& x)
{
	std::string r = "["; bool f = true;
	for (auto c : x) { if (!f) r += ','; f = false; r += std::to_string(static_cast<long long>(static_cast<std::make_unsigned_t<decltype(c)>>(c))); }
	return r + "]";
}
inline std::string arrj(std::vector<std::string> const& x)
{
	std::string r = "["; bool f = true;
	for (auto const& c : x) { if (!f) r += ','; f = false; r += c; }
	return r + "]";
}

inline int harness_main(std::function<void(Rd&)> run, unsigned seconds = 5, rlim_t mem = 3ull << 30)
{
	rlimit rl{ mem, mem }; setrlimit(RLIMIT_AS, &rl);
	rlimit rc{ 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
	rlimit rf{ 64 << 20, 64 << 20 };
	std::string line;
	while (std::getline(std::cin, line))
	{
		Rd rd(line);
		long long id = rd.i();
		alarm(seconds);
		run(rd);
		alarm(0);
		std::printf("D %lld\n", id);
		std::fflush(stdout);
	}
	return 0;
}
