#include "common.hpp"
#include <wordring/string/atom.hpp>
#include <wordring/serialize/serialize.hpp>
#include <wordring/serialize/serialize_iterator.hpp>

// number of serialised 32-bit units = twice the number of identifiers that can be in use
template <typename Set> static std::uint32_t span(Set const& s) { std::uint32_t n = 0; for (auto a = s.ibegin(); a != s.iend(); ++a) ++n; return n / 2; }

template <typename Str> struct Run
{
	using Set = wordring::basic_atom_set<Str>;
	Set s;
	unsigned n = 0;	// the forms of a call take turns

	void observe(J& j, std::vector<Str> const& pool)
	{
		std::vector<std::string> fwd, bwd; bool consistent = true;
		for (Str const& k : pool)
		{
			auto a = s.at(k);
			std::uint32_t id = a;
			if (s.contains(k) != (id != 0)) consistent = false;
			if (static_cast<bool>(a) != (id != 0)) consistent = false;
			if (id != 0) { Str x; a.string(x); if (x != k || static_cast<Str>(a) != k) consistent = false; if (!(a == s.at(k.begin(), k.end()))) consistent = false; }
			if (id != 0) fwd.push_back("{\"k\":" + arr(k) + ",\"id\":" + std::to_string(id) + "}");
		}
		std::uint32_t top = span(s) ;
		for (std::uint32_t id = 0; id < top + 5; ++id)
		{
			auto a = s.at(id);
			if (!a) { if (static_cast<std::uint32_t>(a) != 0) consistent = false; continue; }
			bwd.push_back("{\"k\":" + arr(static_cast<Str>(a)) + ",\"id\":" + std::to_string(id) + "}");
		}
		for (std::size_t i = 0; i < pool.size(); ++i) for (std::size_t k = 0; k < pool.size(); ++k)
		{
			auto a = s.at(pool[i]), b = s.at(std::basic_string_view<typename Str::value_type>(pool[k]));
			bool same = static_cast<std::uint32_t>(a) == static_cast<std::uint32_t>(b);
			if ((a == b) != same || (a != b) == same || (!a) != !static_cast<bool>(a)) consistent = false;
		}
		for (std::uint32_t id : { 1000000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu }) if (s.at(id)) consistent = false;
		j.raw("fwd", arrj(fwd)).raw("bwd", arrj(bwd)).i("size", static_cast<long long>(s.size())).b("consistent", consistent);
	}

	// many strings of the same length: 0..n-1 inserted, those with remainder q modulo m erased, n..2n-1 inserted
	void bulk(long long n, long long base, long long d, long long step, long long m, long long q)
	{
		alarm(120);
		auto key = [&](long long x) { Str k; for (long long i = 0; i < d; ++i) { k.insert(k.begin(), static_cast<typename Str::value_type>(x % base + 1)); x /= base; } return k; };
		auto ids = [&](long long lo, long long hi) { std::vector<long long> o; for (long long i = lo; i < hi; ++i) o.push_back(static_cast<std::uint32_t>(s.at(key(i)))); return o; };
		for (long long i = 0; i < n; ++i) s.insert(key(i * step % n));
		std::vector<long long> a = ids(0, n);
		for (long long i = q; i < n; i += m) { if (i & 1) s.erase(key(i)); else s.erase(static_cast<std::uint32_t>(s.at(key(i)))); }
		std::vector<long long> b = ids(0, n);
		for (long long i = n; i < 2 * n; ++i) s.insert(key(i));
		std::vector<long long> c = ids(0, 2 * n), back;
		for (long long x : c) { Str k = x ? static_cast<Str>(s.at(static_cast<std::uint32_t>(x))) : Str(); long long v = 0; for (auto ch : k) v = v * base + static_cast<long long>(ch) - 1; back.push_back(k.empty() || key(v) != k ? -1 : v); }
		J j; j.str("op", "bulk").i("n", n).i("m", m).i("q", q).raw("a", arr(a)).raw("b", arr(b)).raw("ids", arr(c)).raw("back", arr(back)).i("size", static_cast<long long>(s.size())); j.emit();
	}

	void operator()(Rd& r)
	{
		std::vector<Str> pool; long long np = r.i();
		for (long long i = 0; i < np; ++i) pool.push_back(r.str<Str>());
		while (r.more())
		{
			int op = static_cast<int>(r.i());
			J j;
			if (op == 8) { long long a[6]; for (auto& x : a) x = r.i(); bulk(a[0], a[1], a[2], a[3], a[4], a[5]); continue; }
			if (op == 1) { Str k = pool.at(r.i()); std::uint32_t id = ++n & 1 ? s.insert(k) : s.insert(k.begin(), k.end()); j.str("op", "insert").raw("k", arr(k)).i("id", id); }
			else if (op == 2) { Str k = pool.at(r.i()); if (++n & 1) s.erase(k); else s.erase(k.begin(), k.end()); j.str("op", "erase").raw("k", arr(k)); }
			else if (op == 3) { Str k = pool.at(r.i()); std::uint32_t id = s.at(k); s.erase(id); j.str("op", "erase").raw("k", arr(k)); }
			else if (op == 4) { Str k = pool.at(r.i()); std::uint32_t id = s[k]; j.str("op", "insert").raw("k", arr(k)).i("id", id); }
			else if (op == 5)
			{
				long long n = r.i(); std::vector<Str> ks; std::vector<std::string> o;
				for (long long i = 0; i < n; ++i) { ks.push_back(pool.at(r.i())); o.push_back(arr(ks.back())); }
				if (++n & 1) s.assign(ks.begin(), ks.end()); else { Set u(ks.begin(), ks.end()); s = std::move(u); } j.str("op", "assign").raw("ks", arrj(o));
			}
			else if (op == 6)
			{
				int form = static_cast<int>(r.i());
				Set u;
				if (form == 0) { std::vector<std::uint32_t> v(s.ibegin(), s.iend()); if (++n & 1) u.assign(v.begin(), v.end()); else u = Set(v.begin(), v.end()); }
				else if (form == 1)
				{
					auto a = wordring::serialize_iterator(s.ibegin()); auto b = wordring::serialize_iterator(s.iend());
					std::vector<std::uint8_t> v; while (a != b) { v.push_back(*a); ++a; }
					u.assign(v.begin(), v.end());
				}
				else { std::stringstream ss; ss << static_cast<wordring::stable_trie<typename Str::value_type> const&>(s); ss >> static_cast<wordring::stable_trie<typename Str::value_type>&>(u); }
				s = u; j.str("op", "reload").i("form", form);
			}
			else { s.clear(); j.str("op", "clear"); }
			observe(j, pool); j.emit();
		}
	}
};

// integers <-> bytes: op 9 width n (n byte groups)
template <typename T> static void numbers(Rd& r)
{
	long long n = r.i(); std::vector<T> v; std::vector<std::string> in;
	for (long long i = 0; i < n; ++i)
	{
		std::make_unsigned_t<T> x = 0; std::vector<std::uint8_t> bs;
		for (std::size_t b = 0; b < sizeof(T); ++b) { std::uint8_t c = static_cast<std::uint8_t>(r.i()); bs.push_back(c); x = static_cast<std::make_unsigned_t<T>>((static_cast<std::uint64_t>(x) << 8) | c); }
		v.push_back(static_cast<T>(x)); in.push_back(arr(bs));
	}
	auto bytes_of = [](T t) { std::vector<std::uint8_t> o(sizeof(T)); std::make_unsigned_t<T> x = t; for (std::size_t b = sizeof(T); b-- > 0;) { o[b] = static_cast<std::uint8_t>(x); x = static_cast<std::make_unsigned_t<T>>(static_cast<std::uint64_t>(x) >> 8); } return o; };
	std::vector<std::uint8_t> a, b, c; std::vector<std::string> back, back2;
	auto i1 = wordring::serialize_iterator(v.begin()); auto i2 = wordring::serialize_iterator(v.end());
	{ std::vector<decltype(i1)> at; auto k = i1; while (true) { at.push_back(k); if (k == i2) break; ++k; }
	  for (std::size_t x = 0; x < at.size(); ++x) for (std::size_t y = 0; y < at.size(); ++y) if ((at[x] == at[y]) != (x == y) || (at[x] != at[y]) != (x != y) || at[x].base() != v.begin() + x / sizeof(T)) c.push_back(0); }
	while (i1 != i2) a.push_back(*i1++);
	for (T t : v) for (std::uint8_t x : wordring::serialize(t)) b.push_back(x);
	for (T t : v) for (std::uint32_t k = 0; k < sizeof(T); ++k) c.push_back(wordring::serialize(t, k));
	using DI = wordring::deserialize_iterator<T, std::vector<std::uint8_t>::iterator>;
	if (a.size() % sizeof(T) == 0) { auto d1 = DI(a.begin()); auto d2 = DI(a.end()); auto d3 = d1; while (d1 != d2) { back.push_back(d1 == d3 && !(d1 == d2) && !(d1 != d3) && *d3 == *d1 ? arr(bytes_of(*d1)) : std::string("[-1]")); ++d1; auto o = d3++; if (o == d3) back.push_back("[-2]"); } if (!(d1 == d2)) back.push_back("[-3]"); }
	auto p = b.begin(); while (p != b.end()) { T t{}; auto q = p; p = wordring::deserialize(p, b.end(), t); if (q == p) break; back2.push_back(arr(bytes_of(t))); }
	J j; j.str("op", "numbers").raw("in", arrj(in)).raw("iter", arr(a)).raw("func", arr(b)).raw("pos", arr(c)).raw("back", arrj(back)).raw("back2", arrj(back2)); j.emit();
}

int main()
{
	return harness_main([](Rd& r)
	{
		int w = static_cast<int>(r.i());
		if (w == 1) Run<std::u8string>{}(r);
		else if (w == 2) Run<std::u16string>{}(r);
		else if (w == 4) Run<std::u32string>{}(r);
		else if (w == 11) numbers<std::uint8_t>(r);
		else if (w == 12) numbers<std::int16_t>(r);
		else if (w == 14) numbers<std::int32_t>(r);
		else if (w == 15) numbers<std::uint32_t>(r);
		else numbers<std::uint64_t>(r);
	});
}
