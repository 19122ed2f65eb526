#include "common.hpp"
#include <wordring/trie/trie.hpp>
#include <wordring/serialize/serialize_iterator.hpp>
#include <sstream>

template <typename It> static std::string path(It const& it)
{
	std::basic_string<typename It::value_type> s; it.string(s); return arr(s);
}

template <typename T, typename Str> struct Run
{
	using L = typename Str::value_type;
	T t;
	unsigned n = 0;	// the forms of a call take turns

	template <typename It> void walk(It const& n, std::vector<std::string>& out, int depth)
	{
		if (depth > 60) std::abort();
		if (n) { Str s; n.string(s); out.push_back("{\"k\":" + arr(s) + ",\"v\":" + std::to_string(static_cast<std::int32_t>(t.at(n))) + "}"); }
		auto e = n.end();
		for (auto c = n.begin(); c != e; ++c) walk(c, out, depth + 1);
	}

	void observe(J& j)
	{
		std::vector<std::string> out;
		walk(n & 1 ? t.begin() : t.cbegin(), out, 0);
		j.raw("enum", arrj(out)).i("size", static_cast<long long>(t.size())).b("empty", t.empty());
	}

	// every form of a question gives the same answer
	bool forms(Str const& k)
	{
		T const& c = t; auto b = k.begin(), e = k.end(); auto f = t.find(k);
		bool in = t.contains(k), ok = t.contains(b, e) == in && c.contains(k) == in && t.find(b, e) == f && c.find(k) == f && c.search(k) == t.search(k);
		if constexpr (requires { t.search(b, e); }) ok = ok && t.search(b, e) == t.search(k);
		ok = ok && (f == c.end()) == !in && (f != c.end()) == in && c.begin() == t.cbegin() && c.end() == t.cend() && t.begin() == t.cbegin() && t.end() == t.cend();
		if (in)
		{
			std::int32_t v = static_cast<std::int32_t>(t.at(k));
			ok = ok && static_cast<std::int32_t>(t.at(b, e)) == v && static_cast<std::int32_t>(c.at(b, e)) == v && static_cast<std::int32_t>(c.at(f)) == v && static_cast<std::int32_t>(t.at(f)) == v && static_cast<std::int32_t>(t[k]) == v && c.contains(k);
		}
		else
		{
			int x = 0; try { t.at(b, e); } catch (std::out_of_range const&) { ++x; } try { c.at(b, e); } catch (std::out_of_range const&) { ++x; }
			ok = ok && x == 2 && t.size() == c.size();
		}
		auto it = t.begin(); for (L x : k) { auto nx = it[x]; if (nx == t.end()) break; it = nx; }
		auto q = it.begin(), r = it.begin(); for (; q != it.end(); ++q, r++) ok = ok && q == r && !(q != r) && *q == *r && !(q == it.end());
		return ok && r == it.end();
	}

	void probe(Str const& k)
	{
		J j; j.str("op", "probe").raw("k", arr(k));
		j.b("contains", t.contains(k)).b("find", t.find(k) != t.cend());
		if (t.find(k) != t.cend()) j.raw("fpath", path(t.find(k))); else j.raw("fpath", "[]");
		long long v = -1;
		try { v = static_cast<std::int32_t>(t.at(k)); } catch (std::out_of_range const&) { v = -1; }
		j.i("at", v);
		auto s = t.search(k);
		j.b("search", s != t.cend()).raw("spath", s != t.cend() ? path(s) : "[]");
		auto lk = t.lookup(k.begin(), k.end());
		j.i("consumed", lk.second - k.begin()).raw("lpath", path(lk.first));
		// step by step
		auto it = t.begin(); long long n = 0;
		for (L c : k) { auto nx = it[c]; if (nx == t.cend()) break; it = nx; ++n; }
		j.i("steps", n).raw("npath", path(it)).b("iskey", static_cast<bool>(it)).b("notkey", !it);
		std::vector<std::string> kids; bool back = true;
		auto e = it.end();
		for (auto c = it.begin(); c != e; ++c)
		{
			kids.push_back(std::to_string(static_cast<long long>(static_cast<std::make_unsigned_t<L>>(*c))));
			if (!(c.parent() == it)) back = false;
			if (!(it[*c] == c)) back = false;
		}
		j.raw("kids", arrj(kids)).b("back", back && forms(k));
		j.emit();
	}

	void reload(int form)
	{
		if (form == 0) { std::vector<std::int32_t> v(t.ibegin(), t.iend()); T u; u.insert(Str(2, L(65)), 3); u.assign(v.begin(), v.end()); t = u; }
		else if (form == 1)
		{
			std::vector<std::int32_t> w(t.ibegin(), t.iend());
			auto a = wordring::serialize_iterator(w.begin()); auto b = wordring::serialize_iterator(w.end());
			std::vector<std::uint8_t> v; while (a != b) { v.push_back(*a); ++a; }
			T u(v.begin(), v.end()); t = u;
		}
		else if (form == 2) { std::stringstream ss; ss << t; T u; u.insert(Str(1, L(66)), 9); ss >> u; t = u; }
		else if (form == 3)
		{
			T o; o.insert(Str(3, L(70)), 11);
			std::stringstream ss; ss << t << o << t; ss.put('Z');
			T a, b, c; ss >> a >> b >> c;
			bool ok = b.size() == 1 && b.contains(Str(3, L(70))) && static_cast<std::int32_t>(b.at(Str(3, L(70)))) == 11
				&& a.size() == t.size() && ss.get() == 'Z';
			J j; j.str("op", "streamok").b("ok", ok).emit();
			t = c;
		}
		else if (form == 4)
		{
			std::vector<std::uint16_t> v;
			for (auto a = t.ibegin(); a != t.iend(); ++a) { std::uint32_t x = *a; v.push_back(static_cast<std::uint16_t>(x >> 16)); v.push_back(static_cast<std::uint16_t>(x)); }
			T u(v.begin(), v.end()); t = u;
		}
		else { T u(t); T w; w.swap(u); t = w; }
		J j; j.str("op", "reload").i("form", form); observe(j); j.emit();
	}

	// many keys: the numbers 0..n-1 in d digits of the given base, every second one with one label more than the one before it
	Str key(long long i, long long base, long long d) const
	{
		Str s; long long x = i / 2; for (long long k = 0; k < d; ++k) { s.insert(s.begin(), static_cast<L>(x % base)); x /= base; }
		if (i % 2) s.push_back(static_cast<L>(base - 1));
		return s;
	}
	void bulk(long long n, long long base, long long d, long long step, long long m, long long rest, int form)
	{
		alarm(120);
		for (long long i = 0; i < n; ++i) { long long x = i * step % n; t.insert(key(x, base, d), static_cast<std::uint32_t>(x)); }
		long long full = static_cast<long long>(t.size());
		for (long long i = rest; i < n; i += m) t.erase(key(i, base, d));
		for (long long i = rest; i < n; i += 2 * m) t.insert(key(i, base, d), static_cast<std::uint32_t>(i + 1));
		if (form == 1) { std::vector<std::int32_t> v(t.ibegin(), t.iend()); T u; u.assign(v.begin(), v.end()); t = u; }
		if (form == 2) { std::stringstream ss; ss << t; T u; ss >> u; t = u; }
		if (form == 3) { std::vector<Str> ks; for (long long i = 0; i < n; ++i) if (t.contains(key(i, base, d))) ks.push_back(key(i, base, d)); t.assign(ks.begin(), ks.end()); for (long long i = 0; i < n; ++i) { Str k = key(i, base, d); if (t.contains(k)) t.at(k) = static_cast<std::int32_t>(i % m == rest ? i + 1 : i); } }
		std::vector<long long> ks, vs, in;
		std::vector<decltype(t.cbegin())> todo(1, t.cbegin());
		while (!todo.empty())
		{
			auto it = todo.back(); todo.pop_back();
			if (it)
			{
				Str s; it.string(s); bool odd = static_cast<long long>(s.size()) > d; long long x = 0;
				for (long long k = 0; k < d && k < static_cast<long long>(s.size()); ++k) x = x * base + static_cast<long long>(static_cast<std::make_unsigned_t<L>>(s[k]));
				ks.push_back(key(2 * x + odd, base, d) == s ? 2 * x + odd : -1); vs.push_back(static_cast<std::int32_t>(t.at(it)));
			}
			std::vector<decltype(it)> c; auto e = it.end(); for (auto b = it.begin(); b != e; ++b) c.push_back(b);
			todo.insert(todo.end(), c.rbegin(), c.rend());
		}
		for (long long i = 0; i < n; ++i) if (t.contains(key(i, base, d))) in.push_back(i);
		long long size = static_cast<long long>(t.size());
		t.clear();
		J j; j.str("op", "bulk").i("n", n).i("m", m).i("r", rest).i("full", full).i("size", size).b("clear", t.empty() && !t.contains(key(0, base, d))).raw("keys", arr(ks)).raw("vals", arr(vs)).raw("has", arr(in)); j.emit();
	}

	void operator()(Rd& r)
	{
		while (r.more())
		{
			int op = static_cast<int>(r.i());
			if (op == 1)
			{
				Str k = r.str<Str>(); long long v = r.i();
				auto it = v == 0 ? (++n & 1 ? t.insert(k) : t.insert(k.begin(), k.end())) : ++n & 1 ? t.insert(k, static_cast<std::uint32_t>(v)) : t.insert(k.begin(), k.end(), static_cast<std::uint32_t>(v));
				J j; j.str("op", "insert").raw("k", arr(k)).i("v", v).b("end", it == t.cend()).raw("rpath", it == t.cend() ? "[]" : path(it)); observe(j); j.emit();
			}
			else if (op == 2) { Str k = r.str<Str>(); if (++n & 1) t.erase(k); else t.erase(k.begin(), k.end()); J j; j.str("op", "erase").raw("k", arr(k)); observe(j); j.emit(); }
			else if (op == 3)
			{
				Str k = r.str<Str>(); long long v = r.i(); bool did = t.contains(k);
				if (did) switch (++n % 3) { case 0: t.at(k) = static_cast<std::int32_t>(v); break; case 1: t.at(k.begin(), k.end()) = static_cast<std::int32_t>(v); break; default: t.at(t.find(k)) = static_cast<std::int32_t>(v); }
				J j; j.str("op", "set").raw("k", arr(k)).i("v", v).b("did", did); observe(j); j.emit();
			}
			else if (op == 4)
			{
				Str k = r.str<Str>(); long long v = r.i();
				t[k] = static_cast<std::int32_t>(v);
				J j; j.str("op", "sub").raw("k", arr(k)).i("v", v); observe(j); j.emit();
			}
			else if (op == 5)
			{
				std::vector<Str> ks; long long n = r.i(); std::vector<std::string> o;
				for (long long i = 0; i < n; ++i) { ks.push_back(r.str<Str>()); o.push_back(arr(ks.back())); }
				if (++n & 1) t.assign(ks.begin(), ks.end()); else { T u(ks.begin(), ks.end()); t = std::move(u); }
				J j; j.str("op", "assign").raw("ks", arrj(o)); observe(j); j.emit();
			}
			else if (op == 6) { t.clear(); J j; j.str("op", "clear"); observe(j); j.emit(); }
			else if (op == 7) probe(r.str<Str>());
			else if (op == 8) reload(static_cast<int>(r.i()));
			else if (op == 10) { long long a[6]; for (auto& x : a) x = r.i(); bulk(a[0], a[1], a[2], a[3], a[4], a[5], static_cast<int>(r.i())); }
			else if (op == 9)
			{
				Str k = r.str<Str>(); auto it = t.find(k); if (it != t.cend()) t.erase(it);
				J j; j.str("op", "erase").raw("k", arr(k)); observe(j); j.emit();
			}
		}
	}
};

int main()
{
	using namespace wordring;
	return harness_main([](Rd& r)
	{
		int kind = static_cast<int>(r.i()), w = static_cast<int>(r.i());
		if (kind == 0 && w == 1) Run<trie<char>, std::string>{}(r);
		else if (kind == 0 && w == 2) Run<trie<char16_t>, std::u16string>{}(r);
		else if (kind == 0) Run<trie<char32_t>, std::u32string>{}(r);
		else if (kind == 2) Run<detail::trie_base<>, std::basic_string<std::uint8_t>>{}(r);
		else if (kind == 3) Run<detail::stable_trie_base<>, std::basic_string<std::uint8_t>>{}(r);
		else if (w == 1) Run<stable_trie<char>, std::string>{}(r);
		else if (w == 2) Run<stable_trie<char16_t>, std::u16string>{}(r);
		else Run<stable_trie<char32_t>, std::u32string>{}(r);
	});
}
