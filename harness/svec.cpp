#include "common.hpp"
#include <wordring/static_vector/static_vector.hpp>

static bool bad_ra;
static void val(int& x, long long v) { x = static_cast<int>(v); }
static void val(std::string& x, long long v) { x = v ? "element with a long value " + std::to_string(v) : std::string(); }
static long long num(int x) { return x; }
static long long num(std::string const& s) { return s.empty() ? 0 : s.compare(0, 26, "element with a long value ") == 0 ? std::atoll(s.c_str() + 26) : -7; }

template <typename T, std::size_t N> struct Run
{
	using V = wordring::static_vector<T, N>;
	V v[2];
	static T mk(long long x) { T t; val(t, x); return t; }
	static std::vector<T> mks(std::vector<long long> const& xs) { std::vector<T> r; for (auto x : xs) r.push_back(mk(x)); return r; }
	template <typename I> static std::string walk(I a, I b) { std::vector<long long> r; int g = 0; for (; a != b; ++a) { if (++g > 100) std::abort(); r.push_back(num(*a)); } return arr(r); }
	template <typename I> static std::string walkp(I a, I b) { std::vector<long long> r; int g = 0; while (a != b) { if (++g > 100) std::abort(); r.push_back(num(*a++)); } return arr(r); }
	template <typename I> static std::string down(I a, I b) { std::vector<long long> r; int g = 0; while (b != a) { if (++g > 100) std::abort(); --b; r.push_back(num(*b)); } return arr(r); }

	template <typename I> static bool random_access(I a, I b, std::size_t n, T const* d)
	{
		bool ok = static_cast<std::size_t>(b - a) == n && static_cast<std::size_t>(std::distance(a, b)) == n;
		for (std::size_t i = 0; i <= n; ++i)
		{
			I x = a + i, y = i + a, z = b - (n - i), w = a, u = b;
			w += i; u -= n - i;
			ok = ok && x == y && x == z && x == w && x == u && static_cast<std::size_t>(x - a) == i && !(x != w);
			if (i < n) ok = ok && &*x == d + i && &a[static_cast<int>(i)] == d + i && &*w == d + i && x < b && x <= b && b > x && b >= x && !(b < x) && !(b <= x) && num(*x.operator->()) == num(d[i]);
			else ok = ok && !(x < b) && x >= b;
			I p = x; if (i < n) { I q = p++; ok = ok && q == x && p - x == 1; I r = p--; ok = ok && p == x && r - p == 1; }
		}
		return ok;
	}

	std::string seen(V& x)
	{
		V const& c = x;
		std::vector<long long> ix, dt, at; bool ra = true;
		for (std::size_t i = 0; i < x.size(); ++i) { ix.push_back(num(x[i])); dt.push_back(num(c.data()[i])); if (&x[i] != &c[i] || x.data() != c.data()) ra = false; }
		for (std::size_t i = 0; i < N + 2; ++i)
		{
			long long p = -1, q = -1;
			try { p = num(x.at(i)); } catch (std::out_of_range const&) {}
			try { q = num(c.at(i)); } catch (std::out_of_range const&) {}
			at.push_back(p == q ? p : -9);
		}
		ra = ra && random_access(x.begin(), x.end(), x.size(), c.data()) && random_access(c.begin(), c.end(), x.size(), c.data()) && random_access(c.cbegin(), c.cend(), x.size(), c.data());
		{ typename V::const_iterator k = x.begin(); typename V::const_iterator m; m = x.end(); ra = ra && k == c.begin() && m == c.cend(); }
		std::string fwd = "[" + arr(ix) + "," + arr(dt) + "," + walk(x.begin(), x.end()) + "," + walk(c.begin(), c.end()) + "," + walkp(c.cbegin(), c.cend()) + "," + walkp(x.begin(), x.end()) + "]";
		std::string bwd = "[" + walk(x.rbegin(), x.rend()) + "," + walk(c.rbegin(), c.rend()) + "," + walkp(c.crbegin(), c.crend()) + "," + down(x.begin(), x.end()) + "," + down(c.cbegin(), c.cend()) + "]";
		J j;
		j.raw("fwd", fwd).raw("bwd", bwd).i("size", x.size()).b("empty", x.empty()).i("cap", x.capacity() == x.max_size() ? x.capacity() : 999).b("ra", ra).raw("at", [&] { std::string r = "["; for (std::size_t i = 0; i < at.size(); ++i) r += (i ? "," : "") + std::to_string(at[i]); return r + "]"; }());
		if (x.size()) { if (num(x.front()) != num(c.front()) || num(x.back()) != num(c.back())) j.i("front", -1).i("back", -1); else j.i("front", num(x.front())).i("back", num(x.back())); }
		else j.i("front", 0).i("back", 0);
		return j.obj();
	}
	static std::string rel(V const& a, V const& b)
	{
		auto f = [](bool x) { return std::string(x ? "true" : "false"); };
		return "[" + f(a == b) + "," + f(a != b) + "," + f(a < b) + "," + f(a <= b) + "," + f(a > b) + "," + f(a >= b) + "]";
	}

	void run(Rd& rd)
	{
		while (rd.more())
		{
			int k = rd.i(), t = rd.i() & 1; long long A = rd.i(), B = rd.i(), C = rd.i();
			V& x = v[t]; V& o = v[1 - t];
			std::size_t s = x.size(); long long ret = -1;
			std::size_t p = A % (s + 1), room = N - s;
			std::vector<long long> xs; { long long n = B % 5, q = C; for (long long i = 0; i < n; ++i, q = q * 7 + 3) xs.push_back(q % 4); }
			long long X = C % 4;
			J j; j.i("t", t + 1).i("cap", N);
			auto il = [&](auto&& f) { auto m = mks(xs); switch (m.size()) { case 0: f(std::initializer_list<T>{}); break; case 1: f(std::initializer_list<T>{ m[0] }); break; case 2: f(std::initializer_list<T>{ m[0], m[1] }); break; case 3: f(std::initializer_list<T>{ m[0], m[1], m[2] }); break; default: f(std::initializer_list<T>{ m[0], m[1], m[2], m[3] }); } };
			auto cut = [&](std::size_t n) { if (xs.size() > n) xs.resize(n); };
			auto at = [&](std::size_t q) { return x.cbegin() + q; };
			auto pos = [&](typename V::iterator i) { ret = i - x.begin(); };
			switch (k)
			{
			case 1: { std::size_t n = A % (N + 1); j.str("op", "ctorn").i("n", n).i("x", X); V y(n, mk(X)); x = y; break; }
			case 2: { std::size_t n = A % (N + 1); j.str("op", "ctor0").i("n", n); V y(n); x = y; break; }
			case 3: { cut(N); j.str("op", "ctorr").raw("xs", arr(xs)); auto m = mks(xs); std::list<T> li(m.begin(), m.end()); V y(li.begin(), li.end()); x = y; break; }
			case 4: { cut(N); j.str("op", "ctori").raw("xs", arr(xs)); il([&](std::initializer_list<T> i) { V y(i); x = y; }); break; }
			case 5: { std::size_t n = A % (N + 1); j.str("op", "assignn").i("n", n).i("x", X); x.assign(n, mk(X)); break; }
			case 6: { cut(N); j.str("op", "assignr").raw("xs", arr(xs)); auto m = mks(xs); x.assign(m.begin(), m.end()); break; }
			case 7: { cut(N); j.str("op", "assigni").raw("xs", arr(xs)); il([&](std::initializer_list<T> i) { x.assign(i); }); break; }
			case 8: { cut(N); j.str("op", "seti").raw("xs", arr(xs)); il([&](std::initializer_list<T> i) { x = i; }); break; }
			case 9: if (room) { T y = mk(X); j.str("op", "insert").i("p", p).i("x", X); pos(x.insert(at(p), y)); break; } else { j.str("op", "look"); break; }
			case 10: if (room) { j.str("op", "insertm").i("p", p).i("x", X); pos(x.insert(at(p), mk(X))); break; } else { j.str("op", "look"); break; }
			case 11: { std::size_t n = B % (room + 1); T y = mk(X); j.str("op", "insertn").i("p", p).i("n", n).i("x", X); pos(x.insert(at(p), n, y)); break; }
			case 12: { cut(room); auto m = mks(xs); j.str("op", "insertr").i("p", p).raw("xs", arr(xs)); if (C & 1) pos(x.insert(at(p), m.begin(), m.end())); else { std::list<T> li(m.begin(), m.end()); pos(x.insert(at(p), li.begin(), li.end())); } break; }
			case 13: { cut(room); j.str("op", "inserti").i("p", p).raw("xs", arr(xs)); il([&](std::initializer_list<T> i) { pos(x.insert(at(p), i)); }); break; }
			case 14: if (s && room) { std::size_t q = B % s, n = C % (room + 1); j.str("op", "insertself").i("p", p).i("q", q); if (n == 1) { j.i("n", 1); pos(x.insert(at(p), x[q])); } else { j.i("n", n); pos(x.insert(at(p), n, x[q])); } break; } else { j.str("op", "look"); break; }
			case 15: if (s) { p %= s; j.str("op", "erase").i("p", p); pos(x.erase(at(p))); break; } else { j.str("op", "look"); break; }
			case 16: { std::size_t q = p + B % (s - p + 1); j.str("op", "eraser").i("p", p).i("q", q); pos(x.erase(at(p), at(q))); break; }
			case 17: if (room) { T y = mk(X); j.str("op", "push").i("x", X); x.push_back(y); break; } else { j.str("op", "look"); break; }
			case 18: if (room) { j.str("op", "pushm").i("x", X); x.push_back(mk(X)); break; } else { j.str("op", "look"); break; }
			case 19: if (room && s) { std::size_t q = B % s; j.str("op", "pushself").i("q", q); x.push_back(x[q]); break; } else { j.str("op", "look"); break; }
			case 20: if (s) { j.str("op", "pop"); x.pop_back(); break; } else { j.str("op", "look"); break; }
			case 21: { std::size_t n = A % (N + 1); j.str("op", "resize0").i("n", n); x.resize(n); break; }
			case 22: { std::size_t n = A % (N + 1); j.str("op", "resize").i("n", n).i("x", X); x.resize(n, mk(X)); break; }
			case 23: j.str("op", "swap"); x.swap(o); break;
			case 24: j.str("op", "clear"); x.clear(); break;
			case 25: j.str("op", "copy"); x = o; break;
			case 26: { j.str("op", "ctorc"); V y(o); x = std::move(y); break; }
			case 27: { j.str("op", "move"); V y(std::move(x)); x = V(); x = std::move(y); V& z = x; x = z; break; }
			case 28: if (s)
			{
				p %= s; j.str("op", "set").i("p", p).i("x", X); T y = mk(X);
				switch (B % 6) { case 0: x[p] = y; break; case 1: x.at(p) = y; break; case 2: *(x.begin() + p) = y; break; case 3: *(x.data() + p) = y; break; case 4: x.begin()[static_cast<int>(p)] = y; break; default: if (p == 0) x.front() = y; else if (p == s - 1) x.back() = y; else *(x.rbegin() + (s - 1 - p)) = y; }
				break;
			} else { j.str("op", "look"); break; }
			default: j.str("op", "look");
			}
			j.i("ret", ret).raw("a", seen(v[0])).raw("b", seen(v[1])).raw("rel", rel(v[0], v[1])).raw("rer", rel(v[1], v[0]));
			j.emit();
		}
	}
};

int main()
{
	return harness_main([](Rd& rd)
	{
		switch (rd.i())
		{
		case 0: Run<int, 4>().run(rd); break;
		case 1: Run<std::string, 4>().run(rd); break;
		case 2: Run<int, 9>().run(rd); break;
		case 3: Run<std::string, 7>().run(rd); break;
		default: Run<std::string, 1>().run(rd);
		}
	});
}
