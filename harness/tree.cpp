#include "common.hpp"
#include <wordring/tree/tree.hpp>
#include <wordring/tree/tree_iterator.hpp>

using Tree = wordring::tree<std::string>;
using It = Tree::const_iterator;
using Path = std::vector<long long>;

static std::string val(long long i) { return "value number " + std::to_string(i); }
static long long num(std::string const& s) { return s.compare(0, 13, "value number ") == 0 ? std::atoll(s.c_str() + 13) : -1; }
static int const LIMIT = 100000;
static int budget;
static void spend() { if (--budget < 0) std::abort(); }

static std::string dump(It a, It b)
{
	std::vector<std::string> o;
	for (; a != b; ++a) { spend(); o.push_back("{\"v\":" + std::to_string(num(*a)) + ",\"c\":" + dump(a.begin(), a.end()) + "}"); }
	return arrj(o);
}
static std::string dumpback(It a, It b) // b down to a with --
{
	std::vector<std::string> o;
	while (b != a) { spend(); --b; o.push_back("{\"v\":" + std::to_string(num(*b)) + ",\"c\":" + dumpback(b.begin(), b.end()) + "}"); }
	std::reverse(o.begin(), o.end());
	return arrj(o);
}

// the same through iterators that may write, advanced in the other form
static std::string dumpmut(Tree::iterator a, Tree::iterator b)
{
	std::vector<std::string> o;
	while (!(a == b)) { spend(); Tree::iterator k = a++; std::string const* v = k.operator->(); o.push_back("{\"v\":" + std::to_string(num(*v)) + ",\"c\":" + dumpmut(k.begin(), k.end()) + "}"); }
	return arrj(o);
}
static std::string dumpmutback(Tree::iterator a, Tree::iterator b)
{
	std::vector<std::string> o;
	while (b != a) { spend(); Tree::iterator old = b, k = b--; if (!(k == old)) std::abort(); o.push_back("{\"v\":" + std::to_string(num(*b)) + ",\"c\":" + dumpmutback(b.begin(), b.end()) + "}"); }
	std::reverse(o.begin(), o.end());
	return arrj(o);
}

struct Run
{
	Tree t;
	struct At { It it; Path p; bool node; };
	std::vector<At> at;

	void collect(It a, It b, Path const& pre, bool& nav)
	{
		Path p = pre; p.push_back(1);
		for (; a != b; ++a, ++p.back())
		{
			at.push_back({ a, p, true });
			It q = a.parent();
			for (It c = a.begin(); c != a.end(); ++c) { spend(); if (c.parent() != a) nav = false; }
			if (a.end().parent() != a) nav = false;
			{ std::vector<std::string> x, y; for (auto c = a.rbegin(); c != a.rend(); ++c) { spend(); x.push_back(*c); } for (It c = a.begin(); c != a.end(); c++) y.push_back(*c); std::reverse(x.begin(), x.end()); if (x != y) nav = false; }
			if (a->size() != (*a).size()) nav = false;
			collect(a.begin(), a.end(), p, nav);
		}
		at.push_back({ b, p, false });
	}
	void refresh() { at.clear(); bool nav = true; budget = LIMIT; collect(t.cbegin(), t.cend(), {}, nav); }

	std::string path(It it) // path of a position, found by navigation only
	{
		Path p; int guard = 0;
		while (true)
		{
			if (++guard > 1000) std::abort();
			It par = it.parent();
			bool root = par == t.cend();
			It a = root ? t.cbegin() : par.begin(); long long n = 1;
			while (a != it) { spend(); ++a; ++n; }
			p.insert(p.begin(), n);
			if (root) break;
			it = par;
		}
		return arr(p);
	}
	void observe(J& j)
	{
		budget = LIMIT; bool nav = true; at.clear();
		collect(t.cbegin(), t.cend(), {}, nav);
		Tree const& c = t;
		if (c.begin() != t.cbegin() || c.end() != t.cend()) nav = false;
		if (dumpmut(t.begin(), t.end()) != dump(t.cbegin(), t.cend()) || dumpmutback(t.begin(), t.end()) != dump(t.cbegin(), t.cend())) nav = false;
		if (!t.empty() && (&t.front() != &t.back() || &c.front() != &c.back() || &c.front() != &*t.begin())) nav = false;
		j.raw("forest", dump(t.cbegin(), t.cend())).raw("back", dumpback(t.cbegin(), t.cend())).b("nav", nav);
		j.i("size", (long long)t.size()).b("empty", t.empty()).i("front", t.empty() ? 0 : num(t.front()));
	}
	At& pos(long long i) { return at[(std::size_t)i % at.size()]; }
	At* node(long long i) { std::vector<At*> n; for (At& a : at) if (a.node) n.push_back(&a); return n.empty() ? nullptr : n[(std::size_t)i % n.size()]; }
	// many nodes: 0 is the root and i a child of (i - 1) / b; then j and below moved to the end of the root's children, k and below erased, m nodes added
	// at both ends of the root's children in turn, the whole copied
	void seen(J& j, char const* name, Tree const& u)
	{
		std::vector<long long> a, b, c;
		for (auto i = wordring::tree_iterator<It>(u.begin()), e = wordring::tree_iterator<It>(); i != e; ++i) a.push_back(num(*i));
		for (auto i = wordring::level_order_tree_iterator<It>(u.begin()), e = wordring::level_order_tree_iterator<It>(); i != e; ++i) b.push_back(num(*i));
		It at = u.begin(); // by navigation alone, each child list from its end
		while (true)
		{
			c.push_back(num(*at));
			if (at.begin() != at.end()) { at = --at.end(); continue; }
			while (at.parent() != u.end() && at == at.parent().begin()) at = at.parent();
			if (at.parent() == u.end()) break;
			--at;
		}
		J o; o.raw("pre", arr(a)).raw("lev", arr(b)).raw("back", arr(c)).i("size", (long long)u.size()); j.raw(name, o.obj());
	}
	It find(long long v) { for (auto i = wordring::tree_iterator<It>(t.begin()), e = wordring::tree_iterator<It>(); i != e; ++i) if (num(*i) == v) return i.base(); std::abort(); }
	void bulk(long long n, long long b, long long x, long long y, long long m)
	{
		alarm(120); J j; j.str("op", "bulk").i("n", n).i("b", b).i("x", x).i("y", y).i("m", m);
		std::vector<It> at; at.push_back(t.insert(t.begin(), val(0)));
		for (long long i = 1; i < n; ++i) at.push_back(t.insert(at[(i - 1) / b].end(), val(i)));
		at.clear(); seen(j, "built", t);
		t.move(t.begin().end(), find(x)); seen(j, "moved", t);
		t.erase(find(y)); seen(j, "erased", t);
		for (long long i = 0; i < m; ++i) t.insert(i % 2 ? t.begin().begin() : t.begin().end(), val(n + i));
		seen(j, "added", t);
		Tree u(t); t.clear(); bool e = t.empty() && t.size() == 0; t.insert(t.begin(), u.begin()); seen(j, "copied", t);
		j.b("clear", e); j.emit();
	}
	void operator()(Rd& r)
	{
		long long next = 1;
		while (r.more())
		{
			int op = (int)r.i(); long long x = r.i(), y = r.i();
			if (op == 11) { long long a[3]; for (auto& k : a) k = r.i(); bulk(x, y, a[0], a[1], a[2]); continue; }
			refresh();
			J j; std::string ret = "[]"; bool threw = false;
			if (op == 1)
			{
				At p = pos(x); std::string v = val(next); Tree::iterator k;
				if (y % 3 == 0) k = t.insert(p.it, v); else if (y % 3 == 1) k = t.insert(p.it, std::move(v)); else k = t.emplace(p.it, v);
				j.str("op", "insert").raw("pos", arr(p.p)).i("v", next); ++next; ret = path(k);
			}
			else if (op == 2)
			{
				At* s = node(y); At p = pos(x); if (!s) continue;
				if (t.size() > 40) continue;
				j.str("op", "copy").raw("pos", arr(p.p)).raw("sub", arr(s->p)); auto k = t.insert(p.it, s->it); ret = path(k);
			}
			else if (op == 3)
			{
				At* s = node(y); At p = pos(x); if (!s) continue;
				j.str("op", "move").raw("pos", arr(p.p)).raw("sub", arr(s->p));
				try { auto k = t.move(p.it, s->it); ret = path(k); } catch (std::invalid_argument const&) { threw = true; }
			}
			else if (op == 4)
			{
				At* s = node(x); if (!s) continue;
				j.str("op", "erase").raw("pos", arr(s->p)); auto k = t.erase(s->it); ret = path(k);
			}
			else if (op == 5) { j.str("op", "assign").i("v", next); if (x % 2) t.assign(val(next)); else { std::string v = val(next); t.assign(v); } ++next; }
			else if (op == 6) { j.str("op", "clear"); t.clear(); }
			else if (op == 7)
			{
				j.str("op", "dup");
				if (x % 3 == 0) { Tree u(t); t.clear(); t = u; } else if (x % 3 == 1) { Tree u{ Tree::allocator_type{} }; if (!u.empty() || u.begin() != u.end()) std::abort(); u.insert(u.begin(), val(999)); u.swap(t); t = std::move(u); } else { Tree u(std::move(t)); t = u; }
			}
			else if (op == 8)
			{
				Tree u(val(next)); std::string tr; auto root = u.begin();
				auto a = u.insert(root.end(), val(next + 1)); u.insert(root.begin(), val(next + 2)); auto b = u.insert(a.end(), val(next + 3)); if (y % 2) u.insert(b.end(), val(next + 4)); u.insert(root.end(), val(next + 5));
				budget = LIMIT; std::string d = dump(u.cbegin(), u.cend()); next += 6; if (t.size() > 40) continue;
				At p = pos(x); j.str("op", "graft").raw("pos", arr(p.p)).raw("tree", d.substr(1, d.size() - 2));
				auto k = t.insert(p.it, u.cbegin()); ret = path(k);
			}
			else if (op == 9)
			{
				At* s = node(x); if (!s) continue;
				std::vector<std::string> a, b, c, d; budget = LIMIT;
				auto rec = [](std::vector<std::string>& o, std::string const& v) { spend(); o.push_back(std::to_string(num(v))); };
				{ auto i = wordring::tree_iterator<It>(s->it), e = wordring::tree_iterator<It>(); while (i != e) { rec(a, *i); ++i; } }
				{ auto i = wordring::tree_iterator<It>(s->it), e = wordring::tree_iterator<It>(); while (!(i == e)) { std::string v = *i.base(); It k = i++; if (*k != v) v = "x"; rec(b, v); } }
				{ auto i = wordring::level_order_tree_iterator<It>(s->it), e = wordring::level_order_tree_iterator<It>(); while (i != e) { rec(c, *i); ++i; } }
				{ auto i = wordring::level_order_tree_iterator<It>(s->it), e = wordring::level_order_tree_iterator<It>(); while (i != e) { It k = i.base(); auto old = i; i++; if (!(old.base() == k)) spend(); rec(d, *k); } }
				// the descendants alone, from the range of the children; iterators compare by position
				std::vector<std::string> rp, rl; bool eq = true;
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
				{ auto i = wordring::tree_iterator<It>(s->it.begin(), s->it.end()), e = wordring::tree_iterator<It>(); while (i != e) { rec(rp, *i.operator->()); ++i; } }
				{ auto i = wordring::level_order_tree_iterator<It>(s->it.begin(), s->it.end()), e = wordring::level_order_tree_iterator<It>(); while (i != e) { rec(rl, *i.operator->()); ++i; } }
#pragma GCC diagnostic pop
				{ auto i = wordring::tree_iterator<It>(s->it), e = wordring::tree_iterator<It>(); while (i != e) { spend(); auto k = i; wordring::tree_iterator<It> m; m = k; if (!(k == i) || k != i || !(m == i) || i == e) eq = false; ++k; if (k == i || !(k != i)) eq = false; if (!(m == i)) eq = false; ++i; if (!(k == i)) eq = false; } if (!(i == e) || i != e) eq = false; }
				{ auto i = wordring::level_order_tree_iterator<It>(s->it), e = wordring::level_order_tree_iterator<It>(); while (i != e) { spend(); auto k = i; ++k; if (k == i || !(k != i) || i == e) eq = false; ++i; if (!(k == i)) eq = false; } }
				j.raw("rpre", arrj(rp)).raw("rlev", arrj(rl)).b("eq", eq);
				j.str("op", "walk").raw("pos", arr(s->p)).raw("pre", arrj(a)).raw("post", arrj(b)).raw("lev", arrj(c)).raw("lpost", arrj(d)).i("n", (long long)t.size(s->it)).emit();
				continue;
			}
			else { At* s = node(x); if (!s) continue; auto i = t.begin(); Path p = s->p; for (std::size_t k = 0; k < p.size(); ++k) { if (k) i = i.begin(); for (long long n = 1; n < p[k]; ++n) i++; } *i = val(next); j.str("op", "set").raw("pos", arr(p)).i("v", next); ++next; ret = path(i); }
			j.raw("ret", ret).b("threw", threw);
			observe(j); j.emit();
		}
	}
};

int main() { return harness_main([](Rd& r) { Run{}(r); }); }
