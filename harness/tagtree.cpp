#include "common.hpp"
#include <wordring/tag_tree/tag_tree.hpp>
#include <wordring/html/simple_html.hpp>
#include <wordring/html/simple_traits.hpp>
#include <wordring/tree/tree_iterator.hpp>
// odd numbers: elements; divisible by 4: text; other even: comment
using Node = wordring::html::simple_node<std::u32string>;
using Tree = wordring::tag_tree<Node>;
using It = Tree::const_iterator;
using Path = std::vector<long long>;
static int budget; static void spend() { if (--budget < 0) std::abort(); }

static Node make(long long v)
{
	if (v % 2) return wordring::html::simple_element<std::u32string>(std::u32string(1, char32_t(0x4E00 + v)));
	if (v % 4 == 0) return wordring::html::simple_text<std::u32string>(std::u32string(1 + (v / 4) % 3, char32_t(0x4E00 + v)));
	return wordring::html::simple_comment<std::u32string>(std::u32string(1, char32_t(0x4E00 + v)));
}
static long long num(Node const& n)
{
	std::u32string s = n.is_element() ? std::u32string(n.local_name()) : std::u32string(const_cast<Node&>(n).data());
	if (s.empty()) return -1; long long v = (long long)s[0] - 0x4E00;
	if (n.is_element() != (v % 2 == 1) || n.is_text() != (v % 4 == 0)) return -2;
	return v;
}
static std::string dump(It a, It b)
{
	std::vector<std::string> o;
	for (; a != b; ++a) { spend(); o.push_back("{\"v\":" + std::to_string(num(*a)) + ",\"c\":" + dump(a.begin(), a.end()) + "}"); }
	return arrj(o);
}
static std::string dumpback(It a, It b)
{
	std::vector<std::string> o;
	while (b != a) { spend(); --b; o.push_back("{\"v\":" + std::to_string(num(*b)) + ",\"c\":" + dumpback(b.begin(), b.end()) + "}"); }
	std::reverse(o.begin(), o.end());
	return arrj(o);
}

static std::string dumpmut(Tree::iterator a, Tree::iterator b)
{
	std::vector<std::string> o;
	while (!(a == b)) { spend(); Tree::iterator k = a++; Node const* v = k.operator->(); o.push_back("{\"v\":" + std::to_string(num(*v)) + ",\"c\":" + dumpmut(k.begin(), k.end()) + "}"); }
	return arrj(o);
}
static std::string dumpmutback(Tree::iterator a, Tree::iterator b, int form)
{
	std::vector<std::string> o;
	while (b != a) { spend(); if (form) { Tree::iterator old = b, k = b--; if (!(k == old)) std::abort(); } else --b; o.push_back("{\"v\":" + std::to_string(num(*b)) + ",\"c\":" + dumpmutback(b.begin(), b.end(), form) + "}"); }
	std::reverse(o.begin(), o.end());
	return arrj(o);
}
static std::string dumpconst(It a, It b)
{
	std::vector<std::string> o;
	while (!(a == b)) { spend(); It k = a++; Node const* v = k.operator->(); o.push_back("{\"v\":" + std::to_string(num(*v)) + ",\"c\":" + dumpconst(k.begin(), k.end()) + "}"); }
	return arrj(o);
}

struct Run
{
	Tree t;
	struct At { It it; Path p; bool node; bool single; };
	std::vector<At> at;
	void collect(It a, It b, Path const& pre, bool& nav, It par)
	{
		Path p = pre; p.push_back(1);
		for (; a != b; ++a, ++p.back())
		{
			spend();
			bool single = num(*a) % 2 == 0;
			at.push_back({ a, p, true, single });
			if (!(a.parent() == par)) nav = false;
			if (!single) collect(a.begin(), a.end(), p, nav, a); else if (a.begin() != a.end()) nav = false;
		}
		if (!(b.parent() == par) && pre.size()) nav = false;
		at.push_back({ b, p, false, false });
	}
	std::string path(It it)
	{
		Path p; int guard = 0; budget = 20000;
		while (true)
		{
			if (++guard > 1000) std::abort();
			It par = it == t.cend() ? It() : it.parent();
			bool root = par == It();
			It a = root ? t.cbegin() : par.begin(); long long n = 1;
			while (a != it) { spend(); ++a; ++n; }
			p.insert(p.begin(), n);
			if (root) break;
			it = par;
		}
		return arr(p);
	}
	void observe(J& j)
	{
		budget = 100000; bool nav = true, tags = true; at.clear();
		collect(t.cbegin(), t.cend(), {}, nav, It());
		Tree const& ct = t;
		{ std::string d = dump(t.cbegin(), t.cend()); if (dumpmut(t.begin(), t.end()) != d || dumpmutback(t.begin(), t.end(), 0) != d || dumpmutback(t.begin(), t.end(), 1) != d || dumpconst(ct.begin(), ct.end()) != d) nav = false; }
		j.raw("forest", dump(t.cbegin(), t.cend())).raw("back", dumpback(ct.begin(), ct.end())).b("nav", nav);
		std::vector<std::string> f, b;
		auto tag = [&](Tree::serial_iterator i)
		{
			spend();
			if (i.is_start_tag() && i.is_end_tag()) tags = false;
			if (!(i.start_tag().end_tag() == i.end_tag()) || !(i.end_tag().start_tag() == i.start_tag())) if (i.is_start_tag() || i.is_end_tag()) tags = false;
			long long v = i.is_end_tag() ? -num(*i.start_tag()) : num(*i);
			if (v > 0 && i.is_start_tag() != (v % 2 == 1)) tags = false;
			return std::to_string(v);
		};
		for (auto i = t.sbegin(); i != t.send(); ++i) f.push_back(tag(i));
		for (auto i = t.send(); f.size() > b.size(); ) { --i; if (i == t.send()) break; b.push_back(tag(i)); }
		{ // the other forms of the serial iterators give the same
			std::vector<std::string> a, b2, c2, d2;
			for (auto i = t.sbegin(); !(i == t.send()); ) { auto k = i++; if (&*k != k.operator->()) tags = false; a.push_back(tag(k)); }
			for (auto i = ct.sbegin(); i != ct.send(); ) { spend(); auto k = i++; if (&*k != k.operator->() || k.is_start_tag() && k.end_tag().start_tag() != k) tags = false; c2.push_back(k.is_end_tag() ? std::to_string(-num(*k.start_tag())) : std::to_string(num(*k))); }
			for (auto i = t.send(); a.size() > b2.size(); ) { auto k = i--; if (i == t.send()) break; (void)k; b2.push_back(tag(i)); }
			for (auto i = ct.send(); c2.size() > d2.size(); ) { spend(); if (d2.size() % 2) --i; else i--; if (i == ct.send()) break; d2.push_back(i.is_end_tag() ? std::to_string(-num(*i.start_tag())) : std::to_string(num(*i))); }
			if (a != f || c2 != f || b2 != b || d2 != b) tags = false;
		}
		j.raw("fwd", arrj(f)).raw("bwd", arrj(b)).b("tags", tags).i("size", (long long)t.size()).b("empty", t.empty());
		std::vector<std::string> c, rc;
		if (!t.empty())
		{
			auto i = Tree::character_iterator(t.begin()); auto e = i.end();
			for (; i != e; ++i) { spend(); c.push_back(std::to_string((long long)*i - 0x4E00)); }
			auto k = e; while (rc.size() < c.size()) { --k; if (k == e) break; rc.push_back(std::to_string((long long)*k - 0x4E00)); }
		}
		if (!t.empty())
		{ // the other forms of the character iterators give the same, and tell the node
			std::vector<std::string> a, b2, d2, w; auto add = [](std::vector<std::string>& o, long long ch) { spend(); o.push_back(std::to_string(ch - 0x4E00)); };
			{ auto i = Tree::character_iterator(t.begin()); auto e = Tree::character_iterator(t.end()); while (!(i == e)) { auto k = i++; if (&*k != k.operator->()) tags = false; It n = static_cast<Tree::iterator>(k); if (num(*n) != (long long)*k - 0x4E00) tags = false; add(a, *k); } }
			{ auto i = Tree::const_character_iterator(t.begin()); auto e = i.end(); while (i != e) { auto k = i; if (b2.size() % 2) ++i; else if (!(i++ == k)) tags = false; if (&*k != k.operator->()) tags = false; add(b2, *k); } }
			{ auto i = Tree::character_iterator(t.begin()); auto e = i.end(); i = e; while (d2.size() < c.size()) { auto k = i--; (void)k; if (i == e) break; add(d2, *i); } }
			{ auto i = Tree::wchar_iterator(t.begin()), e = Tree::wchar_iterator(t.end()); while (i != e) { add(w, *i); if (w.size() % 2) ++i; else i++; } while (w.size() < 2 * c.size()) { if (w.size() % 2) --i; else i--; if (i == e) break; add(w, *i); } }
			std::vector<std::string> w2 = c; w2.insert(w2.end(), rc.begin(), rc.end());
			if (a != c || b2 != c || d2 != rc || w != w2) tags = false;
		}
		j.raw("chars", arrj(c)).raw("rchars", arrj(rc));
	}
	At& pos(long long i) { return at[(std::size_t)i % at.size()]; }
	At* node(long long i) { std::vector<At*> n; for (At& a : at) if (a.node) n.push_back(&a); return n.empty() ? nullptr : n[(std::size_t)i % n.size()]; }
	static bool inside(Path const& p, Path const& a) { return p.size() > a.size() && std::equal(a.begin(), a.end(), p.begin()); }
	void operator()(Rd& r)
	{
		long long k = 0;
		while (r.more())
		{
			int op = (int)r.i(); long long x = r.i(), y = r.i();
			{ at.clear(); bool nav; budget = 100000; collect(t.cbegin(), t.cend(), {}, nav, It()); }
			J j; std::string ret = "[]";
			if (op == 1)
			{
				long long v = ++k * 4 + (y % 4 == 0 ? 0 : y % 4 == 1 ? 2 : 1); // text, comment, element
				At p = pos(x); Tree::iterator i;
				if (y % 2) i = t.insert(p.it, make(v)); else { Node n = make(v); i = t.insert(p.it, n); }
				j.str("op", "insert").raw("pos", arr(p.p)).i("v", v); ret = path(i);
			}
			else if (op == 3)
			{
				At* s = node(y); At p = pos(x); if (!s || inside(p.p, s->p)) continue;
				// moving a node to where it already is reads as the position after it
				if (p.p == s->p) ++p.p.back();
				j.str("op", "move").raw("pos", arr(p.p)).raw("sub", arr(s->p)); auto i = t.move(p.it, s->it); ret = path(i);
			}
			else if (op == 4) { At* s = node(x); if (!s) continue; j.str("op", "erase").raw("pos", arr(s->p)); auto i = t.erase(s->it); ret = path(i); }
			else if (op == 6) { j.str("op", "clear"); t.clear(); }
			else if (op == 7) { j.str("op", "dup"); if (x % 3 == 0) { Tree u(t); t.clear(); t = u; } else if (x % 3 == 1) { Tree u; u.insert(u.begin(), make(9)); u.swap(t); t = std::move(u); } else { Tree u(std::move(t)); t = u; } }
			else if (op == 9)
			{
				At* s = node(x); if (!s) continue;
				std::vector<std::string> a, b, c, d; budget = 20000;
				auto rec = [](std::vector<std::string>& o, Node const& v) { spend(); o.push_back(std::to_string(num(v))); };
				{ auto i = wordring::tree_iterator<It>(s->it), e = wordring::tree_iterator<It>(); while (i != e) { rec(a, *i.base()); ++i; } }
				{ auto i = wordring::tree_iterator<It>(s->it), e = wordring::tree_iterator<It>(); while (i != e) { It q = i.base(); i++; rec(b, *q); } }
				{ auto i = wordring::level_order_tree_iterator<It>(s->it), e = wordring::level_order_tree_iterator<It>(); while (i != e) { rec(c, *i.base()); ++i; } }
				{ auto i = wordring::level_order_tree_iterator<It>(s->it), e = wordring::level_order_tree_iterator<It>(); while (i != e) { It q = i.base(); i++; rec(d, *q); } }
				std::vector<std::string> rp, rl; bool eq = true;
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
				{ auto i = wordring::tree_iterator<It>(s->it.begin(), s->it.end()), e = wordring::tree_iterator<It>(); while (i != e) { rec(rp, *i.operator->()); ++i; } }
				{ auto i = wordring::level_order_tree_iterator<It>(s->it.begin(), s->it.end()), e = wordring::level_order_tree_iterator<It>(); while (i != e) { rec(rl, *i); ++i; } }
#pragma GCC diagnostic pop
				j.raw("rpre", arrj(rp)).raw("rlev", arrj(rl)).b("eq", eq);
				j.str("op", "walk").raw("pos", arr(s->p)).raw("pre", arrj(a)).raw("post", arrj(b)).raw("lev", arrj(c)).raw("lpost", arrj(d)).i("n", (long long)a.size()).emit();
				continue;
			}
			else if (op == 10)
			{ // a character is written through an iterator and put back after what is seen of it
				std::vector<Tree::character_iterator> at; budget = 20000; if (t.empty()) continue;
				for (auto i = Tree::character_iterator(t.begin()), e = i.end(); i != e; ++i) { spend(); at.push_back(i); }
				if (at.empty()) continue;
				std::size_t k = (std::size_t)x % at.size(); char32_t old = *at[k];
				if (y % 3 == 0) *at[k] = 0x4E00 + 77777 % 9973; else if (y % 3 == 1) *at[k].operator->() = 0x4E00 + 77777 % 9973; else { Tree::wchar_iterator w(t.begin()); for (std::size_t m = 0; m < k; ++m) ++w; *w = 0x4E00 + 77777 % 9973; }
				std::vector<std::string> c, m;
				for (auto i = Tree::const_character_iterator(t.begin()), e = i.end(); i != e; ++i) { spend(); c.push_back(std::to_string((long long)*i - 0x4E00)); }
				for (auto i = t.sbegin(); i != t.send(); ++i) if (!i.is_end_tag() && i->is_text()) for (char32_t ch : i->data()) m.push_back(std::to_string((long long)ch - 0x4E00));
				*at[k] = old;
				j.str("op", "write").i("k", (long long)k + 1).i("ch", 77777 % 9973).raw("chars", arrj(c)).raw("data", arrj(m)).emit();
				continue;
			}
			else continue;
			j.raw("ret", ret).b("threw", false);
			observe(j); j.emit();
		}
	}
};
int main() { return harness_main([](Rd& r) { Run{}(r); }); }
