#include "cssdump.hpp"
#include <wordring/css/selector.hpp>
#include <wordring/wwwc/selectors/api.hpp>
#include <wordring/html/simple_html.hpp>
namespace wh = wordring::html;

static std::string simple(char const* k, std::string p, std::string n, long long m = 0, std::string v = "[]", long long i = 0, std::string c = "[]")
{
	return std::string("{\"k\":\"") + k + "\",\"p\":" + p + ",\"n\":" + n + ",\"m\":" + std::to_string(m) + ",\"v\":" + v + ",\"i\":" + std::to_string(i) + ",\"c\":" + c + "}";
}
static std::string pre(std::optional<ns_prefix> const& o) { return o ? "[" + arr(o->string()) + "]" : "[]"; }
static std::string dump(type_selector const& t)
{
	if (auto const* w = std::get_if<wq_name>(&t.value())) return simple("type", pre(w->prefix()), arr(w->name()));
	return simple("any", pre(std::get<std::optional<ns_prefix>>(t.value())), "[]");
}
static std::string dump(id_selector const& t) { return simple("id", "[]", arr(t.value())); }
static std::string dump(class_selector const& t) { return simple("class", "[]", arr(t.name())); }
static std::string dump(attribute_selector const& t) { return simple("attr", pre(t.prefix()), arr(t.name()), t.matcher(), arr(t.value()), t.modifier()); }
static std::string pseudo(pseudo_class_selector const& t, char const* id, char const* fn)
{
	if (t.type() == syntax_primitive_name::IdentToken) return simple(id, "[]", arr(t.get<ident_token>().m_value));
	return simple(fn, "[]", arr(t.get<function>().m_name), 0, "[]", 0, jsv(t.get<function>().m_value));
}
static std::string dump(pseudo_element_selector const& t) { return pseudo(t, "pe", "pefn"); }
static std::string dump(pseudo_class_selector const& t) { return pseudo(t, "pc", "pcfn"); }
static std::string dump(subclass_selector const& t) { return std::visit([](auto const& x) { return dump(x); }, t.value()); }
static std::string dump(compound_selector const& t)
{
	std::vector<std::string> o; for (auto const& x : t.value()) o.push_back(std::visit([](auto const& y) { return dump(y); }, x)); return arrj(o);
}
template <typename C> static std::string complex(C const& t)
{
	std::vector<std::string> s; std::vector<unsigned> o; unsigned lead = 0; bool wantSel = true, first = true;
	for (auto const& x : t.value())
	{
		if (auto const* c = std::get_if<combinator>(&x)) { if (first) lead = c->type(); else o.push_back(c->type()); wantSel = true; }
		else { if (!wantSel) o.push_back(U' '); s.push_back(dump(std::get<compound_selector>(x))); wantSel = false; }
		first = false;
	}
	return "{\"l\":" + std::to_string(lead) + ",\"s\":" + arrj(s) + ",\"o\":" + arr(o) + "}";
}
static std::string list(std::vector<complex_selector> const& v) { std::vector<std::string> o; for (auto const& x : v) o.push_back(complex(x)); return arrj(o); }
static std::string list(std::vector<relative_selector> const& v) { std::vector<std::string> o; for (auto const& x : v) o.push_back(complex(x)); return arrj(o); }

static char32_t const* const URI[] = { U"", U"http://www.w3.org/1999/xhtml", U"http://www.w3.org/1998/Math/MathML", U"http://www.w3.org/2000/svg", U"http://www.w3.org/1999/xlink", U"http://www.w3.org/XML/1998/namespace", U"http://www.w3.org/2000/xmlns/" };

struct Attr { int ns; U32 prefix, name, value; };
struct Node { int parent, kind, ns; U32 name; std::vector<Attr> a; };
struct Case { int enc, type, mode; std::vector<std::pair<U32, U32>> ns; std::vector<Node> d; };

template <typename S> static void query(Case const& c, Rd& rd)
{
	using Tree = wordring::tag_tree<wh::simple_node<S>>; using It = typename Tree::iterator; using CIt = typename Tree::const_iterator; using N = wh::simple_node<S>;
	using traits = wh::node_traits<CIt>;
	auto cv = [](U32 const& s) { return wordring::encoding_cast<S>(s); };
	Tree t; std::vector<It> at; std::vector<std::string> dj;
	for (auto const& n : c.d)
	{
		N v; std::vector<std::string> aj;
		switch (n.kind)
		{
		case 1:
		{
			typename N::element_type e(static_cast<wh::ns_name>(n.ns), S(), cv(n.name));
			for (auto const& a : n.a)
			{
				e.push_back(typename N::attribute_type(static_cast<wh::ns_name>(a.ns), cv(a.prefix), cv(a.name), cv(a.value)));
				aj.push_back("{\"ns\":" + arr(U32(URI[a.ns])) + ",\"n\":" + arr(a.name) + ",\"v\":" + arr(a.value) + "}");
			}
			v = N(e); break;
		}
		case 3: v = N(typename N::text_type(cv(n.name))); break;
		case 7: { typename N::processing_instruction_type p; p.target(cv(n.name)); v = N(p); break; }
		case 8: v = N(typename N::comment_type(cv(n.name))); break;
		case 9: { typename N::document_type d; d.document_type(static_cast<wh::document_type_name>(c.type)); d.document_mode(static_cast<wh::document_mode_name>(c.mode)); v = N(d); break; }
		case 10: v = N(typename N::document_type_type(cv(n.name), S(), S())); break;
		default: v = N(typename N::document_fragment_type()); break;
		}
		at.push_back(n.parent == 0 ? t.insert(t.begin(), v) : t.insert(at[n.parent - 1].end(), v));
		dj.push_back("{\"u\":" + std::to_string(n.parent) + ",\"k\":" + std::to_string(n.kind) + ",\"ns\":" + arr(U32(URI[n.ns])) + ",\"n\":" + arr(n.name) + ",\"a\":" + arrj(aj) + "}");
	}
	std::vector<CIt> no(at.begin(), at.end());
	auto idx = [&](CIt const& i) { for (std::size_t k = 0; k < no.size(); ++k) if (no[k] == i) return static_cast<int>(k + 1); return -1; };
	std::vector<std::string> nj; for (auto const& p : c.ns) nj.push_back("[" + arr(p.first) + "," + arr(p.second) + "]");
	J().str("op", "doc").raw("d", arrj(dj)).b("html", c.type == 2).b("quirks", c.mode == 2).raw("ns", arrj(nj)).emit();
	while (rd.more())
	{
		U32 sel = rd.str<U32>();
		J j; j.str("op", "q").raw("in", arr(sel));
		if (c.ns.empty())
		{
			std::vector<std::string> all; std::vector<unsigned> one; bool same = true;
			for (auto const& n : at)
			{
				std::vector<CIt> v; wordring::css::query_selector_all(CIt(n), sel, std::back_inserter(v));
				std::vector<It> w; wordring::css::query_selector_all(n, cv(sel), std::back_inserter(w));
				std::vector<unsigned> r; for (auto const& x : v) r.push_back(idx(x));
				std::vector<unsigned> q; for (auto const& x : w) q.push_back(idx(CIt(x)));
				same = same && r == q;
				all.push_back(arr(r));
				CIt o = wordring::css::query_selector(CIt(n), cv(sel));
				one.push_back(o == CIt() ? 0 : idx(o));
			}
			j.raw("all", arrj(all)).raw("one", arr(one)).b("same", same);
		}
		parse_context pc; for (auto const& p : c.ns) pc.m_namespace_uris[p.first] = p.second;
		selector_list sl = parse_selector(sel, pc);
		std::vector<CIt> v; match_selector(sl, pc, no[0], traits::next(no[0]), std::back_inserter(v));
		std::vector<unsigned> r; for (auto const& x : v) r.push_back(idx(x));
		j.raw("tree", arr(r));
		std::vector<std::string> sub, kid, sco;
		auto some = [&](CIt a, CIt b, CIt root, std::vector<std::string>& o) { std::vector<CIt> f; match_selector(sl, pc, a, b, std::back_inserter(f), root); std::vector<unsigned> q; for (auto const& x : f) q.push_back(idx(x)); o.push_back(arr(q)); };
		for (auto const& n : no) { some(n, traits::next(n), CIt(), sub); some(n.begin(), n.end(), CIt(), kid); some(no[0], traits::next(no[0]), n, sco); }
		j.raw("sub", arrj(sub)).raw("kid", arrj(kid)).raw("sco", arrj(sco)); j.emit();
	}
}

static void run(Rd& rd)
{
	long long mode = rd.i();
	auto nsl = [&](std::vector<std::pair<U32, U32>>& v) { long long n = rd.i(); while (n-- > 0) { U32 p = rd.str<U32>(); int u = static_cast<int>(rd.i()); v.push_back({ p, URI[u] }); } };
	if (mode == 1)
	{
		std::vector<std::pair<U32, U32>> ns; nsl(ns);
		parse_context pc; std::vector<std::string> nj; for (auto const& p : ns) { pc.m_namespace_uris[p.first] = p.second; nj.push_back(arr(p.first)); }
		U32 s = rd.str<U32>();
		selector_list a = parse_selector(s, pc); relative_selector_list b = parse_relative_selector(s, pc);
		selector_list a2(a), a3; a3 = a;
		std::string la = list(a.value().value());
		J().str("op", "parse").raw("in", arr(s)).raw("ns", arrj(nj)).b("ok", static_cast<bool>(a)).b("rok", static_cast<bool>(b)).raw("s", la).raw("r", list(b.value()))
			.b("copy", list(a2.value().value()) == la && list(a3.value().value()) == la).emit();
		return;
	}
	Case c; c.enc = rd.i(); c.type = rd.i(); c.mode = rd.i(); nsl(c.ns);
	long long n = rd.i();
	while (n-- > 0)
	{
		Node d; d.parent = rd.i(); d.kind = rd.i(); d.ns = rd.i(); d.name = rd.str<U32>(); long long k = rd.i();
		while (k-- > 0) { Attr a; a.ns = rd.i(); a.prefix = rd.str<U32>(); a.name = rd.str<U32>(); a.value = rd.str<U32>(); d.a.push_back(a); }
		c.d.push_back(d);
	}
	if (c.enc == 0) query<std::u8string>(c, rd); else if (c.enc == 1) query<std::u16string>(c, rd); else query<U32>(c, rd);
}
int main() { return harness_main(run); }
