// Elements, attributes and names: histories of calls in each string type, names given as strings or enumerators; node kinds.
#include "common.hpp"
#include <wordring/html/simple_node.hpp>
#include "names_gen.hpp"
using namespace wordring::html;
using wordring::whatwg::encoding_cast;
template <typename V, typename N> static int index_of(V const& v, N n) { for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == n) return static_cast<int>(i + 1); return n == static_cast<N>(0) ? 0 : -1; }
template <typename S> static std::string cps(S const& s) { return arr(encoding_cast<std::u32string>(s)); }
struct Ref { int e; std::u32string s; };
template <typename S> struct Run
{
	using El = simple_element<S>; using At = simple_attr<S>; using Nd = simple_node<S>;
	using NsAtom = basic_html_atom<S, ns_name>; using TagAtom = basic_html_atom<S, tag_name>; using AtAtom = basic_html_atom<S, attribute_name>;
	static S cv(std::u32string const& s) { return encoding_cast<S>(s); }
	static ns_name nse(Ref const& r) { return r.e > 0 ? all_ns.at(r.e - 1) : static_cast<ns_name>(0); }
	static std::string ref(Ref const& r) { J j; j.i("e", r.e).raw("s", arr(r.s)); return j.obj(); }
	template <typename I> static std::string attrs(I b, I e)
	{
		std::vector<std::string> o;
		for (; b != e; ++b) { J j; j.raw("ns", cps(b->namespace_uri())).i("nse", index_of(all_ns, b->namespace_uri_name())).raw("pre", cps(b->prefix())).raw("n", cps(b->local_name())).i("ne", index_of(all_attr, b->local_name_name())).raw("q", cps(b->qualified_name())).raw("v", cps(b->value())); o.push_back(j.obj()); }
		return arrj(o);
	}
	static std::string shown(El const& el)
	{
		J j; j.raw("ns", cps(el.namespace_uri())).i("nse", index_of(all_ns, el.namespace_uri_name())).raw("pre", cps(el.namespace_prefix())).raw("n", cps(el.local_name())).i("ne", index_of(all_tag, el.local_name_name())).raw("q", cps(el.qualified_name())).raw("a", attrs(el.begin(), el.end()));
		return j.obj();
	}
	static std::string shown(Nd const& nd) // a node has no getter for the prefix
	{
		J j; j.raw("ns", cps(nd.namespace_uri())).i("nse", index_of(all_ns, nd.namespace_uri_name())).raw("n", cps(nd.local_name())).i("ne", index_of(all_tag, nd.local_name_name())).raw("q", cps(nd.qualified_name())).raw("a", attrs(nd.begin(), nd.end())).i("type", static_cast<int>(nd.type())).b("el", nd.is_element());
		return j.obj();
	}
	// an attribute named by references; the constructors take namespaces as enumerators, other namespaces are set
	static At attr(Ref const& ns, std::u32string const& pre, Ref const& n, std::u32string const& v)
	{
		S val = cv(v);
		bool plain = ns.e == 0 && ns.s.empty() && pre.empty();
		At a = plain ? (n.e > 0 ? At(all_attr.at(n.e - 1), val) : At(cv(n.s), val)) : (n.e > 0 ? At(nse(ns), cv(pre), all_attr.at(n.e - 1), val) : At(nse(ns), cv(pre), cv(n.s), val));
		if (ns.e == 0 && !ns.s.empty()) a.namespace_uri(cv(ns.s));
		return a;
	}
	static void go(Rd& rd)
	{
		static char const* const K[] = { "new", "newhtml", "setns", "setpre", "setname", "push", "ans", "apre", "aname", "aval", "find", "has", "eq", "eqa", "is", "save", "npush", "isattr" };
		El el, saved;
		long long nc = rd.i();
		for (long long c = 0; c < nc; ++c)
		{
			int k = static_cast<int>(rd.i()); Ref ns, n; ns.e = static_cast<int>(rd.i()); ns.s = rd.str<std::u32string>(); std::u32string pre = rd.str<std::u32string>(); n.e = static_cast<int>(rd.i()); n.s = rd.str<std::u32string>(); std::u32string v = rd.str<std::u32string>(); int i = static_cast<int>(rd.i());
			std::string kk = K[k]; std::vector<int> rs; auto ans = [&](bool b) { rs.push_back(b ? 1 : 0); };
			bool plain = ns.e == 0 && ns.s.empty() && pre.empty();
			if (kk == "new")
			{
				if (n.e > 0) { el = El(nse(ns), cv(pre), all_tag.at(n.e - 1)); if (ns.e == 0) el.namespace_uri(cv(ns.s)); }
				else if (ns.e > 0) el = El(nse(ns), cv(pre), cv(n.s));
				else el = El(cv(ns.s), cv(pre), cv(n.s));
			}
			else if (kk == "newhtml") el = n.e > 0 ? El(all_tag.at(n.e - 1)) : El(cv(n.s));
			else if (kk == "setns") { if (ns.e > 0) el.namespace_uri_name(nse(ns)); else el.namespace_uri(cv(ns.s)); }
			else if (kk == "setpre") el.namespace_prefix(cv(pre));
			else if (kk == "setname") { if (n.e > 0) el.local_name_name(all_tag.at(n.e - 1)); else el.local_name(cv(n.s)); }
			else if (kk == "push") el.push_back(attr(ns, pre, n, v));
			else if (kk == "npush") { Nd nd(el); nd.push_back(attr(ns, pre, n, v)); El e2(el); e2.push_back(*std::prev(nd.end())); el = e2; }
			else if (kk == "ans") { auto it = std::next(el.begin(), i - 1); if (ns.e > 0) it->namespace_uri_name(nse(ns)); else it->namespace_uri(cv(ns.s)); }
			else if (kk == "apre") std::next(el.begin(), i - 1)->prefix(cv(pre));
			else if (kk == "aname") { auto it = std::next(el.begin(), i - 1); if (n.e > 0) it->local_name_name(all_attr.at(n.e - 1)); else it->local_name(cv(n.s)); }
			else if (kk == "aval") std::next(el.begin(), i - 1)->value(cv(v));
			else if (kk == "save") saved = el;
			else if (kk == "find")
			{
				El const& ce = el; Nd const nd(el); auto pos = [&](auto it) { rs.push_back(static_cast<int>(std::distance(ce.begin(), it)) + 1); }; auto npos = [&](auto it) { rs.push_back(static_cast<int>(std::distance(nd.begin(), it)) + 1); };
				pos(ce.find(attr(ns, pre, n, v)));
				if (ns.e > 0 || ns.s.empty()) { if (n.e > 0) pos(ce.find(nse(ns), cv(pre), all_attr.at(n.e - 1))); else { pos(ce.find(nse(ns), cv(pre), cv(n.s))); npos(nd.find(nse(ns), cv(pre), cv(n.s))); } }
				if (plain) { if (n.e > 0) { pos(ce.find(all_attr.at(n.e - 1))); npos(nd.find(all_attr.at(n.e - 1))); } else { pos(ce.find(cv(n.s))); npos(nd.find(cv(n.s))); } }
			}
			else if (kk == "has") { Nd nd(el); S name = n.e > 0 ? static_cast<S>(AtAtom(all_attr.at(n.e - 1))) : cv(n.s); if (ns.e > 0 || ns.s.empty()) ans(nd.contains(nse(ns), cv(pre), name)); }
			else if (kk == "eq") { ans(el == saved); ans(saved == el); ans(!(el != saved)); ans(Nd(el) == Nd(saved)); ans(!(Nd(el) != Nd(saved))); }
			else if (kk == "eqa")
			{
				At const& a = *std::next(el.begin(), i - 1); At b = attr(ns, pre, n, v);
				ans(a == b); ans(b == a); ans(!(a != b)); ans(!(b != a));
				if (plain && n.e > 0) { attribute_name x = all_attr.at(n.e - 1); ans(a == x); ans(x == a); ans(!(a != x)); ans(!(x != a)); }
				if (plain && n.e == 0) { S x = cv(n.s); ans(a == x); ans(x == a); ans(!(a != x)); ans(!(x != a)); }
			}
			else if (kk == "is" || kk == "isattr")
			{
				auto f = [&](auto const& a, auto const& x, auto const& y, auto e, auto const& s) { ans(a == x); ans(x == a); ans(!(a != x)); ans(y == a); ans(a == s); ans(s == a); ans(!(a != s)); ans(!(s != a)); if (n.e > 0) { ans(a == e); ans(e == a); ans(!(a != e)); ans(!(e != a)); } };
				if (kk == "is") { TagAtom x = n.e > 0 ? TagAtom(all_tag.at(n.e - 1)) : TagAtom(cv(n.s)), y; y = static_cast<S>(x); f(TagAtom(el.local_name()), x, y, n.e > 0 ? all_tag.at(n.e - 1) : static_cast<tag_name>(0), static_cast<S>(x)); if (index_of(all_tag, el.local_name_name())) f(TagAtom(el.local_name_name()), x, y, n.e > 0 ? all_tag.at(n.e - 1) : static_cast<tag_name>(0), static_cast<S>(x)); }
				else { At const& b = *std::next(el.begin(), i - 1); AtAtom x = n.e > 0 ? AtAtom(all_attr.at(n.e - 1)) : AtAtom(cv(n.s)), y; y = static_cast<S>(x); f(AtAtom(b.local_name()), x, y, n.e > 0 ? all_attr.at(n.e - 1) : static_cast<attribute_name>(0), static_cast<S>(x)); }
			}
			Nd nd(el); Nd nd2; nd2 = nd;
			J j; j.str("op", "call").str("k", kk).raw("ns", ref(ns)).raw("pre", arr(pre)).raw("n", ref(n)).raw("v", arr(v)).i("i", i).raw("rs", arr(rs)).raw("sh", shown(el)).raw("nd", shown(nd2)); j.emit();
		}
	}
	// a node of each kind, with its strings set through constructors or through the node
	static void kind(Rd& rd)
	{
		int k = static_cast<int>(rd.i()), how = static_cast<int>(rd.i()), dt = static_cast<int>(rd.i()), dm = static_cast<int>(rd.i()); std::u32string a = rd.str<std::u32string>(), b = rd.str<std::u32string>(), c = rd.str<std::u32string>();
		Nd nd; std::string pub = "[]", sys = "[]";
		switch (k)
		{
		case 1: nd = Nd(El(cv(a))); break;
		case 3: if (how) { nd = Nd(simple_text<S>()); nd.data() = cv(a); } else nd = Nd(simple_text<S>(cv(a))); break;
		case 7: { simple_processing_instruction<S> p; if (how) { p.data() = cv(a); p.target() = cv(b); } else { p.data(cv(a)); S t = cv(b); p.target(t); } nd = Nd(p); } break;
		case 8: if (how) { nd = Nd(simple_comment<S>()); nd.data() = cv(a); } else { S t = cv(a); nd = Nd(simple_comment<S>(t)); } break;
		case 9: { simple_document<S> d; if (how) { d.document_type(static_cast<document_type_name>(dt)); d.document_mode(static_cast<document_mode_name>(dm)); nd = Nd(d); } else { nd = Nd(d); nd.document_type_name(static_cast<document_type_name>(dt)); nd.document_mode_name(static_cast<document_mode_name>(dm)); } } break;
		case 10: { simple_document_type<S> d(cv(a), cv(b), cv(c)); if (how) { d.name(cv(c)); d.public_id(cv(a)); d.system_id(cv(b)); } pub = cps(d.public_id()); sys = cps(d.system_id()); nd = Nd(d); } break;
		default: nd = Nd(simple_document_fragment<S>());
		}
		Nd const x(nd); Nd other = k == 1 ? Nd(simple_text<S>(cv(a))) : Nd(El(cv(a)));
		J j; j.str("op", "kind").i("k", k).i("how", how).i("dt", dt).i("dm", dm).raw("a", arr(a)).raw("b", arr(b)).raw("cc", arr(c));
		j.i("type", static_cast<int>(x.type())).raw("is", arr(std::vector<int>{ x.is_element(), x.is_text(), x.is_processing_instruction(), x.is_comment(), x.is_document(), x.is_document_type() })).b("other", x == other || !(x != other));
		j.raw("data", k == 3 || k == 7 || k == 8 ? cps(x.data()) : "[]").raw("target", k == 7 ? cps(x.target()) : "[]").raw("name", k == 10 ? cps(x.name()) : "[]").raw("pub", pub).raw("sys", sys);
		j.i("odt", k == 9 ? static_cast<int>(x.document_type_name()) : 0).i("odm", k == 9 ? static_cast<int>(x.document_mode_name()) : 0); j.emit();
	}
};
int main()
{
	return harness_main([](Rd& rd) {
		int op = static_cast<int>(rd.i()), w = static_cast<int>(rd.i());
		auto f = [&](auto r) { using R = decltype(r); if (op == 1) R::go(rd); else R::kind(rd); };
		if (w == 0) f(Run<std::u8string>()); else if (w == 1) f(Run<std::u16string>()); else f(Run<std::u32string>());
	});
}
