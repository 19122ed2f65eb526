// HTML serialiser: the text written for a tree (parsed from a text, or built node by node), and the tree read back from that text.
#include "common.hpp"
#include <wordring/html/simple_html.hpp>

using namespace wordring::html;
template <typename S> static std::u32string u32(S const& s) { return wordring::encoding_cast<std::u32string>(s); }
static char const* nsname(ns_name n)
{
	switch (n)
	{
	case ns_name::HTML: return "html"; case ns_name::MathML: return "math"; case ns_name::SVG: return "svg"; case ns_name::XLink: return "xlink"; case ns_name::XML: return "xml"; case ns_name::XMLNS: return "xmlns";
	default: return static_cast<int>(n) == 0 ? "" : "?";
	}
}
static ns_name nsof(long long k) { static ns_name const t[] = { static_cast<ns_name>(0), ns_name::HTML, ns_name::MathML, ns_name::SVG, ns_name::XLink, ns_name::XML, ns_name::XMLNS }; return t[k]; }
template <typename It> static void dump(It it, int depth, std::vector<std::string>& o, std::vector<std::string>& pre, std::vector<It>& at)
{
	for (auto i = it.begin(); i != it.end(); ++i)
	{
		std::string k, ns, n = "[]", a = "[]", d = "[]", q = "[]";
		if (i->is_element())
		{
			k = "el"; ns = nsname(i->namespace_uri_name()); n = arr(u32(i->local_name()));
			std::u32string qn = u32(i->qualified_name()), ln = u32(i->local_name());
			if (qn.size() > ln.size()) q = arr(qn.substr(0, qn.size() - ln.size() - 1));
			std::vector<std::string> v;
			for (auto x = i->begin(); x != i->end(); ++x) { J j; j.str("ns", nsname(x->namespace_uri_name())).raw("pre", arr(u32(x->prefix()))).raw("n", arr(u32(x->local_name()))).raw("v", arr(u32(x->value()))); v.push_back(j.obj()); }
			a = arrj(v);
		}
		else if (i->is_text()) { k = "text"; d = arr(u32(i->data())); }
		else if (i->is_comment()) { k = "com"; d = arr(u32(i->data())); }
		else if (i->is_processing_instruction()) { k = "pi"; n = arr(u32(i->target())); d = arr(u32(i->data())); }
		else if (i->is_document_type()) { k = "dt"; n = arr(u32(i->name())); }
		else k = "other";
		J j; j.i("l", depth).str("k", k).str("ns", ns).raw("n", n).raw("a", a).raw("d", d).raw("p", "[]").raw("s", "[]"); o.push_back(j.obj()); pre.push_back(q); at.push_back(i);
		dump(i, depth + 1, o, pre, at);
	}
}
template <typename Tree, typename Out, bool Const> static void ser(Tree& t, long long idx, bool again)
{
	using It = std::conditional_t<Const, typename Tree::const_iterator, typename Tree::iterator>;
	It root = [&]() -> It { if constexpr (Const) return static_cast<Tree const&>(t).begin(); else return t.begin(); }();
	std::vector<std::string> o, pre; std::vector<It> at;
	dump(root, 0, o, pre, at);
	long long i = at.empty() ? 0 : idx % static_cast<long long>(at.size() + 1);
	Out out;
	wordring::html::to_string(i == 0 ? root : at[i - 1], std::back_inserter(out));
	std::u32string text;
	if constexpr (std::is_same_v<Out, std::string>) { std::u8string s(out.begin(), out.end()); text = u32(s); } else text = u32(out);
	J j; j.str("op", "ser").i("i", i).raw("r", arrj(o)).raw("pre", arrj(pre)).raw("out", arr(text)).b("again", again && i == 0);
	std::vector<std::string> o2, pre2;
	if (again && i == 0)
	{
		Tree t2 = [&] { if constexpr (std::is_same_v<Out, std::string>) { std::u8string s(out.begin(), out.end()); return make_document<Tree>(s.begin(), s.end()); } else return make_document<Tree>(out.begin(), out.end()); }();
		std::vector<typename Tree::iterator> at2;
		dump(t2.begin(), 0, o2, pre2, at2);
	}
	j.raw("re", arrj(o2)); j.emit();
}
template <typename Tree> static void ser(Tree& t, long long type, long long idx, bool again)
{
	switch (type)
	{
	case 0: ser<Tree, std::u32string, false>(t, idx, again); break;
	case 1: ser<Tree, std::u8string, true>(t, idx, again); break;
	case 2: ser<Tree, std::u16string, false>(t, idx, again); break;
	case 3: ser<Tree, std::string, true>(t, idx, again); break;
	}
}
template <typename Tree, typename S> static void go(Rd& rd)
{
	using Node = typename Tree::value_type;
	auto str = [&] { return wordring::encoding_cast<S>(rd.str<std::u32string>()); };
	long long how = rd.i(), type = rd.i(), idx = rd.i();
	if (how == 0)
	{
		std::u32string in = rd.str<std::u32string>();
		Tree t = make_document<Tree>(in.begin(), in.end());
		ser(t, type, idx, true);
		return;
	}
	// built: how 1 in a document, 2 in a document fragment
	Tree t;
	std::vector<typename Tree::iterator> path{ how == 1 ? t.insert(t.begin(), Node(simple_document<S>())) : t.insert(t.begin(), Node(simple_document_fragment<S>())) };
	bool again = true;
	while (rd.more())
	{
		std::size_t l = rd.i(); long long k = rd.i(); path.resize(l + 1);
		auto put = [&](Node&& n) { path.push_back(t.insert(path[l].end(), std::move(n))); };
		switch (k)
		{
		case 0:
		{
			ns_name ns = nsof(rd.i()); S pre = str(), n = str(); simple_element<S> e(ns, pre, n);
			for (long long c = rd.i(); 0 < c; --c) { ns_name ans = nsof(rd.i()); S p = str(), an = str(), v = str(); e.push_back(simple_attr<S>(ans, p, an, v)); }
			put(Node(e)); break;
		}
		case 1: put(Node(simple_text<S>(str()))); break;
		case 2: { simple_comment<S> c; c.data(str()); put(Node(c)); break; }
		case 3: { simple_processing_instruction<S> p; p.target(str()); p.data(str()); put(Node(p)); break; }
		case 4: { S n = str(); put(Node(simple_document_type<S>(n, S(), S()))); break; }
		}
	}
	ser(t, type, idx, again);
}
static void run(Rd& rd)
{
	switch (rd.i())
	{
	case 0: go<u32simple_tree, std::u32string>(rd); break;
	case 1: go<u8simple_tree, std::u8string>(rd); break;
	case 2: go<u16simple_tree, std::u16string>(rd); break;
	}
}
int main() { return harness_main(run); }
