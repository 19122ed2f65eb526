// nodes of a parsed document as JSON
#pragma once
using namespace wordring::html;
template <typename S> static std::u32string u32(S const& s) { return wordring::encoding_cast<std::u32string>(s); }
static char const* nsname(ns_name n)
{
	switch (n)
	{
	case ns_name::HTML: return "html"; case ns_name::MathML: return "math"; case ns_name::SVG: return "svg"; case ns_name::XLink: return "xlink"; case ns_name::XML: return "xml"; case ns_name::XMLNS: return "xmlns";
	default: return static_cast<int>(n) == 0 ? "" : "?";
	}
}
struct Ids { std::u32string p, s; };
// nodes in document order; ids: the identifiers of the DOCTYPEs, if known
template <typename It> static void dump(It it, int depth, std::vector<std::string>& o, std::vector<Ids> const* ids, std::size_t& dt)
{
	for (auto i = it.begin(); i != it.end(); ++i)
	{
		std::string k, ns, n = "[]", a = "[]", d = "[]", p = "[]", s = "[]";
		if (i->is_element())
		{
			k = "el"; ns = nsname(i->namespace_uri_name()); n = arr(u32(i->local_name()));
			if (u32(i->qualified_name()) != u32(i->local_name())) k = "prefixed";
			std::vector<std::string> v;
			for (auto x = i->begin(); x != i->end(); ++x) { J j; j.str("ns", nsname(x->namespace_uri_name())).raw("pre", arr(u32(x->prefix()))).raw("n", arr(u32(x->local_name()))).raw("v", arr(u32(x->value()))); v.push_back(j.obj()); }
			a = arrj(v);
		}
		else if (i->is_text()) { k = "text"; d = arr(u32(i->data())); }
		else if (i->is_comment()) { k = "com"; d = arr(u32(i->data())); }
		else if (i->is_document_type()) { k = "dt"; n = arr(u32(i->name())); if (ids && dt < ids->size()) { p = arr((*ids)[dt].p); s = arr((*ids)[dt].s); } ++dt; }
		else k = "other";
		J j; j.i("l", depth).str("k", k).str("ns", ns).raw("n", n).raw("a", a).raw("d", d).raw("p", p).raw("s", s); o.push_back(j.obj());
		dump(i, depth + 1, o, ids, dt);
	}
}
static char const* modename(document_mode_name m) { return m == document_mode_name::Quirks ? "quirks" : m == document_mode_name::LimitedQuirks ? "limited" : "no"; }
