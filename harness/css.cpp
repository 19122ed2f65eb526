#include "cssdump.hpp"
using wordring::encoding_name;

// An iterator that refuses to be read or moved outside its range.
struct Checked
{
	using iterator_category = std::bidirectional_iterator_tag; using value_type = char32_t; using difference_type = std::ptrdiff_t;
	using pointer = char32_t const*; using reference = char32_t const&;
	U32 const* s = nullptr; std::ptrdiff_t p = 0;
	reference operator*() const { if (p < 0 || p >= static_cast<std::ptrdiff_t>(s->size())) std::abort(); return (*s)[p]; }
	Checked& operator++() { if (p >= static_cast<std::ptrdiff_t>(s->size())) std::abort(); ++p; return *this; }
	Checked& operator--() { if (p <= 0) std::abort(); --p; return *this; }
	Checked operator++(int) { Checked t = *this; ++*this; return t; }
	Checked operator--(int) { Checked t = *this; --*this; return t; }
	bool operator==(Checked const& r) const { return p == r.p; }
	bool operator!=(Checked const& r) const { return p != r.p; }
};

template <typename In> static std::string entry(int k, In in)
{
	switch (k)
	{
	case 0: return jsv(parse_stylesheet(std::move(in)));
	case 1: return jsv(parse_list_of_rules(std::move(in)));
	case 2: { auto r = parse_rule(std::move(in)); return r ? "[" + js(*r) + "]" : "[]"; }
	case 3: { auto r = parse_declaration(std::move(in)); return r ? "[" + js(syntax_primitive(*r)) + "]" : "[]"; }
	case 4: return jsv(parse_list_of_declarations(std::move(in)));
	case 5: { auto r = parse_component_value(std::move(in)); return r ? "[" + js(*r) + "]" : "[]"; }
	case 6: return jsv(parse_list_of_component_values(std::move(in)));
	default: { std::vector<std::string> o; for (auto const& v : parse_comma_separated_list_of_component_values(std::move(in))) o.push_back(jsv(v)); return arrj(o); }
	}
}
static Prims tokens(U32 s) { return normalize_into_token_stream(std::move(s)); }
// copies of rules and declarations, made in every way, say the same as the originals
static bool copies(Prims const& v)
{
	std::string want = jsv(v); bool ok = true;
	Prims a(v), b; b = v; ok = ok && jsv(a) == want && jsv(b) == want;
	for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = 0; j < v.size(); ++j) { syntax_primitive x(v[i]); x = v[j]; ok = ok && js(x) == js(v[j]); }
	for (auto const& x : v) if (x.type() == syntax_primitive_name::AtRule) for (auto const& y : v) if (y.type() == syntax_primitive_name::AtRule)
	{
		at_rule r(x.get<at_rule>()); r = y.get<at_rule>(); ok = ok && js(syntax_primitive(r)) == js(y);
		at_rule m(std::move(r)); ok = ok && js(syntax_primitive(m)) == js(y);
	}
	return ok && jsv(v) == want;
}

static void run(Rd& rd)
{
	switch (rd.i())
	{
	case 1: // tokens of a text
	{
		U32 in = rd.str<U32>(); U32 s = in;
		s.erase(wordring::wwwc::filter_code_points(s.begin(), s.end()), s.end());
		Prims t; Checked f{ &s, 0 }, l{ &s, static_cast<std::ptrdiff_t>(s.size()) };
		tokenize(f, l, std::back_inserter(t), nullptr);
		std::string a = jsv(t), b = jsv(tokens(in));
		J j; j.str("op", "tok").raw("in", arr(in)).raw("pre", arr(s)).raw("t", a).b("same", a == b).emit();
		break;
	}
	case 2: // every entry point on a text, on its tokens and on its component values
	{
		U32 in = rd.str<U32>(); std::vector<std::string> r; bool st = true, sv = true;
		for (int k = 0; k < 8; ++k)
		{
			r.push_back(entry(k, in));
			st = st && entry(k, tokens(in)) == r.back();
			sv = sv && entry(k, parse_list_of_component_values(U32(in))) == r.back();
		}
		bool cp = copies(parse_stylesheet(U32(in))) && copies(parse_list_of_declarations(U32(in))) && copies(parse_list_of_component_values(U32(in)));
		J j; j.str("op", "parse").raw("in", arr(in)).raw("r", arrj(r)).b("st", st).b("sv", sv).b("cp", cp).emit();
		break;
	}
	case 3: // bytes: fallback encoding and style sheet
	{
		auto fb = static_cast<encoding_name>(rd.i()); std::string in = rd.str<std::string>();
		auto e = wordring::wwwc::determine_fallback_encoding(in.begin(), in.end(), fb);
		U32 out; wordring::wwwc::decode(in.begin(), in.end(), std::back_inserter(out), fb);
		J j; j.str("op", "bytes").i("fb", static_cast<int>(fb)).raw("in", arr(in)).i("e", static_cast<int>(e)).raw("out", arr(out)).raw("r", jsv(parse_stylesheet(in, fb))).emit();
		break;
	}
	}
}
int main() { return harness_main(run); }
