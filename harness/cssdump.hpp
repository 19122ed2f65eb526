// Component values, tokens and rules as the records of CssTokenizer.tla / CssParser.tla.
#pragma once
#include "common.hpp"
#include <wordring/wwwc/css_syntax/parsing.hpp>
using namespace wordring::wwwc::css;
using U32 = std::u32string;
using Prims = std::vector<syntax_primitive>;

static std::string rec(char const* k, std::string v = "[]", std::string n = "[]", int f = 0, std::string c = "[]")
{
	return std::string("{\"k\":\"") + k + "\",\"v\":" + v + ",\"n\":" + n + ",\"f\":" + std::to_string(f) + ",\"c\":" + c + "}";
}
static std::string num(double x)
{
	if (x != x) return "[2]";
	int neg = std::signbit(x) ? 1 : 0; double a = std::fabs(x);
	if (std::isinf(a)) return "[1," + std::to_string(neg) + "]";
	if (a == 0) return "[0,0,0]";
	char b[64]; std::snprintf(b, sizeof b, "%.12e", a);
	int e = std::atoi(std::strchr(b, 'e') + 1);
	if (e >= 308) return "[1," + std::to_string(neg) + "]";
	if (e < -307) return "[0,0,0]";
	std::string d; for (char* q = b; *q != 'e'; ++q) if (*q != '.') d += *q;
	while (!d.empty() && d.back() == '0') d.pop_back();
	std::string r = "[0," + std::to_string(neg) + "," + std::to_string(e);
	for (char ch : d) { r += ','; r += ch; }
	return r + "]";
}
template <typename P> static std::string js(P const& x);
template <typename V> static std::string jsv(V const& v) { std::vector<std::string> o; for (auto const& x : v) o.push_back(js(x)); return arrj(o); }
static std::string sb(simple_block const& b) { return rec("block", arr(U32(1, b.m_associated_token)), "[]", 0, jsv(b.m_value)); }
template <typename P> static std::string js(P const& x)
{
	using N = syntax_primitive_name;
	switch (x.type())
	{
	case N::IdentToken: return rec("ident", arr(x.template get<ident_token>().m_value));
	case N::AtKeywordToken: return rec("at", arr(x.template get<at_keyword_token>().m_value));
	case N::HashToken: { auto const& t = x.template get<hash_token>(); return rec("hash", arr(t.m_value), "[]", static_cast<int>(t.m_type_flag)); }
	case N::StringToken: return rec("string", arr(x.template get<string_token>().m_value));
	case N::BadStringToken: return rec("badstring");
	case N::UrlToken: return rec("url", arr(x.template get<url_token>().m_value));
	case N::BadUrlToken: return rec("badurl");
	case N::DelimToken: return rec("delim", arr(U32(1, x.template get<delim_token>().m_value)));
	case N::NumberToken: { auto const& t = x.template get<number_token>(); return rec("num", "[]", num(t.m_value), static_cast<int>(t.m_type_flag)); }
	case N::PercentageToken: return rec("pct", "[]", num(x.template get<percentage_token>().m_value));
	case N::DimensionToken: { auto const& t = x.template get<dimension_token>(); return rec("dim", arr(t.m_unit), num(t.m_value), static_cast<int>(t.m_type_flag)); }
	case N::WhitespaceToken: return rec("ws");
	case N::CdoToken: return rec("cdo");
	case N::CdcToken: return rec("cdc");
	case N::ColonToken: return rec("colon");
	case N::SemicolonToken: return rec("semi");
	case N::CommaToken: return rec("comma");
	case N::CloseSquareToken: return rec("]");
	case N::CloseParenToken: return rec(")");
	case N::CloseCurlyToken: return rec("}");
	case N::EofToken: return rec("eof");
	case N::Function: { auto const& f = x.template get<function>(); return rec("fn", arr(f.m_name), "[]", 0, jsv(f.m_value)); }
	case N::SimpleBlock: return sb(x.template get<simple_block>());
	default: break;
	}
	if constexpr (std::is_same_v<P, syntax_primitive>) switch (x.type())
	{
	case N::FunctionToken: return rec("function", arr(x.template get<function_token>().m_value));
	case N::OpenSquareToken: return rec("[");
	case N::OpenParenToken: return rec("(");
	case N::OpenCurlyToken: return rec("{");
	case N::AtRule:
	{
		auto const& r = x.template get<at_rule>(); std::vector<std::string> c; for (auto const& p : r.m_prelude) c.push_back(js(p));
		if (r.m_block) c.push_back(sb(*r.m_block));
		return rec("atrule", arr(r.m_name), "[]", r.m_block ? 1 : 0, arrj(c));
	}
	case N::QualifiedRule:
	{
		auto const& r = x.template get<qualified_rule>(); std::vector<std::string> c; for (auto const& p : r.m_prelude) c.push_back(js(p)); c.push_back(sb(r.m_block));
		return rec("qrule", "[]", "[]", 1, arrj(c));
	}
	case N::Declaration: { auto const& d = x.template get<declaration>(); return rec("decl", arr(d.m_name), "[]", d.m_important_flag ? 1 : 0, jsv(d.m_value)); }
	default: break;
	}
	return rec("none");
}
