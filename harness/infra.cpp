// Infra string operations in each string type, code point classes over all code points, the push matcher.
#include "common.hpp"
#include <wordring/whatwg/infra/infra.hpp>
#include <wordring/whatwg/infra/unicode.hpp>
#include <wordring/string/matcher.hpp>
using namespace wordring::whatwg;
template <typename S> static std::string cps(S const& s) { return arr(encoding_cast<std::u32string>(s)); }
template <typename S> static std::string parts(std::vector<S> const& v) { std::vector<std::string> o; for (auto const& s : v) o.push_back(cps(s)); return arrj(o); }
template <typename S> static void text(std::u32string const& in, std::u32string const& other, char32_t d)
{
	using T = std::basic_string<typename S::value_type>;
	S s = encoding_cast<S>(in), o = encoding_cast<S>(other);
	auto b = s.begin(), e = s.end();
	J j; j.str("op", "text").i("w", 8 * sizeof(typename S::value_type)).raw("in", arr(in)).raw("o", arr(other)).i("d", d);
	j.b("asc", is_ascii_string(b, e));
	S low, up; to_ascii_lowercase(b, e, std::back_inserter(low)); to_ascii_uppercase(b, e, std::back_inserter(up)); j.raw("low", cps(low)).raw("up", cps(up));
	j.b("m1", is_ascii_case_insensitive_match(b, e, o.begin(), o.end())).b("m2", is_ascii_case_insensitive_match(b, e, up.begin(), up.end())).b("m3", is_ascii_case_insensitive_match(o.begin(), o.end(), b, e));
	{ S r; strip_newlines(b, e, std::back_inserter(r)); j.raw("snl", cps(r)); }
	{ S r; normalize_newlines(b, e, std::back_inserter(r)); j.raw("nnl", cps(r)); }
	{ S r; strip_leading_and_trailing_ascii_whitespace(b, e, std::back_inserter(r)); j.raw("strip", cps(r)); }
	{ S r; strip_and_collapse_ascii_whitespace(b, e, std::back_inserter(r)); j.raw("coll", cps(r)); }
	{ S r; auto i = collect_sequence_of_code_points(b, e, std::back_inserter(r), [](char32_t c) { return c != U','; }); j.raw("col", cps(r)).i("coln", std::distance(b, i)); }
	j.i("skip", std::distance(b, skip_ascii_whitespace(b, e)));
	{ std::vector<T> v; strictly_split_on_particular_delimiter(b, e, std::back_inserter(v), d); j.raw("strict", parts(v)); }
	{ std::vector<T> v; split_on_ascii_whitespace(b, e, std::back_inserter(v)); j.raw("sws", parts(v)); }
	{ std::vector<T> v; split_on_commas(b, e, std::back_inserter(v)); j.raw("scom", parts(v)); }
	j.emit();
}
static std::string bytes(std::string const& s) { std::vector<int> v; for (char c : s) v.push_back(static_cast<unsigned char>(c)); return arr(v); }
static void run_bytes(Rd& rd)
{
	std::string in = rd.str<std::string>(), o = rd.str<std::string>(), low, up, enc, ae; std::u32string iso, ad;
	to_byte_lowercase(in.begin(), in.end(), std::back_inserter(low)); to_byte_uppercase(in.begin(), in.end(), std::back_inserter(up));
	isomorphic_decode(in.begin(), in.end(), std::back_inserter(iso)); isomorphic_encode(iso.begin(), iso.end(), std::back_inserter(enc));
	bool all = true; std::vector<std::string> asc; for (char c : in) { bool a = is_ascii_byte(c); asc.push_back(a ? "true" : "false"); all = all && static_cast<unsigned char>(c) < 128; }
	if (all) { ascii_decode(in.begin(), in.end(), std::back_inserter(ad)); ascii_encode(ad.begin(), ad.end(), std::back_inserter(ae)); }
	J j; j.str("op", "bytes").raw("in", bytes(in)).raw("o", bytes(o)).raw("low", bytes(low)).raw("up", bytes(up)).b("m", is_byte_case_insensitive_match(in.begin(), in.end(), o.begin(), o.end())).raw("iso", arr(iso)).raw("enc", bytes(enc)).raw("ad", arr(ad)).raw("ae", bytes(ae)).raw("asc", arrj(asc)); j.emit();
}
static void run_class(Rd& rd)
{
	using F = bool (*)(char32_t);
	static std::vector<std::pair<char const*, std::function<bool(char32_t)>>> const K{ { "surrogate", is_surrogate }, { "scalar", is_scalar_value }, { "noncharacter", is_noncharacter }, { "ascii", is_ascii_code_point }, { "tabnl", is_ascii_tab_or_newline },
		{ "ws", is_ascii_white_space }, { "c0", is_c0_control }, { "c0sp", is_c0_control_or_space }, { "control", is_control }, { "digit", is_ascii_digit }, { "uhex", is_ascii_upper_hex_digit }, { "lhex", is_ascii_lower_hex_digit }, { "hex", is_ascii_hex_digit },
		{ "upper", is_ascii_upper_alpha }, { "lower", is_ascii_lower_alpha }, { "alpha", is_ascii_alpha }, { "alnum", is_ascii_alphanumeric } };
	auto const& k = K.at(rd.i()); std::vector<std::string> o; long a = -1;
	for (long c = 0; c <= 0x110000; ++c)
	{
		bool y = c < 0x110000 && k.second(static_cast<char32_t>(c));
		if (y && a < 0) a = c;
		if (!y && a >= 0) { o.push_back("[" + std::to_string(a) + "," + std::to_string(c - 1) + "]"); a = -1; }
	}
	J j; j.str("op", "class").str("k", k.first).raw("r", arrj(o)); j.emit();
}
template <typename S> static void run_match(Rd& rd)
{
	using M = wordring::string_matcher<S>;
	std::vector<S> w; long long n = rd.i(); for (long long i = 0; i < n; ++i) w.push_back(rd.str<S>());
	S in = rd.str<S>();
	M m = n == 0 ? M({}) : n == 1 ? M({ w[0] }) : n == 2 ? M({ w[0], w[1] }) : n == 3 ? M({ w[0], w[1], w[2] }) : M({ w[0], w[1], w[2], w[3] });
	std::vector<std::string> r, data, ws; for (auto const& x : w) ws.push_back(arr(x));
	for (auto c : in)
	{
		auto x = m.push_back(c);
		r.push_back(x == M::match_result::partial ? "\"partial\"" : x == M::match_result::succeed ? "\"succeed\"" : "\"failed\"");
		data.push_back(m.size() == m.data().size() ? arr(m.data()) : "[-1]");
		if (x != M::match_result::partial) { m.clear(); if (m.size()) data.back() = "[-2]"; }
	}
	J j; j.str("op", "match").raw("words", arrj(ws)).raw("in", arr(in)).raw("r", arrj(r)).raw("data", arrj(data)); j.emit();
}
// every scalar value of a plane written in one string type and read back: maximal runs of [first, last, units of first, read back]
template <typename S> static void run_units(int w, long plane)
{
	std::vector<std::string> o; long a = -1, b = -1, back0 = 0, back = 0; S first, prev;
	auto flush = [&]() { if (a >= 0) { std::vector<long> u; for (auto c : first) u.push_back(static_cast<std::make_unsigned_t<typename S::value_type>>(c)); o.push_back("[" + std::to_string(a) + "," + std::to_string(b) + "," + arr(u) + "," + std::to_string(back0) + "]"); } a = -1; };
	for (long c = plane << 16; c < (plane + 1) << 16; ++c)
	{
		if (0xD800 <= c && c <= 0xDFFF) { flush(); continue; }
		S s; to_string(static_cast<char32_t>(c), std::back_inserter(s));
		std::u32string in(1, static_cast<char32_t>(c)); S s2 = encoding_cast<S>(in); if (s2 != s) s.push_back(1);
		char32_t d = 0; auto i = to_code_point(s.begin(), s.end(), d); long k = i == s.end() ? static_cast<long>(d) : -1;
		if (encoding_cast<std::u32string>(s) != in) k = -2;
		S t = prev; if (!t.empty()) ++t.back();
		if (a >= 0 && t == s && k == back + 1) { b = c; prev = s; back = k; continue; }
		flush(); a = b = c; first = prev = s; back = back0 = k;
	}
	flush();
	J j; j.str("op", "units").i("w", w).i("p", plane).raw("r", arrj(o)); j.emit();
}
static void run(Rd& rd)
{
	switch (rd.i())
	{
	case 1: { long long w = rd.i(); char32_t d = rd.i(); std::u32string s = rd.str<std::u32string>(), o = rd.str<std::u32string>();
		if (w == 0) text<std::string>(s, o, d); else if (w == 1) text<std::u8string>(s, o, d); else if (w == 2) text<std::u16string>(s, o, d); else text<std::u32string>(s, o, d); break; }
	case 2: run_bytes(rd); break;
	case 3: run_class(rd); break;
	case 4: run_match<std::u32string>(rd); break;
	case 5: run_match<std::u16string>(rd); break;
	case 6: { long long w = rd.i(), p = rd.i(); if (w == 0) run_units<std::string>(8, p); else if (w == 1) run_units<std::u8string>(8, p); else run_units<std::u16string>(16, p); break; }
	}
}
int main() { return harness_main(run); }
