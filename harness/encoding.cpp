// Encoding Standard: decoders, encoders, hooks, labels, TextDecoder, I/O queue, string conversions
#include "common.hpp"
#include <wordring/whatwg/encoding/api.hpp>
#include <wordring/whatwg/encoding/encoding.hpp>
#include <wordring/whatwg/infra/infra.hpp>
#include <wordring/whatwg/infra/unicode.hpp>
using namespace wordring::whatwg::encoding;
using wordring::whatwg::encoding_cast;

static std::string cps(std::u32string const& s) { return arr(std::vector<std::uint32_t>(s.begin(), s.end())); }
static std::string bts(std::string const& s) { return arr(std::vector<std::uint8_t>(s.begin(), s.end())); }
template <typename S> static std::string units(S const& s) { std::vector<std::uint32_t> v; for (auto c : s) v.push_back(static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<decltype(c)>>(c))); return arr(v); }
template <typename T> static bool drain(io_queue<T>& q, std::basic_string<T>& s)
{
	for (;;) { auto i = q.read(); if (i.m_wait) return false; if (i->m_eoq) return true; s.push_back(i->m_value); }
}
static io_queue<char> bytes(std::string const& s) { return to_io_queue_convert(s.begin(), s.end()); }
static encoding_name E(long long x) { return static_cast<encoding_name>(x); }

static void run_dec(Rd& r)
{
	int e = r.i(); std::vector<std::string> ch(r.i());
	for (auto& c : ch) c = r.str<std::string>();
	std::vector<std::string> outs, ins; bool fin = false; int eoqs = 0;
	for (auto& c : ch) ins.push_back(bts(c));
	{
		coder c = get_encoding_decoder(E(e)); io_queue<char> in; io_queue<char32_t> out;
		for (std::size_t i = 0; i <= ch.size() && !fin; ++i)
		{
			if (i < ch.size()) in.push(ch[i].begin(), ch[i].end()); else in.push(io_item<char>{ 0, true });
			auto rv = process_queue(c, in, out, error_mode_name::Replacement);
			fin = std::holds_alternative<result_finished>(rv);
			std::u32string s; bool q = drain(out, s); if (q) ++eoqs;
			if (q && !fin) eoqs += 100;
			outs.push_back(cps(s));
		}
	}
	std::string all; for (auto& c : ch) all += c;
	coder c = get_encoding_decoder(E(e)); io_queue<char> in = bytes(all); io_queue<char32_t> out;
	auto rv = process_queue(c, in, out, error_mode_name::Fatal);
	std::u32string f; drain(out, f);
	J().str("op", "dec").i("e", e).raw("in", arrj(ins)).raw("rep", arrj(outs)).b("fin", fin).i("eoqs", eoqs).raw("fat", cps(f)).b("err", std::holds_alternative<result_error>(rv)).emit();
}

static void run_hook(Rd& r)
{
	int e = r.i(); std::string s = r.str<std::string>();
	J j; j.str("op", "hook").i("e", e).raw("in", bts(s));
	{ auto in = bytes(s); io_queue<char32_t> out; std::u32string t; auto rv = decode(in, E(e), out); bool q = drain(out, t); j.raw("dec", cps(t)).b("decfin", q && std::holds_alternative<result_finished>(rv)); }
	{ auto in = bytes(s); io_queue<char32_t> out; std::u32string t; auto rv = utf8_decode(in, out); bool q = drain(out, t); j.raw("u8", cps(t)).b("u8fin", q && std::holds_alternative<result_finished>(rv)); }
	{ auto in = bytes(s); io_queue<char32_t> out; std::u32string t; auto rv = utf8_decode_without_bom(in, out); bool q = drain(out, t); j.raw("nobom", cps(t)).b("nobomfin", q && std::holds_alternative<result_finished>(rv)); }
	{ auto in = bytes(s); io_queue<char32_t> out; std::u32string t; auto rv = utf8_decode_without_bom_or_fail(in, out); drain(out, t); j.raw("orfail", cps(t)).b("orfailerr", std::holds_alternative<result_error>(rv)); }
	{ auto in = bytes(s); auto b = bom_sniff(in); j.i("bom", static_cast<int>(b.m_value)).b("bomwait", b.m_wait); }
	{ io_queue<char> in; in.push(s.begin(), s.end()); auto b = bom_sniff(in); j.i("pend", b.m_wait ? -1 : static_cast<int>(b.m_value)); }
	// before the first three bytes or the end are there nothing is decided; the call is made again when they are
	std::string d2, u2; bool waits = true;
	for (std::size_t k = 0; k < 3 && k <= s.size(); ++k)
	{
		{ io_queue<char> in; in.push(s.begin(), s.begin() + k); io_queue<char32_t> out; std::u32string t; auto a = decode(in, E(e), out); if (!std::holds_alternative<result_continue>(a) || !out.read().m_wait) waits = false;
		  auto rest = bytes(s.substr(k)); for (;;) { auto i = rest.read(); in.push(*i); if (i->m_eoq) break; } auto rv = decode(in, E(e), out); bool q = drain(out, t); if (!q || !std::holds_alternative<result_finished>(rv)) waits = false; d2 += (k ? "," : "") + cps(t); }
		{ io_queue<char> in; in.push(s.begin(), s.begin() + k); io_queue<char32_t> out; std::u32string t; auto a = utf8_decode(in, out); if (!std::holds_alternative<result_continue>(a) || !out.read().m_wait) waits = false;
		  auto rest = bytes(s.substr(k)); for (;;) { auto i = rest.read(); in.push(*i); if (i->m_eoq) break; } auto rv = utf8_decode(in, out); bool q = drain(out, t); if (!q || !std::holds_alternative<result_finished>(rv)) waits = false; u2 += (k ? "," : "") + cps(t); }
	}
	j.raw("later", "[" + d2 + "]").raw("u8later", "[" + u2 + "]").b("waits", waits);
	j.emit();
}

static void one_td(int e, bool fatal, bool ign, text_decoder& td, std::vector<bool> const& streams, std::vector<std::string> const& ins)
{
	std::vector<std::string> calls; bool threw = false;
	for (std::size_t i = 0; i < ins.size() && !threw; ++i)
	{
		std::string const& s = ins[i]; std::u32string o;
		try { o = td.decode(s.begin(), s.end(), streams[i]); } catch (std::exception const&) { threw = true; }
		calls.push_back(J().b("stream", streams[i]).raw("in", bts(s)).raw("out", cps(o)).b("threw", threw).obj());
	}
	J().str("op", "td").i("e", e).b("fatal", fatal).b("ign", ign).b("same", td.fatal() == fatal && td.ignore_bom() == ign).raw("label", cps(td.encoding())).raw("calls", arrj(calls)).emit();
}
static void run_td(Rd& r) // made from the encoding and from its label
{
	int e = r.i(); bool fatal = r.i(), ign = r.i(); long long n = r.i();
	std::vector<bool> st; std::vector<std::string> in;
	for (long long i = 0; i < n; ++i) { st.push_back(r.i()); in.push_back(r.str<std::string>()); }
	{ text_decoder td(E(e), fatal, ign); one_td(e, fatal, ign, td, st, in); }
	{ std::u32string l(get_encoding_label(E(e))); text_decoder td(std::u32string_view(l), fatal, ign); one_td(e, fatal, ign, td, st, in); }
	if (e == static_cast<int>(encoding_name::UTF_8) && !fatal && !ign) { text_decoder td; one_td(e, fatal, ign, td, st, in); }
}

static void run_label(Rd& r)
{
	std::u32string s = r.str<std::u32string>();
	encoding_name n = get_encoding_name(s);
	bool threw = false; std::u32string l;
	try { text_decoder td{ std::u32string_view(s) }; } catch (std::exception const&) { threw = true; }
	bool named = false; try { text_decoder td(n, false, false); } catch (std::exception const&) { named = true; }
	if (n != E(0)) l = get_encoding_label(n);
	J().str("op", "label").raw("in", cps(s)).i("name", static_cast<int>(n)).b("tdthrow", threw).b("named", named).raw("label", cps(l)).i("outname", static_cast<int>(get_output_encoding_name(n))).emit();
}

static void run_enc(Rd& r)
{
	int e = r.i(); std::u32string s = r.str<std::u32string>();
	auto q = [&] { return to_io_queue_convert(s.begin(), s.end()); };
	J j; j.str("op", "enc").i("e", e).raw("in", cps(s));
	std::string f; long long err = -1;
	{ auto in = q(); io_queue<char> out; std::string t; auto rv = encode(in, E(e), out); bool z = drain(out, t); j.raw("html", bts(t)).b("htmlfin", z && std::holds_alternative<result_finished>(rv)); }
	{ auto in = q(); io_queue<char> out; coder c = get_encoder(E(e)); auto rv = process_queue(c, in, out, error_mode_name::Fatal); drain(out, f); if (auto* p = std::get_if<result_error>(&rv)) err = p->code_point; j.raw("fat", bts(f)).i("err", err); }
	{
		auto in = q(); coder c = get_encoder(E(e)); std::vector<std::string> calls;
		for (std::size_t k = 0; k <= s.size() + 1; ++k)
		{
			io_queue<char> out; auto rv = encode_or_fail(in, c, out); std::string t; long long x = -1; drain(out, t);
			if (auto* p = std::get_if<result_error>(&rv)) x = p->code_point;
			calls.push_back("[" + bts(t) + "," + std::to_string(x) + "]");
			if (x == -1) break;
		}
		j.raw("calls", arrj(calls));
	}
	{ std::u32string t; if (err == -1) { auto in = bytes(f); io_queue<char32_t> out; coder c = get_encoding_decoder(E(e)); process_queue(c, in, out, error_mode_name::Replacement); drain(out, t); } j.raw("rt", cps(t)); }
	{ std::string t; if (e == 1) { auto in = q(); io_queue<char> out; utf8_encode(in, out); drain(out, t); } j.raw("u8", bts(t)); }
	j.emit();
}

static void run_cast(Rd& r)
{
	std::u32string s = r.str<std::u32string>();
	auto a = encoding_cast<std::string>(s); auto b = encoding_cast<std::u8string>(s); auto c = encoding_cast<std::u16string>(s); auto d = encoding_cast<std::u32string>(s);
	J().str("op", "cast").raw("in", cps(s)).raw("s", units(a)).raw("u8", units(b)).raw("u16", units(c)).raw("u32", units(d))
		.raw("r1", units(encoding_cast<std::u32string>(a))).raw("r2", units(encoding_cast<std::u32string>(b))).raw("r3", units(encoding_cast<std::u32string>(c)))
		.raw("x1", units(encoding_cast<std::u16string>(a))).raw("x2", units(encoding_cast<std::string>(c))).emit();
}

static void run_ioq(Rd& r)
{
	io_queue<char> q; std::vector<std::string> ops; long long n = r.i();
	auto list = [](std::vector<io_item<char>> const& v) { std::string s = "["; for (auto& i : v) { if (s.size() > 1) s += ','; s += i.m_eoq ? "-1" : std::to_string(static_cast<unsigned char>(i.m_value)); } return s + "]"; };
	for (long long i = 0; i < n; ++i)
	{
		int k = r.i(), x = r.i(); J j; bool wait = false; std::vector<io_item<char>> res; std::string p;
		if (k == 1) { if (x == -1) q.push(io_item<char>{ 0, true }); else q.push(static_cast<char>(x)); }
		else if (k == 2) { auto a = q.read(); wait = a.m_wait; if (!wait) res.push_back(*a); }
		else if (k == 3) { auto a = q.read(static_cast<std::uint32_t>(x)); wait = a.m_wait; if (!wait) res = *a; }
		else if (k == 4) { auto a = q.peek(static_cast<std::uint32_t>(x)); wait = a.m_wait; if (!wait) res = *a; }
		else if (k == 6) { std::string s; from_io_queue_convert(q, std::back_inserter(s)); for (char c : s) res.push_back({ c, false }); }
		else { p = r.str<std::string>(); if (p.size() == 1) q.prepend(p[0]); else q.prepend(p.begin(), p.end()); }
		ops.push_back(J().i("k", k).i("x", x).b("wait", wait).raw("r", list(res)).raw("s", bts(p)).obj());
	}
	J().str("op", "ioq").raw("ops", arrj(ops)).emit();
}

int main()
{
	return harness_main([](Rd& r) {
		switch (r.i()) { case 1: run_dec(r); break; case 2: run_hook(r); break; case 3: run_td(r); break; case 4: run_label(r); break; case 5: run_enc(r); break; case 6: run_cast(r); break; default: run_ioq(r); }
	});
}
