#include "common.hpp"
#include <wordring/whatwg/url/api.hpp>
#include <wordring/whatwg/url/url.hpp>
#include <wordring/whatwg/url/host.hpp>
#include <wordring/whatwg/url/infra.hpp>
using namespace wordring::whatwg;
using U32 = std::u32string;

static std::string jhost(host_base const& h)
{
	J j; std::vector<long long> v; 
	int t = static_cast<int>(h.type());
	std::string a = "[]";
	switch (h.type())
	{
	case host_type_name::Domain: a = arr(h.get<domain_base>().m_value); break;
	case host_type_name::OpaqueHost: a = arr(h.get<opaque_host_base>().m_value); break;
	case host_type_name::Ipv4Address: { std::uint32_t x = h.get<ipv4_address_base>().m_value; a = arr(std::vector<std::uint32_t>{ x >> 24, (x >> 16) & 255, (x >> 8) & 255, x & 255 }); break; }
	case host_type_name::Ipv6Address: a = arr(h.get<ipv6_address_base>().m_value); break;
	case host_type_name::EmptyHost: break;
	default: t = -1;
	}
	return j.i("t", t).raw("v", a).obj();
}
static std::string opt(std::optional<U32> const& s) { return s ? "[" + arr(*s) + "]" : "[]"; }
static std::string rec(url_record_base const& u)
{
	std::vector<std::string> p; for (auto const& s : u.m_path) p.push_back(arr(s));
	J j; j.raw("s", arr(u.m_scheme)).raw("u", arr(u.m_username)).raw("w", arr(u.m_password)).raw("h", u.m_host ? jhost(*u.m_host) : "{\"t\":0,\"v\":[]}")
		.raw("p", u.m_port ? "[" + std::to_string(*u.m_port) + "]" : "[]").raw("path", arrj(p)).raw("q", opt(u.m_query)).raw("f", opt(u.m_fragment)).b("c", u.m_cannot_be_base_url);
	return j.obj();
}
static std::optional<url_record_base> parse(U32 const& s, url_record_base const* base, encoding_name e)
{
	std::error_code ec; basic_url_parser p(s, ec, base, e); return p.run();
}
struct Url : basic_url<U32>
{
	using basic_url<U32>::basic_url;
	url_record_base& r() { return m_url; }
};
static std::string getters(Url& u)
{
	J j; j.raw("href", arr(u.href())).raw("protocol", arr(u.protocol())).raw("username", arr(u.username())).raw("password", arr(u.password())).raw("host", arr(u.host()))
		.raw("hostname", arr(u.hostname())).raw("port", arr(u.port())).raw("pathname", arr(u.pathname())).raw("search", arr(u.search())).raw("hash", arr(u.hash()))
		.raw("str", arr(to_string<U32>(u))).raw("strx", arr(to_string<U32>(u, true)));
	return j.obj();
}
// the same object in another string type: what it gives, as code points
template <typename S> struct Twin
{
	std::optional<basic_url<S>> u;
	static S c(U32 const& s) { return encoding_cast<S>(s); }
	static U32 d(S const& s) { return encoding_cast<U32>(s); }
	Twin(U32 const& s, U32 const* b) { try { if (b) u.emplace(c(s), c(*b)); else u.emplace(c(s)); } catch (std::error_code const&) {} }
	bool set(int k, U32 const& x)
	{
		S v = c(x);
		try
		{
			switch (k)
			{
			case 0: u->protocol(v); break; case 1: u->username(v); break; case 2: u->password(v); break; case 3: u->host(v); break;
			case 4: u->hostname(v); break; case 5: u->port(v); break; case 6: u->pathname(v); break; case 7: u->search(v); break;
			case 8: u->hash(v); break; default: u->href(v); break;
			}
			return false;
		}
		catch (std::error_code const&) { return true; }
	}
	bool same(Url& o) const { return u && d(u->href()) == o.href() && d(u->protocol()) == o.protocol() && d(u->username()) == o.username() && d(u->password()) == o.password() && d(u->host()) == o.host() && d(u->hostname()) == o.hostname()
		&& d(u->port()) == o.port() && d(u->pathname()) == o.pathname() && d(u->search()) == o.search() && d(u->hash()) == o.hash() && d(to_string<S>(*u)) == o.href() && d(to_string<S>(*u, true)) == to_string<U32>(o, true); }
};
static bool scalar(U32 const& s) { for (char32_t c : s) if (c > 0x10FFFF || (0xD800 <= c && c <= 0xDFFF)) return false; return true; }
static std::string reparse(U32 const& href) { auto r = parse(href, nullptr, encoding_name::UTF_8); return r ? "[" + rec(*r) + "]" : "[]"; }

static std::vector<std::function<bool(char32_t)>> sets{ is_c0_control_percent_encode_set, is_fragment_percent_encode_set, is_query_percent_encode_set,
	is_special_query_percent_encode_set, is_path_percent_encode_set, is_userinfo_percent_encode_set, is_component_percent_encode_set, application_x_www_form_urlencoded_percent_encode_set };

static void run(Rd& rd)
{
	switch (rd.i())
	{
	case 1: // parse: encoding, has base, [base], input
	{
		auto e = static_cast<encoding_name>(rd.i()); bool hb = rd.i() != 0; U32 b; if (hb) b = rd.str<U32>(); U32 s = rd.str<U32>();
		J j; j.str("op", "parse").i("e", (int)e).b("hb", hb).raw("base", arr(b)).raw("in", arr(s));
		std::optional<url_record_base> base; bool bok = true;
		if (hb) { base = parse(b, nullptr, encoding_name::UTF_8); bok = base.has_value(); }
		auto r = bok ? parse(s, base ? &*base : nullptr, e) : std::nullopt;
		j.b("ok", r.has_value());
		if (r)
		{
			j.raw("r", rec(*r)).raw("ser", arr(serialize_url(*r))).raw("serx", arr(serialize_url(*r, true))).raw("rt", reparse(serialize_url(*r)));
		}
		bool api = true; std::string g = "{}", ar = "{}";
		std::optional<Url> o; try { if (hb) o.emplace(s, b); else o.emplace(s); g = getters(*o); ar = rec(o->r()); } catch (std::error_code const&) { api = false; }
		bool ty = true;
		if (scalar(s) && scalar(b))
		{
			Twin<std::u8string> t8(s, hb ? &b : nullptr); Twin<std::u16string> t16(s, hb ? &b : nullptr); Twin<std::string> t1(s, hb ? &b : nullptr);
			ty = o ? t8.same(*o) && t16.same(*o) && t1.same(*o) : !t8.u && !t16.u && !t1.u;
			if (o) { Url copy(*o); Url moved(std::move(copy)); ty = ty && getters(moved) == g; }
		}
		j.b("ty", ty);
		j.b("api", api).raw("g", g).raw("ar", ar);
		if (e == encoding_name::UTF_8) { auto q = pase_url(s, base ? &*base : nullptr); j.b("pok", bok ? q.has_value() : false); } else j.b("pok", r.has_value());
		j.emit(); break;
	}
	case 2: // history: url, n, (setter, value)*
	{
		U32 s = rd.str<U32>(); long long n = rd.i();
		std::optional<Url> u;
		try { u.emplace(s); } catch (std::error_code const&) {}
		{ J j; j.str("op", "open").raw("in", arr(s)).b("ok", u.has_value()); if (u) j.raw("r", rec(u->r())).raw("g", getters(*u)); j.emit(); }
		if (!u) break;
		bool sc = scalar(s); Twin<std::u8string> t8(sc ? s : U"", nullptr); Twin<std::u16string> t16(sc ? s : U"", nullptr);
		for (long long k = 0; k < n; ++k)
		{
			int c = (int)rd.i(); U32 v = rd.str<U32>(); bool threw = false;
			try
			{
				switch (c)
				{
				case 0: u->protocol(v); break; case 1: u->username(v); break; case 2: u->password(v); break; case 3: u->host(v); break;
				case 4: u->hostname(v); break; case 5: u->port(v); break; case 6: u->pathname(v); break; case 7: u->search(v); break;
				case 8: u->hash(v); break; default: u->href(v); break;
				}
			}
			catch (std::error_code const&) { threw = true; }
			sc = sc && scalar(v); bool ty = true; if (sc) { bool a = t8.set(c, v), b = t16.set(c, v); ty = a == threw && b == threw && t8.same(*u) && t16.same(*u); }
			J j; j.b("ty", ty).str("op", "set").i("k", c).raw("v", arr(v)).b("threw", threw).raw("r", rec(u->r())).raw("g", getters(*u)).raw("rt", reparse(u->href())); j.emit();
		}
		break;
	}
	case 3: // host: notspecial, text
	{
		bool ns = rd.i() != 0; U32 s = rd.str<U32>(); std::error_code ec;
		host_base h = parse_host(s, ns, ec);
		J j; j.str("op", "host").b("ns", ns).raw("in", arr(s)).raw("h", jhost(h));
		bool ok = h.type() != static_cast<host_type_name>(0);
		j.b("err", !ok && !ec);
		if (ok) { U32 t = serialize_host(h); std::error_code e2; j.raw("ser", arr(t)); if (t.empty()) j.raw("rt", jhost(h)).b("eq", true); else { host_base h2 = parse_host(t, ns, e2); j.raw("rt", jhost(h2)).b("eq", h2.type() != static_cast<host_type_name>(0) && h == h2); } }
		j.emit(); break;
	}
	case 4: // address: 4 or 8 numbers
	{
		auto v = rd.str<std::vector<std::uint32_t>>(); host_base h;
		if (v.size() == 4) h = host_base(ipv4_address_base{ v[0] << 24 | v[1] << 16 | v[2] << 8 | v[3] });
		else { ipv6_address_base a{}; for (int i = 0; i < 8; ++i) a[i] = (std::uint16_t)v[i]; h = host_base(a); }
		U32 t = serialize_host(h); std::error_code ec; host_base h2 = parse_host(t, false, ec);
		J j; j.str("op", "addr").raw("v", arr(v)).raw("ser", arr(t)).raw("rt", jhost(h2)); j.emit(); break;
	}
	case 5: // percent encode: encoding, set, plus, text
	{
		auto e = static_cast<encoding_name>(rd.i()); int k = (int)rd.i(); bool plus = rd.i() != 0; U32 s = rd.str<U32>();
		J j; j.str("op", "penc").i("e", (int)e).i("k", k).b("plus", plus).raw("in", arr(s)).raw("out", arr(percent_encode_after_encoding(e, s, sets[k], plus)));
		j.raw("u8", arr(utf8_percent_encode(s, sets[k]))); U32 o; for (char32_t c : s) o += utf8_percent_encode(c, sets[k]); j.raw("u8c", arr(o));
		std::string d; string_percent_decode(o.begin(), o.end(), std::back_inserter(d)); j.raw("back", arr(d));
		j.emit(); break;
	}
	case 6: // membership of the code points [a, b)
	{
		long long a = rd.i(), b = rd.i(); std::vector<std::string> o;
		for (auto const& f : sets) { std::vector<unsigned> w; for (long long c = a; c < b; ++c) w.push_back(f((char32_t)c) ? 1u : 0u); o.push_back(arr(w)); }
		J j; j.str("op", "member").i("a", a).i("b", b).raw("m", arrj(o)); j.emit(); break;
	}
	case 7: // percent decode bytes / the text with these code points
	{
		auto s = rd.str<U32>(); std::string b, o1, o2; for (char32_t c : s) b.push_back((char)(unsigned char)c);
		percent_decode(b.begin(), b.end(), std::back_inserter(o1)); string_percent_decode(s.begin(), s.end(), std::back_inserter(o2));
		J j; j.str("op", "pdec").raw("in", arr(s)).raw("o1", arr(o1)).raw("o2", arr(o2)); j.emit(); break;
	}
	case 8: // equality
	{
		U32 a = rd.str<U32>(), b = rd.str<U32>(); auto x = parse(a, nullptr, encoding_name::UTF_8), y = parse(b, nullptr, encoding_name::UTF_8);
		J j; j.str("op", "eq").raw("a", arr(a)).raw("b", arr(b)).b("aok", x.has_value()).b("bok", y.has_value());
		if (x && y) j.b("eq", equals(*x, *y)).b("eqx", equals(*x, *y, true)).b("qe", equals(*y, *x)); else j.b("eq", false).b("eqx", false).b("qe", false);
		j.emit(); break;
	}
	case 9: // what is reported about a parse: encoding, has base, [base], input
	{
		auto e = static_cast<encoding_name>(rd.i()); bool hb = rd.i() != 0; U32 b; if (hb) b = rd.str<U32>(); U32 s = rd.str<U32>();
		std::optional<url_record_base> base; bool bok = true;
		if (hb) { base = parse(b, nullptr, encoding_name::UTF_8); bok = base.has_value(); }
		J j; j.str("op", "ve").i("e", (int)e).b("hb", hb).raw("base", arr(b)).raw("in", arr(s)).b("bok", bok);
		std::error_code ec; bool ok = false; if (bok) { basic_url_parser p(s, ec, base ? &*base : nullptr, e); ok = p.run().has_value(); }
		j.b("ok", ok).b("err", static_cast<bool>(ec)); j.emit(); break;
	}
	case 10: // what is reported about a host: notspecial, text
	{
		bool ns = rd.i() != 0; U32 s = rd.str<U32>(); std::error_code ec; host_base h = parse_host(s, ns, ec);
		J j; j.str("op", "hostve").b("ns", ns).raw("in", arr(s)).b("ok", h.type() != static_cast<host_type_name>(0)).b("err", static_cast<bool>(ec)); j.emit(); break;
	}
	case 12: // which valid strings a text is, and its domain conversions
	{
		U32 s = rd.str<U32>(); J j; j.str("op", "write").raw("in", arr(s)).b("v4", is_valid_ipv4_address_string(s)).b("v6", is_valid_ipv6_address_string(s)).b("opaque", is_valid_opaque_host_string(s))
			.b("domain", is_valid_domain_string(s)).b("host", is_valid_host_string(s));
		std::error_code e1, e2, e3, e4; U32 a = domain_to_ascii(s, e1), t = domain_to_ascii(s, true, e2), u = domain_to_unicode(s, e3);
		j.b("aok", !e1).raw("a", arr(a)).b("tok", !e2).raw("t", arr(t)).b("uok", !e3).raw("u", arr(u));
		std::error_code old = url_error_name::ValidationError; domain_to_unicode(s, old); j.b("kept", static_cast<bool>(old));   // an earlier report stays
		j.b("back", e1 || (domain_to_unicode(a, e4) == u && !e4));
		j.emit(); break;
	}
	case 13: // equality of two hosts: (notspecial, text) twice
	{
		bool n1 = rd.i() != 0; U32 a = rd.str<U32>(); bool n2 = rd.i() != 0; U32 b = rd.str<U32>(); std::error_code e1, e2;
		host_base x = n1 ? parse_host(a, n1, e1) : parse_host(a, e1), y = parse_host(b, n2, e2);
		bool ok = x.type() != static_cast<host_type_name>(0) && y.type() != static_cast<host_type_name>(0);
		J j; j.str("op", "hosteq").b("n1", n1).raw("a", arr(a)).b("n2", n2).raw("b", arr(b)).raw("x", jhost(x)).raw("y", jhost(y)).b("eq", ok && x == y).b("qe", ok && y == x); j.emit(); break;
	}
	case 11: // URL code points among [a, b)
	{
		long long a = rd.i(), b = rd.i(); std::vector<unsigned> w; for (long long c = a; c < b; ++c) w.push_back(is_url_code_point((char32_t)c) ? 1u : 0u);
		J j; j.str("op", "cps").i("a", a).i("b", b).raw("m", arr(w)); j.emit(); break;
	}
	}
}
int main() { return harness_main(run); }
