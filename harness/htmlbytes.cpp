// HTML documents given as bytes: the tree made of them, with an encoding and the confidence in it; the encoding a meta element declares.
#include "common.hpp"
#include <wordring/html/simple_html.hpp>
#include <wordring/whatwg/html/url.hpp>
#include <list>
#include "htmldump.hpp"

template <typename Tree> static void report(Tree& t, std::string const& in, int e, int conf)
{
	static char const* const C[] = { "tentative", "certain", "irrelevant" };
	int roots = 0; for (auto i = t.begin(); i != t.end(); ++i) ++roots;
	if (roots != 1 || !t.begin()->is_document()) { J j; j.str("op", "roots").i("n", roots); j.emit(); return; }
	std::vector<std::string> o; std::size_t dt = 0;
	dump(t.begin(), 0, o, nullptr, dt);
	std::vector<int> b; for (char c : in) b.push_back(static_cast<unsigned char>(c));
	J j; j.str("op", "bytes").raw("in", arr(b)).i("e", e).str("conf", C[conf]).str("q", modename(t.begin()->document_mode_name())).raw("r", arrj(o)); j.emit();
}
static encoding_confidence_name conf_of(int c) { return c == 0 ? encoding_confidence_name::tentative : c == 1 ? encoding_confidence_name::certain : encoding_confidence_name::irrelevant; }
template <typename Tree, typename C> static void make(std::string const& in, int e, int conf)
{
	C s(in.begin(), in.end());
	Tree t = conf == 0 && e == 1 ? make_document<Tree>(s.begin(), s.end()) : make_document<Tree>(s.begin(), s.end(), static_cast<wordring::encoding_name>(e), conf_of(conf));
	report(t, in, e, conf);
}
// a parser that has read other documents before
template <typename Tree> static void again(std::string const& in, int e, int conf, std::vector<std::string> const& before)
{
	basic_simple_parser<Tree, char const*> P(conf_of(conf), static_cast<wordring::encoding_name>(e));
	for (auto const& b : before) { P.parse(b.data(), b.data() + b.size()); if (b.size() % 2) P.get(); P.clear(conf_of(conf), static_cast<wordring::encoding_name>(e)); }
	P.parse(in.data(), in.data() + in.size());
	Tree t = P.get();
	report(t, in, e, conf);
}
// 1 kind encoding confidence bytes [bytes read before ...] | 2 text
static void run(Rd& rd)
{
	if (rd.i() == 2)
	{
		std::u32string s = rd.str<std::u32string>();
		int r = static_cast<int>(wordring::whatwg::html::extract_character_encoding_from_meta_element(s));
		J j; j.str("op", "extract").raw("in", arr(s)).i("r", r); j.emit();
		return;
	}
	long long kind = rd.i(); int e = rd.i(), conf = rd.i();
	std::string in = rd.str<std::string>();
	std::vector<std::string> before; while (rd.more()) before.push_back(rd.str<std::string>());
	switch (kind)
	{
	case 0: make<u32simple_tree, std::string>(in, e, conf); break;
	case 1: make<u8simple_tree, std::list<char>>(in, e, conf); break;
	case 2: make<u16simple_tree, std::vector<char>>(in, e, conf); break;
	case 3: again<u8simple_tree>(in, e, conf, before); break;
	}
}
int main() { return harness_main(run); }
