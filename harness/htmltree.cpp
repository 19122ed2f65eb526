// HTML parser: the tree made of a text, with the parser of the library in its three string types, fresh or used again, and through make_document.
#include "common.hpp"
#include <wordring/html/simple_html.hpp>
#include <wordring/whatwg/html/parsing/token.hpp>

#include "htmldump.hpp"
template <typename Tree> struct Parser : simple_parser_base<Parser<Tree>, Tree>
{
	using base = simple_parser_base<Parser<Tree>, Tree>; using typename base::node_pointer; using typename base::document_type_type;
	std::vector<Ids> ids;
	explicit Parser(bool script) { base::m_scripting_flag = script; }
	void again(bool script) { base::clear(encoding_confidence_name::irrelevant, static_cast<wordring::encoding_name>(0)); base::m_scripting_flag = script; ids.clear(); }
	node_pointer insert_document_type(node_pointer pos, document_type_type&& d) { ids.push_back({ u32(d.public_id()), u32(d.system_id()) }); return base::insert_document_type(pos, std::move(d)); }
	Tree& tree() { return base::m_c; }
};
template <typename Tree> static void doc(std::u32string const& in, bool script, std::vector<std::u32string> const& before)
{
	Parser<Tree> P(script);
	for (auto const& b : before)
	{
		for (char32_t c : b) P.push_code_point(c);
		if (b.size() % 3) P.push_eof();     // given up halfway, or parsed to the end
		P.again(script);
	}
	for (char32_t c : in) P.push_code_point(c);
	P.push_eof();
	std::vector<std::string> o; std::size_t dt = 0;
	dump(P.get_document(), 0, o, &P.ids, dt);
	J j; j.str("op", "doc").raw("in", arr(in)).b("sc", script).b("ids", true).str("q", modename(P.get_document()->document_mode_name())).raw("r", arrj(o)); j.emit();
}
template <typename Tree, typename S> static void make(std::u32string const& in)
{
	S s = wordring::encoding_cast<S>(in);
	Tree t = make_document<Tree>(s.begin(), s.end());
	std::vector<std::string> o; std::size_t dt = 0;
	int roots = 0; for (auto i = t.begin(); i != t.end(); ++i) ++roots;
	if (roots != 1 || !t.begin()->is_document()) { J j; j.str("op", "roots").i("n", roots); j.emit(); return; }
	dump(t.begin(), 0, o, nullptr, dt);
	J j; j.str("op", "doc").raw("in", arr(in)).b("sc", false).b("ids", false).str("q", modename(t.begin()->document_mode_name())).raw("r", arrj(o)); j.emit();
}
// kind: 0..2 parser with UTF-32, UTF-8, UTF-16 trees; 3..5 make_document; scripting; text; texts parsed before with the same parser
static void run(Rd& rd)
{
	long long kind = rd.i(); bool script = rd.i();
	std::u32string in = rd.str<std::u32string>();
	std::vector<std::u32string> before; while (rd.more()) before.push_back(rd.str<std::u32string>());
	switch (kind)
	{
	case 0: doc<u32simple_tree>(in, script, before); break;
	case 1: doc<u8simple_tree>(in, script, before); break;
	case 2: doc<u16simple_tree>(in, script, before); break;
	case 3: make<u32simple_tree, std::u32string>(in); break;
	case 4: make<u8simple_tree, std::u16string>(in); break;
	case 5: make<u16simple_tree, std::u8string>(in); break;
	}
}
int main() { return harness_main(run); }
