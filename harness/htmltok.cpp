// Tokeniser of HTML: the tokens emitted for a character sequence, from a chosen state, on a fresh or on a reused tokeniser.
#include "common.hpp"
#include <wordring/whatwg/html/parsing/token.hpp>
#include <wordring/whatwg/html/parsing/tokenization.hpp>
#include <wordring/html/simple_html.hpp>
#include <wordring/html/simple_parser.hpp>
#include <wordring/html/simple_node.hpp>
#include <wordring/html/simple_traits.hpp>
#include <wordring/tag_tree/tag_tree.hpp>

using namespace wordring::html;
using namespace wordring::whatwg::html::parsing;
using tree = wordring::tag_tree<simple_node<std::u32string>>;

struct Tok : tokenizer<Tok, node_traits<typename tree::iterator>>
{
	using base_type = tokenizer<Tok, node_traits<typename tree::iterator>>;
	struct stack_entry { start_tag_token m_token; tree::iterator m_it; };
	std::deque<stack_entry> m_stack;
	stack_entry const& adjusted_current_node() const { return m_stack.back(); }

	std::vector<std::string> out; std::u32string chars; std::vector<long long> errs; // parse errors, as reported
	void flush()
	{
		if (chars.empty()) return;
		J j; j.str("t", "c").raw("n", "[]").raw("d", arr(chars)).raw("a", "[]").b("sc", false).raw("p", "[]").raw("s", "[]").b("q", false);
		out.push_back(j.obj()); chars.clear();
	}
	void on_report_error(error_name e) { errs.push_back(static_cast<long long>(e)); }
	void put(std::string const& t, std::u32string const& name, std::u32string const& data, std::string const& attrs, bool sc, std::u32string const& p, std::u32string const& s, bool q)
	{
		flush();
		J j; j.str("t", t).raw("n", arr(name)).raw("d", arr(data)).raw("a", attrs).b("sc", sc).raw("p", arr(p)).raw("s", arr(s)).b("q", q);
		out.push_back(j.obj());
	}
	void on_emit_token(character_token const& t) { chars.push_back(t.m_data); }
	void on_emit_token(end_of_file_token const&) { put("f", {}, {}, "[]", false, {}, {}, false); }
	void on_emit_token(comment_token const& t) { put("m", {}, t.m_data, "[]", false, {}, {}, false); }
	void on_emit_token(DOCTYPE_token const& t) { put("d", t.m_name, {}, "[]", false, t.m_public_identifier, t.m_system_identifier, t.m_force_quirks_flag); }
	void on_emit_token(start_tag_token& t)
	{
		if (t.m_tag_name == U"br") t.m_acknowledged_self_closing_flag = true; // as the tree construction stage does for a void element
		std::vector<std::string> v;
		for (auto const& a : t) { if (a.m_omitted) continue; J j; j.raw("n", arr(a.m_name)).raw("v", arr(a.m_value)); v.push_back(j.obj()); }
		put("s", t.m_tag_name, {}, arrj(v), t.m_self_closing_flag, {}, {}, false);
	}
	void on_emit_token(end_tag_token const& t) { put("e", t.m_tag_name, {}, "[]", false, {}, {}, false); }
};

// the whole parser: how often it says that a trailing solidus means nothing
struct Whole : simple_parser_base<Whole, tree>
{
	long long n = 0;
	void on_report_error(error_name e) { if (e == error_name::non_void_html_element_start_tag_with_trailing_solidus) ++n; }
};

// start state, content of the stack (0 empty, 1 an HTML element, 2 an SVG element), number of runs before on the same tokeniser, name of the last start tag, texts
static void run(Rd& rd)
{
	static std::map<std::string, int> names;
	long long start = rd.i(), stack = rd.i(), before = rd.i();
	std::u32string last = rd.str<std::u32string>();
	if (start == 7)
	{
		std::u32string in = rd.str<std::u32string>();
		Whole p; for (char32_t c : in) p.push_code_point(c);
		p.push_eof();
		J j; j.str("op", "whole").raw("in", arr(in)).i("n", p.n); j.emit();
		return;
	}
	tree tr;
	auto doc = tr.insert(tr.end(), simple_document<std::u32string>());
	auto node = tr.insert(doc.end(), simple_element<std::u32string>(stack == 2 ? ns_name::SVG : ns_name::HTML, std::u32string(), stack == 2 ? tag_name::Svg : tag_name::P));
	Tok t;
	if (start == 6) // a text over and over: the tokens of the whole are those of the text, over and over
	{
		std::u32string in = rd.str<std::u32string>(); long long n = before;
		auto feed = [&](long long k) {
			t.clear(); t.out.clear(); t.chars.clear(); t.errs.clear(); t.m_stack.clear();
			if (stack) t.m_stack.push_back({ start_tag_token(), node });
			for (; k; --k) for (char32_t c : in) t.push_code_point(c);
			t.push_eof(); t.flush(); return t.out; };
		auto one = feed(1), all = feed(n);
		bool same = !one.empty() && all.size() == n * (one.size() - 1) + 1 && all.back() == one.back();
		for (std::size_t i = 0; same && i + 1 < all.size(); ++i) same = all[i] == one[i % (one.size() - 1)];
		J j; j.str("op", "rep").raw("in", arr(in)).i("stk", stack).raw("r", arrj(one)).b("same", same); j.emit();
		return;
	}
	for (; before >= 0; --before)
	{
		std::u32string in = rd.str<std::u32string>();
		t.clear(); t.out.clear(); t.chars.clear(); t.errs.clear(); t.m_stack.clear();
		if (stack) t.m_stack.push_back({ start_tag_token(), node });
		if (start == 1) t.m_state = Tok::RCDATA_state;
		if (start == 2) t.m_state = Tok::RAWTEXT_state;
		if (start == 3) t.m_state = Tok::script_data_state;
		if (start == 4) t.m_state = Tok::PLAINTEXT_state;
		if (start == 5) t.m_state = Tok::CDATA_section_state;
		t.m_last_start_tag_name = last;
		for (char32_t c : in) t.push_code_point(c);
		if (before > 0 && in.size() % 3 == 1) continue; // given up halfway
		t.push_eof();
		t.flush();
		char const* st[] = { "data", "rcdata", "rawtext", "script", "plaintext", "cdata" };
		J j; j.str("op", "run").raw("in", arr(in)).str("st", st[start]).raw("last", arr(last)).i("stk", stack).raw("r", arrj(t.out)).raw("e", arr(t.errs)); j.emit();
	}
}
int main() { return harness_main(run); }
