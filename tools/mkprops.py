#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
I = "include/wordring/"

prop("C01", "A trie is an exact map from key strings to values",
 "After any sequence of insert, erase, assign, clear and value updates, a trie (plain or stable, with 1-, 2- or 4-byte labels) contains exactly the non-empty keys inserted and not erased since, each with the value last given to it; inserting a present key or erasing an absent one changes nothing. Size, membership, lookup and in-order enumeration (ascending by label, prefix before its extensions, each key once) always agree with that map.",
 ["histories", "inputs"], "Every finite history of mutating calls on one container, every key string over the label type.",
 "Tests run a few fixed insertion orders; the double-array relocation and null-transition collapse depend on the exact order of operations and on which slots earlier operations freed.",
 [I+"trie/trie_base.hpp", I+"trie/stable_trie_base.hpp", I+"trie/trie_heap.hpp", I+"trie/trie.hpp"],
 [("double-array allocate/free/relocate", I+"trie/trie_heap.hpp"), ("insert/erase with null transition", I+"trie/trie_base.hpp")],
 ["insert/erase/find/contains/at/size/begin..end of trie and stable_trie"],
 [("map", "abstract finite map key -> value", "spec/Trie.tla")])

prop("C02", "Trie navigation and prefix search reach exactly the stored prefixes",
 "For every stored key set and every probe string, walking the trie label by label succeeds exactly on the prefixes of stored keys, a position reports being a key exactly when its path is a stored key, and reports exactly the labels that continue some stored key. Incremental lookup consumes exactly the longest stored prefix of the probe and prefix search returns exactly the node of that prefix, or end if no stored key has it.",
 ["histories", "inputs"], "Every key set reachable by insertions and erasures, every probe string.",
 "Tests probe a handful of fixed strings on a handful of tries; navigation bugs need a probe that leaves the key set at a particular place in the double array.",
 [I+"trie/trie_base.hpp", I+"trie/stable_trie_base.hpp", I+"trie/trie.hpp", I+"trie/trie_iterator.hpp", I+"trie/list_trie_iterator.hpp", I+"string/matcher.hpp"],
 [("lookup/search/find", I+"trie/trie_base.hpp"), ("multi-byte label composition", I+"trie/trie_iterator.hpp")],
 ["iterator operator[], parent, begin/end, string(), lookup(), search(), list iterator"],
 [("keys", "set of stored keys", "spec/Trie.tla")])

prop("C03", "Serialised tries and atom sets restore to the same mapping",
 "Writing a trie or an atom set out (as integers of any supported width, as bytes, or to a stream) and reading it back gives a container with the same contents that behaves identically under all further operations. Reading from a stream consumes exactly what was written, so containers written one after another are read back one after another.",
 ["histories", "inputs"], "Every container reachable by any history, every serialisation form, every continuation after restoring.",
 "Tests round-trip one fixed container per form and compare a few members; they do not continue mutating the restored container and never stream two containers.",
 [I+"trie/trie_heap.hpp", I+"trie/trie_heap_iterator.hpp", I+"serialize/serialize_iterator.hpp", I+"string/atom.hpp"],
 [("ibegin/iend + assign", I+"trie/trie_heap.hpp"), ("operator<< / operator>>", I+"trie/trie_heap.hpp")],
 ["container contents after restore and after further operations"],
 [("map", "contents before and after the round trip", "spec/Trie.tla")])

prop("C04", "Atom identifiers and strings are in one-to-one correspondence",
 "In an atom set, every inserted string has one non-zero identifier, different strings have different identifiers, looking up an identifier returns exactly its string and looking up a string returns exactly its identifier. A member's identifier never changes while the string stays in the set, whatever else is inserted or erased, and unknown strings and unknown identifiers yield the empty atom.",
 ["histories", "inputs"], "Every history of insertions and erasures of any strings.",
 "Identifiers are positions in a relocating array: whether an insertion disturbs another member's identifier depends on collisions that only particular histories create.",
 [I+"string/atom.hpp", I+"trie/stable_trie_base.hpp", I+"trie/trie_heap.hpp"],
 [("stable null-transition index", I+"trie/stable_trie_base.hpp"), ("atom_set lookup", I+"string/atom.hpp")],
 ["atom_set insert/erase/at/find, atom id and string conversions"],
 [("ids", "string -> identifier observed so far", "spec/Atom.tla")])

prop("C05", "A tree container is always a well-formed ordered forest",
 "After any sequence of insert (front, back, before a sibling, subtree copy), erase, move, push, pop and clear, a tree holds exactly the nodes inserted and not erased, in exactly the parent/child/sibling order those calls describe, with every node's value intact. Erasing removes exactly the node's subtree, moving relocates exactly that subtree and refuses to move a node under itself, and size, emptiness and navigation agree with that forest.",
 ["histories"], "Every history of mutating calls at every position of every reachable forest.",
 "Tests perform single edits on one fixed small forest; link-maintenance bugs need an edit at a boundary (first, last, only child) of a shape produced by earlier edits and reuse of freed slots.",
 [I+"tree/tree.hpp"],
 [("link/unlink, sibling and parent indices, free list", I+"tree/tree.hpp")],
 ["parent/children/begin/end/rbegin navigation, values, size"],
 [("forest", "ordered forest of (node, value)", "spec/Forest.tla")])

prop("C06", "Traversal adapters visit every node of a subtree once, in order",
 "Pre-order and level-order iteration starting at any node of any forest visit every node of that node's subtree exactly once, parents before children and siblings in order (depth-first and breadth-first respectively), and then end. The serial view of a tag tree visits a start and an end position for each node, properly nested, and walks the same sequence backwards and forwards.",
 ["histories", "inputs"], "Every reachable forest shape and every start node.",
 "Tests iterate over one fixed tree; ordering and termination depend on shape (deep last children, single chains, leaf starts).",
 [I+"tree/tree_iterator.hpp", I+"tag_tree/serial_iterator.hpp", I+"tag_tree/tag_tree_iterator.hpp"],
 [("traversal containers and iterator", I+"tree/tree_iterator.hpp")],
 ["the visited sequence of values"],
 [("forest", "ordered forest", "spec/Forest.tla")])

prop("C07", "A tag tree keeps its element nesting under any edit history",
 "After any sequence of insertions (of elements, text and comments), moves, erasures, copies and swaps, a tag tree represents exactly the ordered forest those calls describe, with matched start and end tags for every node. Reading it as a tree, as a flat start/end tag sequence (forwards or backwards) and as the characters of its text nodes always gives the same structure.",
 ["histories"], "Every history of edits at every position of every reachable tag tree.",
 "Tests do single edits on small fixed documents; wrong link updates show only for particular adjacency of source and destination.",
 [I+"tag_tree/tag_tree.hpp", I+"tag_tree/tag_tree_iterator.hpp", I+"tag_tree/serial_iterator.hpp"],
 [("insert/move/erase on linked start/end tags", I+"tag_tree/tag_tree.hpp")],
 ["tree navigation and serial iteration of the tag tree"],
 [("forest", "ordered forest", "spec/TagTree.tla")])

prop("C08", "A static vector behaves as a bounded sequence",
 "After any sequence of construction, assignment, insertion, erasure, push, pop, resize and swap within its capacity, a static vector holds exactly the elements and order that a plain sequence would, and its size, emptiness, element access, iteration in both directions and lexicographic comparisons agree with it. Capacity never changes and no operation within capacity disturbs elements it does not name.",
 ["histories", "inputs"], "Every history of operations that stays within the capacity, every position and count.",
 "Tests apply each operation once to one fixed content; overlap and boundary positions (insert of a range at begin with exactly full capacity, erase of an empty range) are not reached.",
 [I+"static_vector/static_vector.hpp"],
 [("shift on insert/erase", I+"static_vector/static_vector.hpp")],
 ["contents via begin..end, operator[], size, comparisons"],
 [("seq", "the abstract sequence", "spec/StaticVector.tla")])

prop("C09", "Unicode text decodes and encodes exactly as the Encoding Standard says",
 "For every byte string, UTF-8, UTF-16LE and UTF-16BE decoding yields exactly the code points the Encoding Standard prescribes, with one replacement character per maximal ill-formed subsequence, and never fails or hangs. For every sequence of scalar values UTF-8 encoding yields the unique shortest form and decoding it gives the same sequence back; conversions among 8-, 16- and 32-bit strings agree with this.",
 ["inputs"], "Every byte string and every sequence of Unicode scalar values.",
 "Tests decode a few literals; ill-formed sequences (truncation, overlong, surrogates, restart bytes) form an unbounded space.",
 [I+"whatwg/encoding/coder.hpp", I+"whatwg/encoding/encoding.hpp", I+"whatwg/encoding/terminology.hpp", I+"whatwg/infra/unicode.hpp"],
 [("UTF-8 decoder state machine", I+"whatwg/encoding/coder.hpp"), ("shared UTF-16 decoder", I+"whatwg/encoding/coder.hpp")],
 ["decode / encode output and result"],
 [("dec", "decoder state (needed, seen, bounds, lead)", "spec/Encoding.tla")])

prop("C10", "Legacy encodings decode and encode as the Encoding Standard says",
 "For every legacy encoding (single-byte, GBK/gb18030, Big5, EUC-JP, ISO-2022-JP, Shift_JIS, EUC-KR, x-user-defined, replacement) and every byte string, decoding yields exactly the code points of that encoding's state machine and index, including where errors are reported and which bytes are re-read after an error. For every scalar value encoding yields exactly the bytes of that encoding, or the prescribed error (fatal) or numeric character reference (html mode), and decoding what was encoded without error gives the same text back, except for the few code points the Standard maps one way only (yen sign, overline, minus sign, half-width katakana in ISO-2022-JP).",
 ["inputs", "configurations"], "Every supported encoding, every byte string, every scalar-value sequence, every error mode.",
 "Tests decode one or two words per encoding; multi-byte error recovery and mode switching depend on byte sequences tests do not sample.",
 [I+"whatwg/encoding/coder.hpp", "lib/whatwg/encoding/indexes_pointer.cpp", "lib/whatwg/encoding/indexes_code_point.cpp", I+"whatwg/encoding/indexes.hpp"],
 [("per-encoding decoder/encoder classes", I+"whatwg/encoding/coder.hpp"), ("index tables", "lib/whatwg/encoding")],
 ["decode / encode output and result per encoding"],
 [("dec", "decoder state per encoding", "spec/Encoding.tla")])

prop("C11", "Streaming decode gives the same text for every chunking",
 "Feeding a byte string to a decoder in any split into chunks, suspending whenever input runs out and resuming when more arrives, produces exactly the same code points, errors and completion as feeding it whole. Running out of input never ends decoding, loses or duplicates bytes, and the end of the queue is reported exactly once at the end. This holds for process_queue on a persistent decoder and for TextDecoder's stream mode, and the I/O queue underneath reads, peeks, pushes and prepends as the Standard defines.",
 ["inputs", "schedules"], "Every byte string, every encoding, every way of splitting it into chunks and every suspension point.",
 "Tests always provide complete input; suspension inside a multi-byte sequence or escape sequence is never exercised.",
 [I+"whatwg/encoding/terminology.hpp", I+"whatwg/encoding/encoding.hpp", I+"whatwg/encoding/coder.hpp", I+"whatwg/encoding/api.hpp"],
 [("I/O queue wait state", I+"whatwg/encoding/terminology.hpp"), ("process_queue loop", I+"whatwg/encoding/encoding.hpp")],
 ["output queue after each feed"],
 [("queue", "input queue with end-of-queue marker", "spec/Encoding.tla")])

prop("C12", "Encoding labels and byte order marks select the prescribed encoding",
 "Every label the Encoding Standard lists, in any letter case and with surrounding ASCII whitespace, selects exactly its encoding and every other string selects none. A leading byte order mark selects and is stripped for UTF-8, UTF-16BE and UTF-16LE exactly, overriding the requested encoding, and any other input is left untouched.",
 ["inputs"], "Every label string; every input prefix and every requested encoding.",
 "Tests look up a few labels; the table has over 200 entries and near misses are unbounded.",
 ["lib/whatwg/encoding/encoding.cpp", I+"whatwg/encoding/encoding.hpp", I+"whatwg/encoding/encoding_defs.hpp"],
 [("label table", "lib/whatwg/encoding/encoding.cpp"), ("bom_sniff", I+"whatwg/encoding/encoding.hpp")],
 ["get_encoding_name, bom_sniff, decode"],
 [("labels", "label -> encoding relation", "spec/Encoding.tla")])

prop("C13", "HTML tokenisation follows the WHATWG state machine for every input",
 "For every character sequence, tokenising HTML terminates and emits exactly the doctype, start tag, end tag, comment and character tokens (names, attributes, self-closing and force-quirks flags, decoded character references, normalised newlines) that the HTML Standard's tokeniser emits. This holds for malformed, truncated and nested-looking input and for every content model (data, RCDATA, RAWTEXT, script data, plaintext, CDATA).",
 ["inputs"], "Every input character sequence and every initial tokeniser state.",
 "Tests feed one short string per state; the 80-state machine's transitions compose over unbounded input and end-of-file in every state.",
 [I+"whatwg/html/parsing/tokenization.hpp", I+"whatwg/html/parsing/input_stream.hpp", I+"whatwg/html/parsing/token.hpp", "lib/whatwg/html/parsing/atom_tbl.cpp"],
 [("on_*_state handlers", I+"whatwg/html/parsing/tokenization.hpp"), ("named reference matcher", I+"whatwg/html/parsing/tokenization.hpp")],
 ["emitted token sequence"],
 [("tok", "tokeniser state, buffers, current token", "spec/HtmlTokenizer.tla")])

prop("C14", "HTML tree construction follows the WHATWG insertion modes for every input",
 "For every character sequence, parsing HTML terminates and produces exactly the document tree the HTML Standard's tree construction produces: implied html/head/body, implied end tags, formatting-element reconstruction and the adoption agency, foster parenting around tables, ignored misnested tags and text coalescing. No input leaves a document without its html, head and body skeleton or makes an element its own ancestor.",
 ["inputs"], "Every input character sequence, in particular every misnesting of tags.",
 "Tests assert a few fixed documents; interactions of insertion modes with the stack of open elements and active formatting elements are combinatorial.",
 [I+"whatwg/html/parsing/tree_construction_dispatcher.hpp", I+"html/simple_parser.hpp"],
 [("on_*_insertion_mode handlers, stack of open elements, adoption agency", I+"whatwg/html/parsing/tree_construction_dispatcher.hpp")],
 ["document tree after parsing"],
 [("tc", "insertion mode, open elements, active formatting list, document", "spec/HtmlTree.tla")])

prop("C15", "HTML serialisation writes the document so that it parses back",
 "Serialising any document or fragment writes every node in document order with exactly the HTML Standard's syntax: attribute and text escaping, no end tag for void elements, raw text elements unescaped, comments and doctype in their own syntax. Parsing the serialisation of a parsed document, for documents without the standard's documented non-round-tripping constructs, gives the same tree again.",
 ["inputs"], "Every document tree, in particular every text, attribute value and nesting.",
 "Tests serialise a few fixed documents; escaping and nesting must be right for every tree.",
 [I+"whatwg/html/parsing/serializing.hpp", I+"html/simple_html.hpp", I+"html/simple_node.hpp"],
 [("html_serializer / serialize fragments", I+"whatwg/html/parsing/serializing.hpp")],
 ["serialised text; tree of its reparse"],
 [("out", "serialised text", "spec/HtmlSerialize.tla")])

prop("C16", "CSS tokenisation follows the CSS Syntax standard for every input",
 "For every character sequence, tokenising CSS terminates and yields exactly the token sequence (kinds, values, number values and types, units, hash flags, bad-string and bad-url tokens) that CSS Syntax Level 3 prescribes. Concatenated input never produces a token that consumes past the standard's token boundary.",
 ["inputs"], "Every input code point sequence.",
 "Tests check one or two samples per token kind; escapes, signs, comments and end of input interact without bound.",
 [I+"wwwc/css_syntax/tokenization.hpp", I+"wwwc/css_syntax/token.hpp", I+"wwwc/css_syntax/input_stream.hpp", "lib/wwwc/css_syntax/token.cpp"],
 [("consume a token and its sub-algorithms", I+"wwwc/css_syntax/tokenization.hpp")],
 ["token sequence"],
 [("pos", "input position and emitted tokens", "spec/CssTokenizer.tla")])

prop("C17", "CSS parsing builds the standard's rules, declarations and blocks",
 "For every token sequence, the CSS parser's entry points (style sheet, rule list, rule, declaration, declaration list, component value, component value lists) terminate and return exactly the structure or syntax error CSS Syntax Level 3 prescribes: balanced blocks and functions, at-rules and qualified rules, declarations with their importance flag. Unbalanced and truncated input is closed at end of input and never lost, duplicated or nested differently.",
 ["inputs"], "Every token sequence and every entry point.",
 "Tests parse a few fixed style sheets; recovery from malformed nesting is unbounded.",
 [I+"wwwc/css_syntax/parsing.hpp", I+"wwwc/css_syntax/token.hpp"],
 [("consume/parse algorithms", I+"wwwc/css_syntax/parsing.hpp")],
 ["returned syntax tree"],
 [("stack", "open blocks being consumed", "spec/CssParser.tla")])

prop("C18", "Selector strings parse exactly when they are valid selectors",
 "For every string, the selector parser accepts exactly the selector lists the supported Selectors Level 4 grammar generates and builds the compound, combinator and complex structure the grammar assigns to them. Every other string is rejected as invalid, without affecting later parses.",
 ["inputs"], "Every input string.",
 "Tests parse one sample per production; acceptance must be decided for every combination and every near miss.",
 [I+"wwwc/selectors/grammar.hpp", "lib/wwwc/selectors/grammar.cpp"],
 [("recursive-descent consume functions", "lib/wwwc/selectors/grammar.cpp")],
 ["acceptance and structure"],
 [("tokens", "remaining token stream", "spec/Selectors.tla")])

prop("C19", "Selector queries return exactly the matching elements in document order",
 "For every document and every supported selector list, querying for all matches returns exactly the elements that satisfy the selector's definition (type, universal, id, class, attribute operators, combinators, lists), each once, in document order. Querying for one returns the first of them, or nothing when there is none.",
 ["inputs"], "Every document tree and every supported selector.",
 "Tests query a few selectors on one document; combinator matching needs backtracking over every ancestor and sibling configuration.",
 [I+"wwwc/selectors/api.hpp", I+"wwwc/selectors/grammar.hpp", I+"css/selector.hpp", I+"whatwg/dom/infrastructure.hpp"],
 [("match functions per selector kind", I+"wwwc/selectors/grammar.hpp"), ("tree scan", I+"css/selector.hpp")],
 ["list of matched elements"],
 [("doc", "element tree with attributes", "spec/SelectorMatch.tla")])

prop("C20", "URL parsing follows the URL Standard for every input and base",
 "For every input string and every optional base URL, parsing terminates and either fails or yields exactly the scheme, username, password, host, port, path, query and fragment that the URL Standard's basic parser prescribes. A failed parse yields no URL and leaves nothing partially set.",
 ["inputs"], "Every input string and every base URL.",
 "Tests parse fixed examples; the parser's 20 states interact with the base URL, with special schemes and with truncated input.",
 ["lib/whatwg/url/url.cpp", I+"whatwg/url/url.hpp", I+"whatwg/url/api.hpp"],
 [("on_*_state handlers of the basic URL parser", "lib/whatwg/url/url.cpp")],
 ["component getters / failure"],
 [("url", "URL record, parser state, buffer, pointer", "spec/Url.tla")])

prop("C21", "A serialised URL parses back to the same URL",
 "For every URL obtained by parsing or by any sequence of modifications other than changing its scheme to file, serialising it and parsing the result (without a base) succeeds and gives a URL with the same components and the same serialisation. Two URLs compare equal exactly when their serialisations are equal.",
 ["inputs", "histories"], "Every URL record reachable by parsing and by any history of setter calls.",
 "Tests compare serialisations of fixed URLs; round-trip must hold for every reachable record including empty-host, opaque-path and dot-segment corner cases.",
 ["lib/whatwg/url/url.cpp", I+"whatwg/url/api.hpp", "lib/whatwg/url/host.cpp"],
 [("serialize_url", "lib/whatwg/url/url.cpp")],
 ["href before and after reparse"],
 [("url", "URL record", "spec/Url.tla")])

prop("C22", "Hosts parse to one address and serialise canonically",
 "Every host string parses to exactly the IPv4 address, IPv6 address, ASCII domain, opaque host or failure the URL Standard prescribes (mixed-radix and shortened IPv4 forms, IPv6 compression and embedded IPv4, forbidden code points, percent-decoding). Serialising a parsed host gives the standard's canonical form, which parses back to the same host; two hosts are equal exactly when they are of one kind and have one value.",
 ["inputs"], "Every host string, special and non-special.",
 "Tests use a few addresses; number radix, overflow and zero-run compression have boundary cases at every position.",
 ["lib/whatwg/url/host.cpp", I+"whatwg/url/host.hpp"],
 [("parse_ipv4 / parse_ipv6 / parse_opaque_host / serialize_*", "lib/whatwg/url/host.cpp")],
 ["parsed host type and value; serialisation"],
 [("host", "host value", "spec/UrlHost.tla")])

prop("C23", "Percent-encoding is exact for every byte and every encode set",
 "For every string, percent-encoding with each of the URL Standard's encode sets escapes exactly the bytes that set names, as two upper-case hexadecimal digits, and leaves all others unchanged. Percent-decoding replaces exactly the well-formed escapes, leaves malformed ones as they are, and undoes percent-encoding of any text whose percent signs are escaped.",
 ["inputs"], "Every byte, every code point, every encode set, every string.",
 "Tests spot-check a few characters; the sets partition all code points.",
 [I+"whatwg/url/infra.hpp"],
 [("is_*_percent_encode_set, percent_encode_after_encoding, percent_decode", I+"whatwg/url/infra.hpp")],
 ["encoded / decoded strings"],
 [("sets", "encode-set membership", "spec/Percent.tla")])

prop("C24", "URL setters change only their component and never corrupt the URL",
 "Assigning any string to a component of any URL has exactly the effect the URL Standard's API prescribes for that component (including being ignored, and scheme/port/host restrictions) and leaves the other components unchanged unless the standard says otherwise. A rejected assignment leaves the URL as it was.",
 ["inputs", "histories"], "Every URL, every component, every assigned string, every history of assignments.",
 "Tests assign one value to each component of one URL; state overrides interact with scheme kind, credentials, port and previous assignments.",
 [I+"whatwg/url/api.hpp", "lib/whatwg/url/url.cpp"],
 [("setters with state override", I+"whatwg/url/api.hpp")],
 ["all getters after each assignment"],
 [("url", "URL record", "spec/Url.tla")])

prop("C25", "HTML documents given as bytes are read in the encoding they declare",
 "Parsing a sequence of bytes gives the tree that decoding it by the right encoding and parsing the text gives: a byte order mark decides the encoding over anything else, then the encoding stated by the caller if it is certain, then the first usable declaration in a meta element (charset, or http-equiv with content), which re-reads the document from the start in that encoding; else the stated or the default encoding. Declarations of UTF-16 mean UTF-8, of x-user-defined windows-1252, unknown labels are ignored. Parsing always ends, for every sequence of bytes and every encoding the library knows by label.",
 ["inputs"], "Every sequence of bytes, every encoding stated with either confidence, every position and form of declaration in it.",
 "Tests read a few UTF-8 and Shift_JIS documents; what decides the encoding is the interplay of mark, stated encoding, its confidence, position and form of the declaration, and what the tree builder does with the element that carries it.",
 [I+"html/simple_parser.hpp", I+"whatwg/html/parsing/input_stream.hpp", I+"whatwg/html/parsing/tree_construction_dispatcher.hpp", I+"whatwg/encoding/encoding.hpp"],
 [("encoding sniffing and its confidence", I+"html/simple_parser.hpp"), ("change of encoding on a meta element", I+"whatwg/html/parsing/tree_construction_dispatcher.hpp"), ("decoding of the input stream", I+"whatwg/html/parsing/input_stream.hpp")],
 ["the tree after parsing"],
 [("encoding, confidence", "encoding in use and whether it may still change", "spec/HtmlBytes.tla")])

prop("C26", "String operations of the Infra Standard do as it says in every string type",
 "For every text, in UTF-8, UTF-16 and UTF-32 strings alike: ASCII case mapping and case-insensitive comparison, stripping and normalising newlines, stripping and collapsing ASCII whitespace, collecting, skipping, strict splitting, splitting on whitespace and on commas, isomorphic and ASCII coding give what the Infra Standard defines over code points, neither reading outside the text nor splitting a code point; the classes of code points are the defined sets. The string matcher fed one unit after the other says at each whether the units so far are a word, a beginning of one, or neither.",
 ["inputs"], "Every text, delimiter, set of words and string type; every code point for the classes.",
 "Tests try one ASCII text per operation; the difference shows at the ends of texts, at runs, at code points of more than one unit and at the borders of the classes.",
 [I+"whatwg/infra/infra.hpp", I+"whatwg/infra/unicode.hpp", I+"string/matcher.hpp"],
 [("operations over code points", I+"whatwg/infra/infra.hpp"), ("classes of code points", I+"whatwg/infra/unicode.hpp"), ("matcher over a trie", I+"string/matcher.hpp")],
 ["result and iterator each operation returns", "state of the matcher after each unit"],
 [("text", "sequence of code points", "spec/Infra.tla")])

prop("C27", "Names and attributes of elements are one identity as string and enumerator",
 "A namespace, tag or attribute name given as a string and the same name given as its enumerator are the same name: every getter shows the string and, exactly for the known names, the enumerator; comparison and search answer alike in whichever form the question is asked. An element shows what the calls on it so far made of it: attributes in order, the first of a name found, comparison of attributes by namespace, prefix and name, of elements by namespace, name and attributes with values in any order. A node shows the kind and the strings it was made with.",
 ["inputs", "histories"], "Every history of calls on an element, every known name and every other string, every string type.",
 "Tests try one or two names; the tables hold hundreds of names that must be inverse to each other, and the answers depend on the history of the element.",
 [I+"whatwg/html/html_atom.hpp", I+"html/simple_node.hpp", "lib/whatwg/html/parsing/atom_tbl.cpp"],
 [("names as string and enumerator", I+"whatwg/html/html_atom.hpp"), ("elements, attributes, nodes", I+"html/simple_node.hpp")],
 ["getters of element, attribute and node after each call", "answers of find, contains, ==, !="],
 [("element", "namespace, prefix, name, sequence of attributes", "spec/Names.tla")])

prop("C28", "The URL parser reports a validation error exactly when the Standard raises one",
 "Parsing a text as a URL, with or without a base, or as a host, sets the caller's error code exactly when it fails or when the URL Standard (2021) raises a validation error on the way: characters stripped or removed, missing or superfluous or reversed slashes, credentials, drive letters in the place of a host, code points that are no URL code points and stray '%' in opaque hosts, paths, queries and fragments, IPv4 numbers that are not plain decimals of one byte. It does not change what the parse gives.",
 ["inputs"], "Every text, every base, every kind of host.",
 "Tests never look at the error code of a parse that succeeds; an error can come from any step of the machine, and any other error in the text hides that one is missing.",
 ["lib/whatwg/url/url.cpp", "lib/whatwg/url/host.cpp", I+"whatwg/url/url.hpp", I+"whatwg/url/host.hpp"],
 [("validation errors of the basic URL parser", "lib/whatwg/url/url.cpp"), ("validation errors of the host parsers", "lib/whatwg/url/host.cpp")],
 ["error code after a parse", "success of the parse"],
 [("url", "URL parser state and whether an error was raised", "spec/UrlVe.tla")])

prop("C29", "The HTML tokeniser reports exactly the Standard's parse errors, in order",
 "For every text, pushed code point by code point into the tokeniser in any content model, the errors reported by name are exactly those that the HTML Standard names for the input stream (surrogates, noncharacters, controls) and for each tokeniser state (unexpected nulls, ends of file, malformed tags, attributes, comments, DOCTYPEs, CDATA and character references; repeated attributes; end tags with attributes or a solidus), each once and in the order of the text. A trailing solidus that the tree construction stage does not acknowledge is reported once by the whole parser, however many insertion modes handle the tag.",
 ["inputs"], "Every text, content model and piece of state that the tokeniser carries from one character to the next.",
 "The tests look at the last error of a few texts; an error can be missing, doubled or misnamed in any of seventy states.",
 [I+"whatwg/html/parsing/tokenization.hpp", I+"whatwg/html/parsing/input_stream.hpp", I+"whatwg/html/parsing/parser_defs.hpp", I+"whatwg/html/parsing/tree_construction_dispatcher.hpp"],
 [("errors of the tokeniser states", I+"whatwg/html/parsing/tokenization.hpp"), ("errors of the input stream", I+"whatwg/html/parsing/input_stream.hpp")],
 ["errors handed to on_report_error, in order"],
 [("tok", "state of the tokeniser and the errors of its steps", "spec/HtmlErrors.tla")])

prop("C30", "Valid host texts are told apart exactly, and domains convert to and fro",
 "Whether a text is a valid IPv4-address string (four shortest decimal numbers up to 255), IPv6-address string, domain string, opaque-host string (URL units without forbidden host code points, or an address in brackets) or host string is decided exactly as the URL Standard defines. Domain to ASCII and domain to Unicode report an error exactly for the domains that UTS #46 (CheckHyphens and Transitional_Processing false, CheckBidi and CheckJoiners true; strict: STD3 rules and DNS lengths) rejects, and otherwise give its result; the two forms of a domain convert to each other, and a valid text of each kind parses to a host of that kind.",
 ["inputs"], "Every text as a host of every kind; every domain over the covered code points, in Unicode and in ACE form.",
 "The tests try four IPv4 texts and one domain; every part has its own boundary, and the conversions depend on flags that only particular letters show.",
 ["lib/whatwg/url/host.cpp", I+"whatwg/url/host.hpp"],
 [("is_valid_*_string, domain_to_ascii, domain_to_unicode", "lib/whatwg/url/host.cpp")],
 ["the five validity tests", "converted domain and error code", "parsed host"],
 [("host", "text and what it is valid as", "spec/HostWrite.tla")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
