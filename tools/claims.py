TECH.update({
 "C05": ("Forest.tla", "abstract ordered forest; exhaustive model, every short and thousands of random edit histories of the real tree validated against it"),
 "C06": ("Forest.tla", "pre-order, level-order and serial walks as functions of the abstract forest, validated on recorded walks from every node"),
 "C07": ("Forest.tla", "abstract ordered forest with element, text and comment nodes; edit histories of the real tag tree validated in all its views"),
 "C08": ("StaticVector.tla", "bounded sequence; every operation at every position and random histories of the real vector validated in every way of reading it"),
 "C09": ("Encoding.tla", "decoders and encoders as state machines transcribed from the Standard; exhaustive streaming model; recorded decodes/encodes of critical byte strings and code-space sweeps validated against it"),
 "C10": ("Encoding.tla", "every legacy decoder/encoder as a state machine over the Standard's indexes; recorded runs over all lead/trail pairs, range boundaries and encodable code points validated against it"),
 "C11": ("Encoding.tla", "streaming model checked over all schedules; recorded chunked feeds, TextDecoder histories and I/O queue histories of the code validated against it"),
 "C12": ("Encoding.tla", "label relation and byte-order-mark rule; recorded lookups of every label, its near misses and every mark prefix validated against it"),
})
TECH.update({
 "C20": ("Url.tla", "basic URL parser as a state machine, one step per code point, checked exhaustively on token strings; recorded parses of the code with and without base validated against it"),
 "C21": ("Url.tla", "reversibility of serialisation as an invariant of the model over parses and setter histories; recorded parses, reparses, histories and comparisons of the code validated against it"),
 "C22": ("UrlHost.tla", "host parser and serialiser (IPv4, IPv6, opaque, domain to ASCII with Punycode) as specified functions; recorded parses and serialisations of the code validated against them"),
 "C23": ("Percent.tla", "encode sets, percent-encoding after encoding and percent-decoding as specified functions; recorded memberships, encodings and decodings of the code validated against them"),
 "C24": ("Url.tla", "setters as transitions of the URL record; recorded histories of setters on the code validated against it, with all getters after each"),
})
TECH.update({
 "C16": ("CssTokenizer.tla", "preprocessing and tokenisation as specified functions, checked over all short texts; recorded tokenisations of the code (exhaustive short texts, pieces, numbers, charset bytes) validated against them"),
 "C17": ("CssParser.tla", "the parser's algorithms, checked against a stack machine over all short token strings; recorded results of all entry points from text, tokens and component values validated against them"),
})
TECH.update({
 "C18": ("Selectors.tla", "selector grammar as a specified function of component values, checked over all short sequences; recorded parses of the code validated against it"),
 "C19": ("SelectorMatch.tla", "matching of a parsed selector on an abstract tree; recorded queries from every node of generated documents validated against it"),
})
TECH.update({
 "C13": ("HtmlTokenizer.tla", "tokeniser as a state machine, one step per code point, checked exhaustively over all short texts of seven alphabets; recorded token streams of the code for every start state and feeding schedule validated against it"),
})
TECH.update({
 "C14": ("HtmlTree.tla", "tree construction as a state machine over tokens (all insertion modes), checked over all short token sequences of six families; recorded trees of the code (every tag in every mode, all short sequences, random documents, reused parsers, whole-text interface) validated against it"),
 "C15": ("HtmlSerialize.tla", "the serialisation algorithm beside the parser of HtmlTree.tla; model: every small tree of six families written and read again is the same tree; recorded serialisations of the code (trees built node by node and parsed, every string type, any node as root) and the trees the code reads back, validated against it by TLC"),
})
TECH.update({
 "C25": ("HtmlBytes.tla", "encoding and confidence as a machine over the tree construction of HtmlTree.tla and the decoders of Encoding.tla, checked over all short documents of declarations; recorded trees, encodings and confidences of the code for bytes in every encoding, stated or declared in every form, validated against it"),
 "C26": ("Infra.tla", "the operations as specified functions over code points, checked over all short texts; recorded results of the code in every string type (all short texts, random texts, all code points for the classes, matcher histories) validated against them"),
 "C27": ("Names.tla", "elements as names and attribute sequences, one step per call, checked over all short histories; recorded histories of the code over every known name in both forms and every string type validated against it"),
})
TECH.update({
 "C28": ("UrlVe.tla", "validation errors as a predicate on the steps of the parser of Url.tla, checked over all short token strings; recorded error codes of the code for near-valid texts, bases and hosts validated against it"),
})
TECH.update({
 "C29": ("HtmlErrors.tla", "parse errors as a function of the steps of the tokeniser of HtmlTokenizer.tla, checked over all short texts of seven families; the errors the code reports for the texts of C13 and the edges of every class of code points validated against it"),
})
TECH.update({
 "C30": ("HostWrite.tla", "validity of host texts and the domain conversions (UTS #46 over a table, Punycode both ways) as specified functions, checked against the host parsers and each other over all short token strings; what the code says of generated texts and domains validated against them"),
})
