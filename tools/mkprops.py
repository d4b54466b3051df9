import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
PR="src/hml_reader/parser.rs"; BU="src/hml_reader/builder.rs"; LX="src/hml_reader/lexer_parsers.rs"; TK="src/hml_reader/token.rs"; UT="src/hml_reader/utils.rs"
ER="src/error.rs"; ES="src/escape.rs"; EV="src/markup/event.rs"; NS="src/names/namespace.rs"; NK="src/names/namespace_stack.rs"; NM="src/names/name.rs"; AT="src/names/attribute.rs"; TG="src/names/tag.rs"; ID="src/names/ids.rs"; BIN="src/bin/hmlconvert.rs"
p("C01","Reader event stream is a well-bracketed document",
"As long as no call has returned an error, the events a fresh reader returns form one document: StartDocument first and only once, carrying the version the reader was configured with; then element, content and comment events in which every EndElement closes the most recent open StartElement and carries exactly the same name; then EndDocument exactly once, only after the tokens are exhausted and every element has been closed. Every call after EndDocument returns the 'beyond end of tokens' error.",
["inputs","histories"],"every token sequence (hence every document), every number of next_event calls",
"The tests drive some twenty fixed documents to their EndDocument event; none continues past it and none nests more than a few levels.",
[PR,BU],[("next_event dispatch and the tag stack",PR),("StackElement start/end element construction",BU)],
[("tag_stack","elements opened and not yet ended",PR),("start_emitted/end_emitted/finished/pending_eof","document phase",PR)],["hml_reader::Parser::next_event return value"])
p("C02","One namespace scope per open element",
"Opening an element adds exactly one scope to the namespace stack before any attribute or name of that element is resolved, and delivering its EndElement removes exactly one, so a mapping declared by an element's attributes is visible to that element and its content and nowhere else. When EndDocument is delivered the namespace stack is exactly as deep as when reading began, and the reader never removes a scope it did not add.",
["inputs","histories"],"every token sequence, every prefix of next_event calls",
"test_ns* check two documents whose elements are all closed; no test looks at the depth of the namespace stack.",
[BU,PR,NK],[("push_frame in StackElement::new / pop_frame in as_end_element",BU)],[("frames","namespace scopes",NK)],["NamespaceStack lookups between events"])
p("C03","The number of hashes decides element nesting",
"Let d be the depth in force: zero at the start of a document and directly inside a boxed element, otherwise the hash count of the innermost open element. A tag with at most d hashes first ends the innermost open element and is then considered again; a tag with d+1 hashes is opened as its child; a tag with more is refused with the indent error naming d+1 and opens or closes nothing. Ending an element restores the depth that was in force when it was opened.",
["inputs","histories"],"every sequence of open tags of any hash count, boxed or not, at any nesting",
"The structure tests use at most three levels and never a refused indent.",
[PR,BU],[("handle_open_tag",PR),("parent depth kept per open element",BU)],[("tag_depth","depth in force",PR)],["hml_reader::Parser::next_event return value"])
p("C04","A close tag ends exactly the box it names",
"A close tag ends, innermost first, every open unboxed element inside the innermost open box, and then that box, provided its prefix, name and number of hashes equal those of the box's opening tag. If they differ, or if no box is open, the reader reports an error at the close tag instead of ending another element.",
["inputs","histories"],"every token sequence with close tags, at every nesting of boxed and unboxed elements",
"No test has a close tag that does not match, and none has one with no box open.",
[PR,BU],[("handle_close_tag",PR)],[("tag_stack","open elements",PR)],["hml_reader::Parser::next_event return value"])
p("C05","Reading never panics",
"No text makes the HML lexing functions panic or index outside the text, and no sequence of tokens or lexing errors makes the reader panic, including when the caller carries on after an error.",
["inputs","histories"],"every text, every token sequence, every continuation after an error",
"Tests feed well-formed documents and a handful of lexing failures; panics live in the inputs nobody wrote down.",
[LX,PR,BU,TK],[("guards in front of every unwrap, index and arithmetic operation",PR),("positions derived only by consuming the character found there",LX)],[],["hml_reader::Parser::next_event","hml_reader::parse_fns"])
p("C06","Tokens tile the text",
"Every token the lexing functions produce consumes at least one character, its span starts where the token was attempted and ends exactly where lexing will resume, and every position used lies on a character boundary reached by consuming the characters that are actually there. Consecutive tokens therefore cover the text without gap or overlap.",
["inputs"],"every text and every position a token can be attempted at",
"Tests compare a few token kinds and contents; spans and resume positions are not checked.",
[LX],[("each parse function returns (end position, token with span)",LX)],[],["hml_reader::parse_fns"])
p("C07","Token grammar",
"At any position the token recognised, or the error reported, is the one the HML grammar prescribes: maximal white space; a comment block of consecutive ';' lines; a quoted string optionally raw and optionally hash-delimited, ended by the first matching quote followed by as many hashes, and containing no newline when it has no hashes; hashes followed by an optionally prefixed name with optional brace and then white space or the end of text; or an attribute name=value with a quoted or unquoted value. Anything else is an error of the kind prescribed for that prefix.",
["inputs"],"every text, every position",
"Tests have about thirty sample tokens for an infinite language.",
[LX,UT],[("parse_fns order and the individual parse functions",LX)],[],["hml_reader::parse_fns"])
p("C08","Token contents are the source text, verbatim",
"A tag or attribute token's prefix and name are exactly the source characters before and after the colon (prefix empty when there is none); a string's content is exactly the characters between its quotes; an attribute value is the text inside its quotes or the unquoted run; a comment's lines are the characters after each ';' up to but excluding the newline. The token's depth is the number of hashes in front of the tag, it is boxed exactly when '{' follows the name, a closing tag exactly when '}' follows, and raw exactly when introduced by 'r'.",
["inputs"],"every text, every position",
"Tests compare contents for sample tokens only.",
[LX,TK],[("get_text over the recognised range",LX),("Token constructors",TK)],[],["events produced through hml_reader::Parser::next_event"])
p("C09","Events carry the token's data unchanged",
"A string token becomes one Content event with the same text and span, raw or interpretable as the token was; a comment token becomes one Comment event whose text is its lines joined by single newlines with one length per line; a tag token becomes one StartElement event with the tag's span, name and, in source order, exactly the attributes that follow the tag, each with its own name and value. White space produces no event, and an attribute that does not directly follow a tag or another of its attributes is an error.",
["inputs","histories"],"every token sequence; any number of attributes, comment lines and contents",
"Tests use up to three attributes, no multi-line comment event and never a misplaced attribute.",
[PR,BU,AT],[("handle_token",PR),("add_attribute / as_start_element",BU)],[],["hml_reader::Parser::next_event return value"])
p("C10","Content occurs only inside an element",
"A Content event is delivered only while at least one element is open, that is after its StartElement and before its EndElement; a string token elsewhere is an error.",
["inputs","histories"],"every token sequence",
"Every test document puts its content inside an element.",
[PR],[("handle_token for character tokens",PR)],[],["hml_reader::Parser::next_event return value"])
p("C11","Name characters are those of XML names",
"A name starts with a character that XML 1.0 (fifth edition) allows to start a name, colon excluded, and continues with exactly the characters XML allows inside a name, colon excluded; every other Unicode character ends or prevents the name.",
["inputs"],"every Unicode scalar value, at the first and at later places of a name",
"There are over a million characters and the tests use ASCII letters.",
[UT],[("is_name_start / is_name range tests",UT)],[],["tag and attribute tokens of hml_reader::parse_fns"])
p("C12","Interning is a stable bijection",
"For names, prefixes and URIs alike: adding the same string twice yields the same identifier, different strings have different identifiers, an identifier always gives back the string it was created for no matter what is added later, and the empty string corresponds to the 'none' identifier, which gives back the default. Looking a string up finds an identifier exactly when the string is empty or has been added.",
["inputs","histories"],"every sequence of additions and lookups of any strings",
"One test adds three prefixes; it never mixes many additions with lookups.",
[NS,ID],[("find_* / find_or_add_* and *_str over append-only vectors",NS)],[("names/prefixes/uris","interned strings in order of addition",NS)],["names::Namespace and names::NamespaceStack lookups"])
p("C13","Innermost namespace declaration wins",
"Looking up a prefix yields the URI most recently declared for it in the innermost scope that declares it, or nothing when no open scope does. Adding a mapping changes only the innermost scope, adding it 'if unset' does so only when that scope has none for the prefix and reports whether it did, and pushing then removing a scope restores all earlier lookups.",
["histories"],"every history of push, pop, add and add-if-unset",
"One test has two scopes and two shadowed prefixes.",
[NK],[("find_mapping walks frames from the top",NK)],[("frames","scopes, innermost last",NK)],["names::NamespaceStack::find_mapping"])
p("C14","Listing mappings yields each visible prefix once",
"Iterating over a namespace stack yields, for every prefix visible in it, exactly one mapping, the one lookup would find; iterating over the innermost scope yields each mapping declared in that scope exactly once and nothing else.",
["histories"],"every namespace stack reachable by push, pop and add",
"The test counts mappings only where no prefix is shadowed.",
[NK],[("NamespaceStackIterator / NamespaceStackFrameIter",NK)],[("used","prefixes already yielded",NK)],["names::NamespaceStack iteration"])
p("C15","Names resolve to the prefix's current namespace",
"Building a name from a prefix and a local part succeeds exactly when the local part is not empty and the prefix has a mapping in scope, and the name then holds that prefix, that mapping's URI and that local part; failure is reported as empty name or as unmapped prefix naming the prefix. From one string, 'a' is a local name without namespace, 'a:b' is prefix and local part, and two or more colons are a bad name; printing a resolved name gives its prefix, a colon and its local part, or the local part alone when the prefix is empty.",
["inputs","histories"],"every string and every namespace state",
"Tests resolve a dozen fixed names.",
[NM,TG],[("Name::new / new_local / from_str / to_string",NM)],[],["names::Name"])
p("C16","xmlns attributes declare namespaces",
"When the namespace handles xmlns, an attribute xmlns=U maps the empty prefix to U and xmlns:p=U maps p to U in the innermost scope, before that attribute's own name and anything after it is resolved, and the attribute itself is kept with its value; no other attribute changes any mapping. When the namespace does not handle xmlns, attributes never change mappings.",
["inputs","configurations"],"every attribute prefix, name and value; both namespace configurations",
"Two tests declare one namespace each with xmlns handling on; none checks that other attributes leave mappings alone.",
[AT,NK,BU],[("Attribute::new",AT)],[],["names::Attributes::add, names::NamespaceStack::find_mapping"])
p("C17","XML escaping is exact",
"Escaping a string replaces every '&' and '<' and, when enabled by the character set, every apostrophe, quote, '>', line feed and carriage return by its XML reference, and leaves every other byte unchanged and in order. It returns nothing exactly when no byte needs replacement.",
["inputs","configurations"],"every string, every combination of enabled escapes",
"Eight sample strings with one character set.",
[ES],[("escape / escape_required",ES)],[],["escape::escape"])
p("C18","Entity replacement is exact",
"Replacing entities turns every '&name;' whose name is in the map (when map use is enabled), and every '&#digits;' and '&#xhex;' that denotes a Unicode scalar value, into its replacement and copies all other text unchanged, including malformed references. It returns nothing exactly when nothing is replaced.",
["inputs","configurations"],"every string, every entity map",
"Ten sample strings, none with a stray ampersand, an empty reference or a malformed number.",
[ES],[("Entities::find_span / replace_entities",ES)],[],["escape::Entities::replace_entities"])
p("C19","Conversion to XML events preserves the document",
"Converting an event for an XML writer or reader yields the corresponding XML event: version 100 is XML 1.0 and any other 1.1; an element keeps its prefix and local name and all attributes in order with their values; content, comments and processing instructions keep their text. Only EndDocument has no writer event.",
["inputs"],"every event, any number of attributes",
"No test converts an event.",
[EV,NM],[("as_xml_writer / as_xml_reader / as_xml_name",EV)],[],["markup::Event::as_xml_writer","markup::Event::as_xml_reader"])
p("C20","Errors are reported, located and never swallowed",
"Every error the lexer or name resolution produces is returned by the very next_event call that met it, unchanged or wrapped together with the span of the tag or attribute concerned, and no event is produced in its place. Every error except 'beyond end of tokens' exposes the span it was created with.",
["inputs","histories"],"every token sequence with errors at any point; every error kind",
"No test looks at an error's kind or span.",
[PR,BU,ER],[("? propagation in next_event",PR),("map_markup_error and HmlError::span",ER)],[],["hml_reader::Parser::next_event","HmlError::span"])
p("C21","The library has no side effects",
"Apart from the values it is handed and returns, the library does nothing observable: no function reachable from its public API writes to standard output or error, touches files, the network, the environment or processes, or keeps mutable global state.",
["inputs","histories"],"every public function, every call path",
"Tests do not capture output, and absence of an effect on sampled inputs says nothing about other paths.",
["src/lib.rs",AT,PR,NS,ES],[("no I/O or global state anywhere in the library's call graph","src/lib.rs")],[],["process standard output, files"])
p("C22","Stack use does not depend on the document",
"No chain of calls in the library re-enters a function it is already in, so the call depth is bounded by a constant no matter how long, deep or repetitive a document or namespace stack is.",
["inputs","histories"],"every call path of every public function",
"Tests use documents a few levels deep; recursion overflows only for large ones.",
[PR,NK,LX],[("loops instead of recursion",NK)],[],["process stack"])
p("C23","Every loop makes progress",
"Each loop in the library consumes input, shrinks a stack or advances a bounded counter on every iteration, so lexing one token, producing one event, resolving a name, escaping a string and iterating over mappings all finish; a call for the next event never spins without either consuming a token or ending an element.",
["inputs","histories"],"every loop, every input, every parser state",
"A non-terminating input is only found if somebody happens to write it.",
[PR,LX,NK,NS,ES],[("loop variables strictly advancing",LX)],[],["termination of every public call"])
p("C24","Event accessors agree with the event",
"For every event, its reported type, span and the accessor for its kind return exactly what the event holds, accessors of other kinds return nothing, and the constructors build the event and content type they are named after.",
["inputs"],"every event of every kind with any field values",
"Tests use three accessors on the events they expect.",
[EV],[("get_type / borrow_span / as_* / is_* / content_*",EV)],[],["markup::Event"])
p("C25","Safe calls cannot create invalid UTF-8",
"No safe public function can produce a string that is not valid UTF-8 or read outside its input: every place that skips the UTF-8 check is given only whole characters copied from valid strings or freshly encoded ones.",
["inputs"],"every argument of every safe public function",
"Invalid UTF-8 is undefined behaviour, which a passing test cannot rule out.",
[ES,"src/hml/escape.rs"],[("from_utf8_unchecked call sites",ES)],[],["strings returned by escape::*"])
p("C26","Line and column advance with the text",
"Whatever the text, the position after a token is obtained by stepping over its characters one at a time so that each newline starts a new line and every other character is one column; no run of characters that may contain a newline is counted as columns.",
["inputs"],"every text, every token, every error position",
"No test looks at line or column numbers.",
[LX],[("consumed_char for runs that can contain newlines; do_while only for newline-free runs",LX)],[],["spans of tokens, events and errors with a line/column position"])
p("C27","The converter writes every event and reports every failure",
"The command line converter passes every event of the document, in order, to the XML writer, using the requested XML version and writing to the requested output file or else standard output. A parse error is reported on standard error and makes the exit status non-zero.",
["inputs","configurations"],"every input document, every combination of options",
"There is no test of the program.",
[BIN],[("main loop over next_event",BIN)],[],["hmlconvert output, standard error and exit status"])
p("C28","The xml feature only adds API",
"With the xml feature off, everything that remains of the library behaves exactly as with it on: the feature adds functions and changes none.",
["configurations"],"both feature configurations, every function present in both",
"Tests run with the default features only.",
["Cargo.toml",EV,NM],[("cfg(feature) only on whole impl blocks",EV)],[],["all public functions"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
