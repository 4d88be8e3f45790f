P = "crates/wolfram-parser/src/"
def prop(id, title, statement, over, qtext, why, files, mech, note):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[f if "/src/" in f or f.startswith("CodeParser") else P + f for f in files], mech=mech, note=note)
TOK = ["tokenize/tokenizer.rs", "tokenize/token.rs", "read/byte_decoder.rs", "read/character_decoder.rs"]
PAR = ["parse.rs", "parse/parselet.rs", "parse_cst.rs", "cst.rs"]
ABS = ["abstract_cst.rs", "agg.rs", "ast.rs"]
BOUND = "Bounded: holds for every value of the symbolic bytes and lexemes of the templates listed in the evidence (up to 4 free bytes or 2-4 free lexemes in fixed contexts, quick tier); "
TR = "trusts the executor's IR semantics and memory model (validated against the native build on sampled paths of every run), Z3, and the harness oracle."
B = BOUND + TR
IN = ["inputs"]
PROPS = [
prop("C01", "Tokenization is lossless",
 "Concatenating the text of the tokens returned for an input gives back that input byte for byte, in order, with no empty token, no gap, no overlap and no duplicate. The only text that may be missing is a run of line continuations at the very end of the input, and, when the last token is an unterminated string or comment, the lines after that token's text.",
 IN, "every input of valid encoding, every option", "Tests compare the tokens of a few dozen fixed strings; a byte dropped or duplicated for an untested combination of adjacent lexemes is invisible to them.",
 TOK, [("token text is the slice between start and current offset", P + "tokenize/tokenizer.rs Tokenizer::token"), ("reading never skips bytes outside a token", P + "read/character_decoder.rs")], B),
prop("C02", "The concrete syntax tree is lossless",
 "The leaves of a concrete syntax tree, read left to right, cover the input contiguously: each leaf's text is the slice of the input that starts where the previous one ended. If no group, string or comment is left open, the leaves cover the whole input except for a trailing run of line continuations.",
 IN, "every input of valid encoding, every option", "Tests compare a few fixed trees; trivia dropped or attached twice by one parselet in one context is not sampled.",
 PAR, [("trivia sequences are pushed or reset, never lost", P + "parse.rs"), ("operators collect every child", P + "parse_cst.rs")], B),
prop("C03", "Token positions follow the text",
 "The source span of every token is the position in the input of its first and one past its last character, counted from the text alone: lines end at LF, CR or CR LF, a tab advances to the next multiple of the tab width, and every other character (whatever its encoded length) advances one column. With the character-index convention the span is instead the 1-based index of the first character and one past the last.",
 ["inputs", "configurations"], "every input of valid encoding, both source conventions, several tab widths", "Tests check the spans of few tokens, mostly on one line of ASCII; tabs, CR/CRLF, multi-byte and escaped characters combine in ways they do not reach.",
 TOK + ["source.rs"], [("SourceManager advancement per character", P + "source.rs"), ("token spans", P + "tokenize/tokenizer.rs Tokenizer::get_token_span")], B),
prop("C04", "Node positions nest and match their leaves",
 "Every concrete syntax tree node's source span runs from the start of its first leaf to the end of its last leaf, and top-level nodes are in source order without overlap. Every abstract syntax tree node that has a source span has a well-ordered one that contains the spans of all its descendants.",
 IN, "every input of valid encoding, every option", "Tests pin the span of few nodes; each abstraction rule computes spans separately.",
 PAR + ABS, [("node span from first/last child", P + "cst.rs"), ("span passed through each abstraction", P + "abstract_cst.rs")], B),
prop("C05", "Parsing never panics",
 "Tokenizing and parsing to concrete and abstract syntax trees terminate normally (no panic, arithmetic overflow, out-of-bounds access or failed assertion) for every byte sequence, valid or not, whatever the options. Only the functions documented to require exactly one expression may panic, and only when there is not exactly one.",
 ["inputs", "configurations"], "every byte sequence, every option", "The crash tests replay a fixed list of past crashers.",
 TOK + PAR + ABS, [("error tokens and nodes for malformed input", P + "tokenize/tokenizer.rs, " + P + "parse.rs"), ("abstraction of malformed nodes", P + "abstract_cst.rs")], B),
prop("C06", "Characters are decoded as UTF-8 and bad encodings are reported",
 "Well-formed UTF-8 without byte order mark is accepted and yields exactly its Unicode characters, with CR LF read as one character. Input containing an ill-formed sequence, an encoded surrogate or a byte order mark is always flagged as unsafe, with a flag naming one of the problems present, by the string check, the tokenizer and the parser alike, and input without any is never flagged. The parser reports the first such sequence as a fatal issue at its position.",
 IN, "every byte sequence", "Tests check some twenty fixed sequences.",
 ["read/byte_decoder.rs", "read/byte_buffer.rs", "tokenize.rs", "lib.rs"], [("hand-written UTF-8 decoder", P + "read/byte_decoder.rs"), ("unsafe flag kept in the session", P + "tokenize/tokenizer.rs")], B),
prop("C08", "The parser sees the tokenizer's tokens",
 "The leaves of the concrete syntax tree (apart from empty implicit ones) are exactly the tokens tokenization returns for the same input: same text, same span, and same kind, except that the parser decides which newlines are internal, re-reads what follows an operator that takes a tag, slot name, line number or file name, and marks unexpected closers and unsupported tokens as errors.",
 IN, "every input of valid encoding without such re-reading operators", "Tests check tokenizer and parser on different, fixed inputs.",
 TOK + PAR, [("one tokenizer drives both", P + "parse.rs, " + P + "tokenize.rs")], B),
prop("C09", "Operators bind as the documented precedence table says",
 "For any two operators of the documented table (infix, binary, prefix, postfix, ASCII and named), an unparenthesised expression parses exactly as if parentheses had been written around the tighter-binding operator's operands; operators of equal precedence group to the right if the table says so and to the left otherwise, and a chain of one infix operator is a single flat node.",
 IN, "every pair of operators of the table and every operand letter", "Tests parse a handful of operator pairs out of some 80,000.",
 PAR + ["precedence.rs", "generated/precedence_values.rs", "parse/token_parselets.rs"], [("precedence climbing", P + "parse.rs parse_climb"), ("per-operator precedence and parselet tables", P + "generated")], B),
prop("C10", "Brackets match as written",
 "When the brackets of an input nest properly, the tree has exactly one group or call per bracket pair, delimited by that pair, and no missing or unexpected closer. When they do not, the tree contains an error, and the recovery is fixed: a closer ends the innermost open bracket of its own kind and leaves the brackets opened inside it without a closer, a closer with no open bracket of its kind is an unexpected closer, and a bracket that is never closed extends to the end of the input.",
 IN, "every input over all bracket kinds, including long-name brackets", "Tests sample a few nestings.",
 ["parse/parselet.rs", "parse.rs", "cst.rs"], [("group parselets and closer stack", P + "parse/parselet.rs"), ("missing closers", P + "parse.rs")], B),
prop("C11", "Trivia carries no meaning",
 "Replacing blanks or comments between tokens by other blanks or comments (and, inside brackets or at the ends of the input, by newlines), or leaving out blanks around an operator between letters, does not change the abstract syntax tree; malformed inputs stay malformed.",
 IN, "every token sequence and every choice of separators", "Tests use single blanks almost everywhere.",
 PAR + ABS, [("trivia is skipped before every token that starts an operand or operator", P + "parse.rs"), ("trivia is removed before abstraction", P + "abstract_cst.rs aggregate_cst")], B),
prop("C12", "Results depend only on input and options",
 "Parsing or tokenizing an input gives the same tokens, trees, spans, issues and tracked locations whatever was parsed before it with whatever options in the same process.",
 ["histories", "inputs", "configurations"], "every pair of inputs and options parsed one after the other", "No test parses twice with different options and compares.",
 ["quirks.rs", "lib.rs", "parse.rs"], [("quirk settings are passed per session", P + "quirks.rs"), ("all state lives in the session", P + "parse.rs")], B),
prop("C16", "Issues are well formed and well placed",
 "Every reported issue, wherever it is attached, has a non-empty message, a confidence between 0 and 1, a well-ordered source span inside the input, and suggested edits whose spans lie inside the input (insertions at a point, with text); fatal issues have fatal severity and the others do not. Issues are not duplicated, and concrete and abstract parses report the same ones.",
 IN, "every input of valid encoding", "Tests compare the issues of a few inputs.",
 ["issue.rs", "tokenize/tokenizer.rs", "read/character_decoder.rs", "lib.rs"], [("issues collected in the session", P + "tokenize/tokenizer.rs addIssue"), ("spans computed at the call site", P + "read/character_decoder.rs")], B),
prop("C17", "Every form means its full form",
 "The abstract syntax tree of each operator form, bracket form, pattern, slot, output, span, message name and file form is the tree of its documented full form (x+y is Plus[x,y], x-y is Plus[x,Times[-1,y]], x::y is MessageName[x,\"y\"], x;;y is Span[x,y], x~f~y is f[x,y], x<y>z is Inequality[x,Less,y,Greater,z], ...), for all operands, and chains of one infix operator are one call.",
 IN, "every operator of the table and every listed form, every operand letter, many operand forms", "Tests abstract few forms with one operand each.",
 ABS + ["parse/parselet.rs", "parse/operators.rs"], [("one abstraction rule per form", P + "abstract_cst.rs"), ("operator to symbol", P + "parse/operators.rs")], B),
prop("C18", "All entry points agree",
 "For one input and one set of options, the byte and string entry points, the sequence and single-expression entry points, the token iterator, the first-token entry point and abstraction applied by hand to the concrete tree all give the same tokens, trees, spans, flags and tracked locations.",
 ["inputs", "configurations"], "every input, several options", "Tests use one entry point each.",
 ["lib.rs", "tokenize.rs", "iter.rs", "abstract_cst.rs"], [("entry points share a session type", P + "lib.rs")], B),
prop("C19", "A script's #! line is skipped and nothing else",
 "With script handling on, an input that starts with #! parses as the text after its first line with positions moved down one line, whatever characters that first line contains, and an input that is only a #! line parses as empty. An input that does not start with #! parses the same with and without script handling.",
 ["inputs", "configurations"], "every input, both script modes", "No test covers it beyond one example.",
 ["parse.rs", "tokenize/tokenizer.rs", "lib.rs"], [("first line behaviour", P + "tokenize/tokenizer.rs Tokenizer::new")], B),
prop("C20", "A top-level newline separates expressions",
 "If an input A parses without errors, then A followed by a newline (LF, CR or CR LF) and an input B parses, concretely and abstractly, as A's expressions, the newline, and B's expressions with positions moved down. The exceptions are a B that starts with an operator able to continue an infix expression or integral at the end of A, and a line continuation at the end of A.",
 IN, "every pair of inputs A, B", "Tests use single-line inputs almost everywhere.",
 ["parse.rs", "parse/parselet.rs", "parse/parselet/times_parselet.rs"], [("top-level newlines are not eaten as trivia by implicit multiplication, calls and postfix forms", P + "parse.rs")], B),
prop("C21", "Source convention, tab width and encoding mode do not change trees",
 "The source convention, the tab width and the encoding mode never change the shape, kinds or texts of concrete or abstract trees of an input in which nothing is left open; tab width and encoding mode never change them for any input.",
 ["configurations", "inputs"], "every input, pairs of options", "Tests use the default options almost everywhere.",
 ["source.rs", "tokenize/tokenizer.rs", "parse_cst.rs"], [("positions are carried alongside, never consulted", P + "source.rs")], B),
prop("C22", "Tree visitors reach every node once",
 "Visiting, visiting mutably and mapping a concrete syntax tree each call the function exactly once per node, parents before children and children in source order; without changes the tree is unchanged, and a change made to a node is kept.",
 IN, "every tree produced from an input", "One test visits one tree.",
 ["cst/visit.rs"], [("per-variant traversal", P + "cst/visit.rs")], B),
prop("C23", "Embedded newlines, tabs and line continuations are tracked exactly",
 "The reported locations of embedded newlines and tabs are exactly the starts of the strings and comments containing one outside a line continuation; those of complex line continuations are exactly the starts of strings containing one, and those of simple line continuations the starts of the other tokens (or end of input) whose text contains one.",
 IN, "every input of valid encoding in which nothing is left open", "Tests check two or three examples.",
 ["tokenize/tokenizer.rs"], [("recorded while reading a token", P + "tokenize/tokenizer.rs")], B),
]
PROPS += [
prop("C26", "Aggregation removes exactly the trivia",
 "Aggregating a concrete syntax tree removes its blanks, newlines and comments and nothing else: the aggregated tree has the same nodes, operators, tokens, texts and spans in the same order, and contains no trivia.",
 IN, "every tree produced from an input", "Tests aggregate few trees.",
 ["abstract_cst.rs", "agg.rs", "cst.rs"], [("per-variant aggregation", P + "abstract_cst.rs aggregate_cst")], B),
prop("C29", "Quirk settings change exactly what they document",
 "With the old @@@ quirk x@@@y means Apply[x,y,{1}], without it MapApply[x,y]; with the flatten-times quirk quotients and negations are flattened into one Times, without it they nest; with the infix-binary-at quirk x op Head@y means Head[x,y] for infix operators other than SameQ and UnsameQ, without it Head[x,Head[y]]. No quirk changes the abstract tree of an input without the forms it is about, and none changes a concrete tree.",
 ["inputs", "configurations"], "every infix operator, every input, every quirk", "Tests check one or two examples per quirk.",
 ["quirks.rs", "abstract_cst.rs"], [("quirk checks in abstraction", P + "abstract_cst.rs")], B),
]
PROPS += [
prop("C13", "Character escapes stand for the characters they name",
 "A named character \\[Name] stands for exactly the character the character table lists for that name, and the escapes \\.hh, \\:hhhh, \\|hhhhhh and \\ooo for the character of that number; all spellings of a character lex the same way. An escape that names no character (unknown digits, out of range, surrogate) is an error token that ends with the escape and never swallows what follows. Printing the characters read gives back the text, up to the case of hexadecimal digits.",
 IN, "every named character, every numeric escape of the templates", "Tests check a handful of the 1,100 named characters and a handful of numeric escapes.",
 ["read/character_decoder.rs", "read/wl_character.rs", "long_names.rs", "generated/long_names_registration.rs", "tokenize/tokenizer.rs"], [("long name and numeric escape decoding", P + "read/character_decoder.rs"), ("recovery from a bad escape", P + "tokenize/tokenizer.rs Tokenizer_handleUnhandledBackslash")], B),
prop("C14", "Numbers are lexed by the number grammar",
 "A number token is exactly the longest number of the documented grammar (digits, base^^digits with base 2 to 36 and digits below the base, fraction, ` and `` precision and accuracy with optional sign, *^ exponent): integers, reals and rationals are told apart as documented (an integer with a negative nonzero exponent is a rational), what follows the number is separate tokens, and malformed numbers (base out of range, digit too large, missing digits, fractional exponent) are number errors.",
 IN, "every sequence of number characters of the templates", "Tests lex some forty numbers out of a grammar with many optional parts.",
 ["tokenize/tokenizer.rs"], [("number state machine", P + "tokenize/tokenizer.rs Tokenizer_handleNumber")], B),
prop("C15", "Strings and comments end where they should",
 "A string runs from its quote to the next quote that is not escaped by a backslash, whatever characters (comment openers, newlines, character escapes that name a quote or backslash) are inside; comments nest, and run to the closer that balances the opener, whatever (quotes, backslashes) is inside; linear syntax runs from \\( to the \\) that balances it. What has no end is an unterminated string, comment or linear syntax.",
 IN, "every string, comment and linear syntax content of the templates", "Tests use short contents.",
 ["tokenize/tokenizer.rs", "read/character_decoder.rs"], [("string and comment scanning", P + "tokenize/tokenizer.rs Tokenizer_handleString, Tokenizer_handleComment")], B),
prop("C24", "Malformed input is visible in the trees, well-formed input is not",
 "If tokenization reports an error token, the concrete tree contains an error, and if the concrete tree contains one (other than an operand left out next to a comma, which means Null) so does the abstract tree. An operator of the documented table whose required operand is missing, at the end of the input or before a closer, comma or semicolon, gives a tree with an error; with its operands present it gives a tree without errors or fatal issues.",
 IN, "every operator of the table in every such position, every input", "Tests check few operators with missing operands.",
 ["parse.rs", "parse/parselet.rs", "abstract_cst.rs", "tokenize/token_kind.rs"], [("expected-operand error tokens", P + "parse/parselet.rs"), ("error nodes kept by abstraction", P + "abstract_cst.rs")], B),
prop("C25", "Symbols and operators are lexed by longest match",
 "A symbol token is the longest sequence of letters, digits, $ and context marks that forms a name, a run of %s is one token, CR LF is one newline, and an operator token is the longest operator of the documented list at that place (with / before .digit read as division by a number); linear-syntax operators such as \\! \\^ \\( are a backslash and one character, and a backslash that begins nothing known is an error token; the kind of each token is that of its text.",
 IN, "every ASCII sequence of the templates", "Tests lex single operators.",
 ["tokenize/tokenizer.rs"], [("one handler per first character", P + "tokenize/tokenizer.rs")], B),
prop("C27", "Printed trees show every node",
 "Printing tokens or a concrete tree as an expression shows each node as its head (LeafNode, ErrorNode, CallNode, InfixNode, ...), its operator or token kind, its children in order and its line and column span, and each leaf with its text.",
 IN, "every tree produced from an input, with the line and column convention", "No test covers printing beyond one example.",
 ["fmt_as_expr.rs", "bin/main.rs"], [("one printer per node kind", P + "fmt_as_expr.rs")], B),
prop("C28", "Tags, slots, outputs and file names take the documented text",
 "After :: comes the name (letters, digits and $, not starting with a digit) or string that starts directly there, and nothing else; # takes a directly following integer, name or string, ## and % a directly following integer, and otherwise nothing; after <<, >> and >>> and blanks comes a string or the longest file name of letters, digits, `/.\\!-_:$*~? and bracketed parts without blanks. A missing tag or file name is an error.",
 IN, "every text of the templates after each of these operators", "Tests use a few names.",
 ["tokenize/tokenizer.rs", "parse/parselet.rs"], [("stringify-as-tag and stringify-as-file lexing", P + "tokenize/tokenizer.rs"), ("slot and out parselets", P + "parse/parselet.rs")], B),
prop("C30", "Line continuations are invisible",
 "Inserting a line continuation (a backslash and a newline of any kind, and blanks after it) anywhere outside comments and escapes, also inside a token, does not change the sequence of token kinds.",
 IN, "every place in every input of the templates", "Tests insert line continuations in a few places.",
 ["tokenize/tokenizer.rs", "read/character_decoder.rs"], [("line continuations are skipped while reading characters of a token", P + "tokenize/tokenizer.rs Tokenizer_nextWLCharacter")], B),
prop("C31", "Spans behave as intervals",
 "Source positions are ordered by line, then column (or by character index). Two spans overlap exactly when they share a position, endpoints included, whichever of them is asked and whichever encloses the other; a span contains a position exactly when it lies between its start and end; the start, end and kind of a span are those it was made from.",
 ["inputs"], "every pair of spans, all 32-bit lines, columns and indices", "Tests check four pairs of spans.",
 ["source.rs", "utils.rs"], [("interval arithmetic", P + "source.rs LineColumnSpan::contains, overlaps; " + P + "utils.rs intersection")], "Complete for the stated domain: all 2^256 choices of two spans, no loop bound; " + TR),
prop("C32", "Expressions handed to the Wolfram kernel equal the trees",
 "The expressions that the LibraryLink functions of codeparser-wll put on the link (tokens, concrete tree, abstract tree, single leaf, safe string) have the heads, token kinds and operators, texts, children in order, sources and issues of the trees and tokens the parser produces for the same bytes and options. A concrete tree written as an expression and read back, also with box nodes and metadata (embedded newlines and tabs, line continuations, file name, confidence level), is the same tree and abstracts to the same expression. A string is handed over as safe exactly when its bytes have a valid encoding.",
 IN, "every input of the templates, every option the library functions take", "There is no test of the library without a kernel.",
 ["crates/codeparser-wll/src/lib.rs", "crates/codeparser-wll/src/convert_wstp.rs", "crates/codeparser-wll/src/from_expr.rs"], [("conversion of trees to expressions", "crates/codeparser-wll/src/convert_wstp.rs"), ("conversion of expressions to trees", "crates/codeparser-wll/src/from_expr.rs"), ("exported functions", "crates/codeparser-wll/src/lib.rs")], B + " The kernel's link is a stand-in that records what is put on it (wll/stub); functions that read files, aborting and the USE_EXPR_LIB variant are outside."),
prop("C33", "The CodeParser package functions agree with the native parser",
 "CodeParse, CodeConcreteParse, CodeTokenize and the box and file functions of the Wolfram Language package return what the native library returns for the same input and options.",
 IN, "every input", "The package's tests need a Wolfram kernel.",
 ["CodeParser/Kernel/CodeParser.wl"], [("package functions", "CodeParser/Kernel")], ""),
prop("C34", "Concrete nodes have the shape of their kind",
 "Every node of a concrete tree has the shape its kind promises: a prefix node is operator, operand; a postfix node operand, operator; a binary node operand, operator, operand; an infix node operands and operators in alternation; ternary, integral, compound and group nodes likewise, a group starting with its opener and ending with its matching closer; the operator tokens belong to the node's operator, an implicit times node has no operator but an implicit token, and an operand is an expression, or the error or implicit-Null token that stands for a missing one, never an operator, a stray closer or trivia.",
 IN, "every input of valid encoding", "Tests compare a few dozen fixed trees.",
 PAR + ["parse/token_parselets.rs", "parse/operators.rs"], [("one parselet per node shape", P + "parse/parselet.rs"), ("reduction of the context stack to nodes", P + "parse_cst.rs")], B),
prop("C35", "Issues are reported exactly where the text calls for them",
 "In text without escapes, control and non-ASCII characters the issues are exactly these, at their place and with their severity: ++=, --=, |>=, -->, _.., =!x, <-x, |-x, /.5, 1.., 1.2.3, a number followed by a dot in a slot, a sign in a precision, undocumented characters after #, a lone carriage return. A literal control or non-ASCII character is reported once, over that character: as unexpected (a remark in strings and comments, a warning elsewhere) or, unless the input comes from boxes, as non-ASCII; strange blanks and newlines are reported over their token. An unrecognized escape, in or outside a string, is a fatal issue over the escape (whose suggested edit removes it), and nothing else is fatal; unusual escapes in a string (\\b \\f \\< \\>) are remarks, and an unknown name after an escaped backslash is an error issue. In the abstract tree, prefix !!, message names of more than three parts and calls of what is no head (##, numbers, operator expressions), and nothing else, carry an issue. Applying a suggested insertion keeps the abstract tree and settles the issue.",
 IN, "every input of the templates", "Tests look at a handful of issues.",
 ["tokenize/tokenizer.rs", "read/byte_decoder.rs", "read/character_decoder.rs", "abstract_cst.rs", "abstract_cst/abstract_call_node.rs", "issue.rs"], [("issues raised while reading tokens", P + "tokenize/tokenizer.rs"), ("issues of escapes", P + "read/character_decoder.rs"), ("issues of the abstract tree", P + "abstract_cst/abstract_call_node.rs")], B),
prop("C36", "What is left open ends before the next statement",
 "A string, comment, linear syntax or bracket that is never closed does not swallow the rest of the input: it ends with the last non-empty line before the first later line that looks like a new statement, and at the end of the last non-empty line of the input when there is none. A line looks so when, at its first column, it starts with name = or name :=, with ] = or ] :=, with a call name[ and has = or := later on the line, with a call of a package directive (Begin[, Needs[, Clear[ and the like), or with an annotation comment (* : . Text and span of the error token agree with that (the span counted by characters includes that line's newline when there is one), and the leaves of the open bracket are exactly the tokens up to there.",
 IN, "every input of the templates: openers x preceding text x line ends x lines that start a statement or do not", "Tests look at a handful of unterminated inputs.",
 ["error.rs"], [("splitting into chunks at lines that look like new statements", P + "error.rs is_new_statement_line"), ("shortening the open construct", P + "error.rs first_chunk_and_last_good_line, reparse_unterminated_group_node")], B),
]
NA = [dict(property="C33", reason="The package is Wolfram Language code; there is no kernel, compiler or IR for it in the sandbox, so it cannot be encoded or replayed.")]
