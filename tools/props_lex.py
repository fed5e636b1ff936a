LX = "crates/joker/src/lexer.rs"
CH = "crates/joker/src/char.rs"
RD = "crates/joker/src/reader.rs"
TK = "crates/joker/src/token.rs"
WD = "crates/joker/src/word.rs"
TR = "crates/joker/src/track.rs"
ER = "crates/joker/src/error.rs"
TECH = "exhaustive bounded enumeration of executions of the real lexer, each checked against a reference transition system"
NOTE = "Exhaustive within the bounds listed in the evidence file; trusts the reference tokenizer (mc/reflex) as the reading of the specification and the ucd crate's character tables."
ONE = "the one test lexes a fixed table of single-token sources in five fixed contexts"
PROPS = [
 dict(id="L01", title="The tokenizer is total: no input panics or hangs it, and end of input is final",
  statement="For every text and every choice of syntactic goal per token, reading tokens until the end terminates with a token or a reported error for each request and never panics, even when reading goes on after errors. Once the end of input has been reported, every later request reports it again. Every error can be rendered as a message.",
  over=["inputs"], q="all texts (every Unicode scalar value, every truncation of every lexeme) and all per-token goal choices",
  why=ONE+"; abrupt ends of input inside escapes, classes, comments and exponents are an unbounded family of which it samples a few",
  files=[LX,RD,CH], mech=[("character look-ahead and end-of-input cases of each sub-lexer",LX),("peek buffer",RD)], technique=TECH, note=NOTE),
 dict(id="L02", title="Tokens are the longest match of the lexical grammar, of the right kind",
  statement="Every text splits into exactly the token sequence of the ECMAScript lexical grammar: each token is the longest possible match at its place, has the kind the grammar gives it, and covers exactly its own characters. A slash begins a regular expression exactly when the caller asks for an operand and is a division operator exactly when it asks for an operator. A text is rejected only where the grammar has no token; arrows, exponentiation and templates are outside the supported grammar.",
  over=["inputs"], q="all texts over all punctuator characters up to a length, all sequences of two or three lexemes with every separator, every code point in context, all goal choices",
  why=ONE+", never a sequence of two tokens without a space or semicolon between them",
  files=[LX,TK,CH], mech=[("dispatch on two characters of look-ahead",LX+" read_next_token"),("multi-character operators",LX+" read_punc2_3")], technique=TECH, note=NOTE),
 dict(id="L03", title="Token positions are exact: offset, line and column of start and end",
  statement="Every token carries the character offset, zero-based line and zero-based column of its first character and of the character after its last, where a line ends at LF, CR, CR LF (once), U+2028 or U+2029, wherever these occur, including inside comments and strings. Positions never decrease from token to token. Columns and offsets count characters, not bytes.",
  over=["inputs"], q="all texts over line terminators, wide characters, comments and multi-line strings up to a length; long lines and long files",
  why="no test looks at positions at all; positions depend on everything that was read before the token",
  files=[RD,TR,LX], mech=[("line and column counting",RD+" Iterator::next"),("span start/end",LX+" SpanTracker")],
  state=[("current position","offset, line, column of the next unread character",RD)], technique=TECH, note=NOTE),
 dict(id="L04", title="The newline-before flag is set exactly when a line terminator precedes the token",
  statement="A token is marked as preceded by a newline if and only if a line terminator of any kind occurs between it and the previous token (or the start of the text), including inside block comments, after line comments, and before the end of input; line terminators inside tokens do not count.",
  over=["inputs"], q="all sequences of trivia elements and tokens up to a length, all separators between all pairs of lexemes",
  why="the test table ignores the flag; automatic semicolon insertion depends on it for every placement of comments and line breaks",
  files=[LX], mech=[("found_newline accumulation over white space and comments",LX+" read_next_token, skip_block_comment")], technique=TECH, note=NOTE),
 dict(id="L05", title="Numeric literals denote the nearest double and keep their source form",
  statement="Every numeric literal (decimal with optional fraction and exponent, hexadecimal, octal, binary, legacy octal, and decimals with a leading zero that contain an 8 or 9) yields the double nearest to its mathematical value, ties to even, including overflow to infinity and underflow. It also keeps its radix, prefix case, digits, sign and exponent spelling, from which the same value is obtained again. Text that is not exactly one literal (an identifier or digit right after it, a missing digit) is never accepted as one.",
  over=["inputs"], q="all strings over the numeric alphabet up to a length, all low-bit patterns around the 53-bit rounding boundary in every radix, all exponents in a range, literals of thousands of digits",
  why=ONE+" with a handful of small numbers; rounding errors appear only for particular bit patterns beyond 2^53",
  files=[LX,TK], mech=[("radix and decimal scanners",LX+" read_number, read_radix_int, read_exp_part"),("value of a numeric source",TK+" NumberSource::value")], technique=TECH, note=NOTE),
 dict(id="L06", title="String literals decode every escape and keep their source text",
  statement="Every string literal yields the character sequence it denotes: ordinary characters verbatim, single-character, hexadecimal, Unicode, code-point and legacy octal escapes decoded, line continuations removed, two escapes that form a surrogate pair combined into one character. It also keeps its exact source text with quotes. Malformed or unterminated literals and code points above U+10FFFF are rejected; a lone surrogate, which the result type cannot represent, reads as a question mark.",
  over=["inputs"], q="all strings over the literal alphabet up to a length, every code point raw and in every escape form, every octal and hex escape, every surrogate combination of boundary values",
  why=ONE+"; it compares values only, never the source text",
  files=[LX,TK,CH], mech=[("string and escape scanners",LX+" read_string, read_string_escape, read_unicode_escape_seq"),("single-character escapes",CH+" unescape")], technique=TECH, note=NOTE),
 dict(id="L07", title="Regular expression literals: body, class, escapes and flags delimited exactly",
  statement="In operand position a slash starts a regular expression that ends at the first slash outside a character class and not preceded by an escaping backslash; its pattern is the exact text between, its flags the identifier characters that follow, in order. A line terminator or the end of input anywhere inside the body, a class or after a backslash is an error.",
  over=["inputs"], q="all strings over the regexp alphabet up to a length, every code point in body, class, escape and flag position",
  why=ONE+" with a few regular expressions; nesting of classes, escapes and delimiters is combinatorial",
  files=[LX], mech=[("regexp scanners",LX+" read_regexp, read_regexp_class, read_regexp_backslash")], technique=TECH, note=NOTE),
 dict(id="L08", title="Identifiers, keywords and contextual names are told apart exactly",
  statement="A word is the longest run of identifier characters and valid Unicode escapes; it is a keyword exactly when its unescaped spelling is one of the reserved words, an error when a reserved word is spelled with an escape, and otherwise an identifier carrying the decoded text. Only characters allowed at that place in an identifier are accepted, raw or escaped. Names convert to text and back without loss, and every keyword and contextual name has its own spelling.",
  over=["inputs"], q="all words within one edit of a keyword, every way of escaping each keyword's letters, all short words, every code point at the start of and inside an identifier, raw and escaped",
  why=ONE+" with each keyword once; near-misses and escaped spellings are not covered",
  files=[LX,WD,CH], mech=[("word scanner",LX+" read_word_parts, read_word_escape"),("keyword tables",WD+" Map"),("character classes",CH)], technique=TECH, note=NOTE),
 dict(id="L09", title="White space and all comment forms are skipped exactly",
  statement="Between tokens, exactly the ECMAScript white space and line terminator characters, single-line comments, block comments, and the HTML-like comments are skipped: `<!--` anywhere, `-->` only when nothing but white space and comments precedes it on its line (a block comment containing a line break starts a new line). Comments end where the grammar says and never swallow or produce a token; an unterminated block comment is an error.",
  over=["inputs"], q="all strings over comment characters and delimiters up to a length, all trivia sequences, every code point as trivia and within comments",
  why="the test table adds single spaces only; comment delimiters interact with operators in unboundedly many ways",
  files=[LX,CH], mech=[("trivia loop",LX+" read_next_token, skip_line_comment, skip_block_comment"),("at-line-start state",LX+" empty_line"),("white space table",CH)],
  state=[("at-line-start flag","no token has been read on the current line",LX)], technique=TECH, note=NOTE),
 dict(id="L10", title="Peek, read, skip, unread and reread behave as a token queue",
  statement="Whatever sequence of peek, read, skip, unread and reread operations a client performs (with at most two tokens buffered), it sees the tokens of the text in order, as from a queue: peeking consumes nothing, unread tokens come back first, unchanged and in reverse order of being put back, and the goal given to an operation matters only when a new token is actually scanned. The reported lexer position is always the end of the furthest token scanned, and the last end that of the last token read and not put back.",
  over=["histories"], q="all operation histories up to a length, both goals at every operation, over texts with regexps, newlines, comments and errors",
  why="no test performs more than two consecutive reads; the order of operations is combinatorial",
  files=[LX], mech=[("token lookahead buffer",LX+" peek_token, read_token, unread_token, reread_token, repeek_token, skip_token")],
  state=[("lookahead","buffered tokens, front first",LX)], technique="exhaustive enumeration of operation histories on the real lexer in lock step with a queue model", note=NOTE),
 dict(id="L11", title="Tokens are produced on demand with bounded look-ahead",
  statement="Creating a tokenizer consumes nothing, and delivering a token consumes at most four characters of input beyond the token's last character, so a token depends only on the text before that point. A token already delivered into the buffer is never scanned again.",
  over=["inputs"], q="all texts over punctuator, comment and numeric characters up to a length, all pairs of lexemes, long lexemes, with an instrumented character source",
  why="the tests hand over whole strings and cannot see how much has been consumed",
  files=[RD,LX], mech=[("four-character look-ahead buffer",RD),("peek/peek2 scanning",LX)], technique=TECH, note="Exhaustive within the bounds listed in the evidence file; the source of characters is instrumented, the implementation is not."),
 dict(id="L12", title="Lexical errors name the actual problem and the offending character",
  statement="When a text has no token at some point, the reported error is the one for that malformation (unterminated string, comment or regular expression, missing digits or exponent, invalid digit, illegal character, bad escape, illegal code point, identifier or digit after a number, escaped reserved word) and carries the offending character, code point or word, or nothing at the end of input. No error is reported for a well-formed text.",
  over=["inputs"], q="every truncation and every one-character insertion, replacement or cut of every lexeme, all strings over each literal family's alphabet up to a length, every code point in every failing position",
  why="the test table checks only that some error occurs, never which",
  files=[LX,ER,WD], mech=[("error construction in each scanner",LX),("error kinds",ER)], technique=TECH, note=NOTE),
 dict(id="L13", title="Token equality is by meaning",
  statement="Two tokens' values are equal exactly when they denote the same thing: strings by value and numbers by numeric value however they are spelled, regular expressions by pattern and by flags in any order (counting repetitions), names by text and by whether they are contextual keywords, other tokens by kind. Equality is reflexive and symmetric, and whole tokens are equal when their values, places and newline marks are. The debug texts of two values are the same exactly when they are equal.",
  over=["inputs"], q="all ordered pairs from a catalogue of spellings of every token kind, all pairs of flag strings up to a length",
  why="the test suite relies on this equality but never tests it; it would still pass if unequal tokens compared equal",
  files=[TK,WD], mech=[("comparison of literals",TK+" PartialEq for RegExpLiteral, StringLiteral, NumberLiteral")], technique=TECH, note=NOTE),
 dict(id="L14", title="Lexical errors render messages that name the error and its detail",
  statement="The message of every lexical error is the fixed description of its kind, followed, for an illegal character, an invalid digit, an illegal code unit and a reserved word with escapes, by that character, digit, code unit (at least four hexadecimal digits) or word.",
  over=["inputs"], q="all error kinds with all characters, code units and reserved words they can carry", why="the one test never looks at messages", files=[ER],
  mech=[("messages",ER)], technique="exhaustive enumeration of error values of the real code against a message model", note="Exhaustive over every error value except code units above U+10FFFF, of which boundary values are taken."),
 dict(id="L15", title="Locations combine, render and are erased exactly",
  statement="The span of two located things runs from the start of the first to the end of the second, and is absent when either has no location. Erasing locations clears every location reachable through boxes, options and lists of any length and changes nothing else, in literals nothing at all. Positions render as one-based line and column.",
  over=["inputs","histories"], q="all pairs of locations over a set of positions, all lists of locations up to a length, in every container", why="the one test never looks at locations", files=[TR],
  mech=[("span combination and erasure",TR)], technique="exhaustive enumeration of location values and containers on the real code against a model", note="Exhaustive within the bounds listed in the evidence file."),
 dict(id="L16", title="A failure leaves no trace: reading resumes where scanning stopped",
  statement="After an error, reading goes on with exactly the tokens that the rest of the text has from the reported position on, which lies at or after the last token and inside the text; a token put back then comes out unchanged. What was read, or failed to be read, before never influences a later token, and tokenizers of different texts used in turns do not influence each other.",
  over=["inputs","histories"], q="all texts up to a length over hostile alphabets, malformed texts before and between all lexemes, all sequences of spellings of the same thing, all orders of turns of two tokenizers", why="the one test reads at most two tokens from each tokenizer and stops at the first error", files=[LX,RD,WD],
  mech=[("scanning and its state",LX+" read_next_token"),("keyword table",WD+" Map")], technique=TECH, note=NOTE),
]
