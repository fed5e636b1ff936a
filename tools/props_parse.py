PA="src/parser.rs"; ST="src/stack.rs"; SA="src/state.rs"; CX="src/context.rs"; TK="src/tokens.rs"; TR="src/track.rs"
AT="src/atom.rs"; EX="src/expr.rs"; ER="src/error.rs"; LB="src/lib.rs"
CV="crates/easter/src/cover.rs"; PU="crates/easter/src/punc.rs"; LX="crates/joker/src/lexer.rs"
TECH="exhaustive bounded enumeration of programs run through the real parser, each checked against a reference parser (model) explored in lock step"
NOTE="Exhaustive within the bounds listed in the evidence file; trusts the reference parser (mc/parse/src/refparse.rs) and tokenizer (mc/reflex) as the reading of the specification. The parser is built unmodified over stand-ins for two crates that are missing offline (mc/shims)."
ONE="the parser tests replay a fixed list of programs from a JSON file, and cannot be built offline"
ESF=["crates/estree/src/%s.rs"%f for f in ("lib","node","decl","patt","prog","expr","stmt","obj","fun","id","lit","tag","error")]
PROPS=[
 dict(id="P01", title="The parser is total: every text yields a program or a reported error",
  statement="For every text, parsing it as a script, as strict code, as a module, or as a program of undetermined kind, and turning such a program into a script, strict script or module, terminates with a syntax tree or a reported error, and never panics, overflows or hangs. Syntax that is recognized but not supported is reported as an error too. Every error can be displayed.",
  over=["inputs"], q="all texts over hostile characters and all token sequences up to a length; every truncation, deletion, duplication and replacement of every token of a program catalogue; every kind of nesting to a depth",
  why=ONE+"; no test parses malformed input beyond a handful", files=[LB,PA,TK,LX], mech=[("unimplemented and unreachable cases",PA),("entry points and refinement",LB)],
  technique=TECH, note=NOTE),
 dict(id="P02", title="Expressions parse into the tree that the grammar derives, or are rejected",
  statement="An expression is accepted exactly when the ECMAScript grammar (as far as supported: no arrows, classes, templates, yield, computed keys or default values) derives it, and its tree is the one derived: binary operators bind by the precedence table and to the left, assignments and conditionals to the right, unary and postfix operators, calls, member accesses and new with and without arguments nest as derived. The operand of an assignment, increment or loop head must be a valid target, array and object literals there become the pattern they denote, and parentheses affect only the grouping.",
  over=["inputs"], q="all operator sequences up to a length, all expressions of a catalogue in every place two levels deep, all token sequences of five alphabets up to a length that some continuation could complete",
  why=ONE+"; grouping depends on every pair and triple of operators and on what surrounds them, a product that tests sample", files=[PA,ST,EX,CV,PU],
  mech=[("operator stack",ST),("precedence of operator tags",PU),("assignment, conditional, member, call and new expressions",PA),("literal to pattern conversion",CV)],
  technique=TECH, note=NOTE),
 dict(id="P03", title="Statements and declarations parse into the tree the grammar gives",
  statement="A program is accepted exactly when the grammar derives it, and its tree has exactly the statements, declarations, clauses, names and bodies of the source, in order: which else belongs to which if, what is the body of a loop, label or case, which form of for loop it is, what is a declaration and what an expression that begins with let, and which parts are absent.",
  over=["inputs"], q="all statements of a catalogue in all statement contexts, nested two levels deep and in pairs, and all token sequences of five alphabets up to a length",
  why=ONE+"; the forms of for, switch, try and nested statements combine without limit", files=[PA,CX,SA,TK],
  mech=[("statement parsers and for-head disambiguation",PA),("token predicates",TK)], technique=TECH, note=NOTE),
 dict(id="P04", title="Semicolons are inserted exactly where the language inserts them",
  statement="A missing semicolon is supplied exactly before a line break, a closing brace, the end of the input or after a do-while, where the next token cannot continue the statement; a line break ends return, break, continue and throw at once and separates an operand from ++ and --; no semicolon is supplied inside a for head or as an empty statement. The tree records for each statement whether its semicolon was written, and where, or inserted.",
  over=["inputs"], q="all pairs of semicolon-less statements with every separator in every context, a line break in every pair of gaps of every statement, all token and line break sequences up to a length",
  why=ONE+"; insertion depends on the statement, the separator and the next token together", files=[PA,TK,"crates/joker/src/token.rs"],
  mech=[("semicolon insertion",PA),("newline flag of tokens",LX)], technique=TECH, note=NOTE),
 dict(id="P05", title="A slash is a division or begins a regular expression as its position demands",
  statement="Wherever the grammar allows an operator, a slash is a division operator, and wherever it allows an operand, a slash begins a regular expression, after every kind of token and in every nesting, including after closing parentheses, braces and brackets, after keywords and contextual keywords, after ++ and --, after directives, and across line breaks.",
  over=["inputs"], q="all token sequences up to a length followed by a slash, and a slash at every token boundary of every program of a catalogue",
  why=ONE+"; the tokenizer's goal is passed implicitly through parser state, so a mistake shows only for particular token pairs", files=[PA,SA,LX],
  mech=[("operator flag shared with the lexer",SA),("goal of each token request",PA)], technique=TECH, note=NOTE),
 dict(id="P06", title="Illegal programs are rejected with an error that names the fault and its place",
  statement="Break, continue and return outside of what they leave, jumps to missing, foreign or non-loop labels, labels nested in themselves, duplicate default clauses, missing throw operands, try without handler, invalid assignment targets, unexpected tokens and missing semicolons are each rejected, with the error kind meant for the fault and the location of the token at fault; labels, loops and switches never reach into or out of a nested function, and legal jumps are accepted. Each error's message is the phrase its kind stands for, and a tokenizer's or cover grammar's error is passed on with its own message and named as the cause.",
  over=["inputs"], q="all sequences of jumps, labels, loops, switches and functions up to a length, and every truncation and one-token change of every program of a catalogue",
  why=ONE+"; rejection depends on the whole stack of enclosing constructs", files=[PA,CX,ER,SA],
  mech=[("label and loop context",CX),("error constructors",ER),("early errors",PA)], technique=TECH, note=NOTE),
 dict(id="P07", title="Strict-mode and module restrictions apply exactly to strict and module code",
  statement="With statements, binding eval or arguments, and using the strict-mode reserved words as names are rejected exactly in strict code, and await as a name exactly in modules, however the words are escaped. Code is strict when it is parsed as strict or as a module, when a 'use strict' directive spelled exactly so stands in the directive prologue of the program or of an enclosing function, or for a function's own name and parameters when its body says so; strictness ends with the function.",
  over=["inputs"], q="all prologues up to a number of directives × all places × all sensitive constructs × entry points, nested and in pairs; every name in every name position",
  why=ONE+"; strictness discovered late applies to names parsed earlier, across nesting", files=[PA,CX,LB,AT],
  mech=[("deferred strictness checks",PA),("mode in the context",CX),("reserved names",AT)], technique=TECH, note=NOTE),
 dict(id="P08", title="The entry points agree with each other about every program",
  statement="Parsing a text as a program of undetermined kind and then refining the result to a script, strict script or module gives exactly the tree or error that parsing it directly as that kind gives. A program is a module exactly when 'use module' stands in its own directive prologue, and a module is refused as a script with an error naming that directive, or else its first import or export. Refining runs the checks deferred for strict and module code in order and reports the first that applies.",
  over=["inputs","histories"], q="all prologues × sensitive constructs × nestings and every program of a catalogue, through all entry points and refinements",
  why=ONE+"; agreement relates several runs of the parser", files=[LB,PA,CX], mech=[("entry points and refinement",LB),("goal detection",PA)],
  technique="exhaustive bounded enumeration of programs, comparing all entry points of the real parser with each other and the goal with a reference parser", note=NOTE),
 dict(id="P09", title="Comments and white space never change the meaning of a program",
  statement="Replacing the space between two tokens by any other white space or comments, or a line break by any other line terminator or a comment that contains one, yields the same tree, up to locations, or the same error.",
  over=["inputs"], q="every program of a catalogue with every kind of trivium in each gap and in all gaps", why=ONE+"; relates pairs of programs", files=[PA,LX,TK],
  mech=[("trivia",LX),("line break conditions",PA)], technique="exhaustive bounded enumeration of pairs of layouts of a program, comparing two runs of the real parser", note=NOTE),
 dict(id="P10", title="Every node of the tree is located exactly where its source text is",
  statement="Each node of the syntax tree carries the position of the first character of its first token and of the character after its last token, with its written semicolon included, its inserted semicolon and surrounding comments and spaces not; parentheses around a node are not part of it. Operators, keys, labels, semicolons and parameter lists are located likewise.",
  over=["inputs"], q="every expression of a catalogue in every place two levels deep and every statement in every two contexts, each in three layouts over several lines with wide characters", why=ONE+" and compare trees without locations", files=[TR,PA,ST,EX,LX],
  mech=[("span construction",TR),("operator spans",ST),("token ends",LX)], technique=TECH, note=NOTE),

 dict(id="A01", title="Operators keep their spelling, kind and precedence from token to tree",
  statement="Exactly the texts of the language's binary, logical, compound-assignment and unary operators read as operators of that kind, and each operator is displayed as it was spelled. A token converts to an operator of exactly the kinds its spelling allows, at the token's location, with `in` refused where a for head forbids it. Precedence orders the binary and logical operators as the grammar's levels do, and assignments below all of them.",
  over=["inputs"], q="all texts over punctuation to a length and all words one letter away from an operator word; all pairs of operators",
  why="no test of the tree crate exists; tables of 40 operators in four forms are only exercised by the operators that a program happens to use", files=[PU,"src/tokens.rs"],
  mech=[("operator tables and precedence",PU),("tokens to operators",TK)],
  technique="exhaustive bounded enumeration of texts, tokens and operator pairs, compared with the reference operator table", note=NOTE),
 dict(id="A02", title="Literals convert to assignment patterns exactly where the grammar allows",
  statement="Turning an expression into an assignment target or pattern succeeds exactly for names, member expressions and, as patterns, array and object literals all of whose parts convert, with a spread only at the end; the result has the same parts in the same order with the same locations, holes, keys and shorthands kept. Otherwise the error locates a part that really stands in the way, and says whether it is a property or a target.",
  over=["inputs"], q="all nestings of a catalogue of literal shapes to a depth, all expressions of the catalogue two contexts deep, all token sequences inside brackets and braces to a length",
  why=ONE+"; conversion is recursive over literals, so faults show at depth and in combinations", files=[CV], mech=[("cover grammar conversion",CV)],
  technique="exhaustive bounded enumeration of expressions, converted by the real code and by the reference model in lock step", note=NOTE),
 dict(id="A03", title="Erasing locations leaves the same tree, and equality is equality of all parts",
  statement="A node's tracked location is its own, of every kind of node. Erasing locations removes every location in a tree, including those of operators, semicolons, keys, parameters and bodies, and changes nothing else; erasing again changes nothing. Two erased trees are equal exactly when they denote the same program, whatever the layout, and differ when any name, value, operator, part or order differs; trees whose locations differ are different, equality is symmetric, and a copy equals the original; debug texts of erased trees are the same exactly when the trees are equal.",
  over=["inputs"], q="every program of the catalogue in several layouts, and all ordered pairs of variants that differ in one part of one node, alone and inside every context",
  why="no test of the tree crate exists; erasure and equality are derived per field for about 60 types, and one forgotten field shows only in a tree that has it", files=["crates/easter/src/expr.rs","crates/easter/src/stmt.rs","crates/easter/src/decl.rs","crates/easter/src/patt.rs","crates/easter/src/obj.rs","crates/easter/src/fun.rs","crates/easter/src/id.rs",PU,"crates/joker/src/track.rs"],
  mech=[("derived erasure and tracking","crates/easter/derive/src/lib.rs"),("generic erasure","crates/joker/src/track.rs")],
  technique="exhaustive bounded enumeration of trees and pairs of trees, compared with equality and erasure in the reference form", note=NOTE),
 dict(id="A04", title="Directives and declarators are recognized and built without loss",
  statement="A statement is a directive exactly when it is an expression statement that consists of a string literal, and converts into one and back with its text, location and semicolon kept; its pragma is the source text between its quotes, escapes untouched. A declarator built from a name or pattern and an initializer spans from the one to the other; a pattern without initializer is refused and returned, and so is a constant.",
  over=["inputs"], q="all directive spellings of up to a number of parts in all positions, every statement of the catalogue; all forms of left side × initializer × known or unknown locations",
  why="no test of the tree crate exists; the cases are combinations of optional parts", files=["crates/easter/src/stmt.rs","crates/easter/src/decl.rs","crates/easter/src/id.rs","crates/easter/src/patt.rs"],
  mech=[("directive conversion","crates/easter/src/stmt.rs"),("declarator construction","crates/easter/src/decl.rs")],
  technique="exhaustive bounded enumeration of programs and constructor arguments, compared with the reference tree", note=NOTE),
 dict(id="E01", title="The ESTree form of a program reads back as that program",
  statement="For every program that the ESTree subset can express, reading its ESTree JSON gives the tree that parsing its source gives, up to locations: every operator, name, literal value, regular expression, hole, property form, accessor, parameter, declaration kind, loop head, label, clause and directive, with absent parts absent. Deserializing through serde gives the same.",
  over=["inputs"], q="the ESTree form of every expression of a catalogue in every place two levels deep, of every statement in every two contexts, of every literal and name in every position, of lists of all sizes",
  why="the reader has no test; its correctness relates a whole format to the syntax tree, node by node", files=ESF,
  mech=[("node readers","crates/estree/src/node.rs"),("statements","crates/estree/src/stmt.rs"),("expressions","crates/estree/src/expr.rs")],
  technique="exhaustive bounded enumeration of programs, each written as ESTree by the model and read by the real code, compared with the model's and the parser's tree", note=NOTE),
 dict(id="E02", title="Malformed ESTree is rejected with an error, never misread or a crash",
  statement="Reading any JSON value as ESTree terminates with a tree or an error. Where a required field is missing, has the wrong type, an unknown tag, an operator of another kind, a target that cannot be assigned, or says what the tree cannot express (a computed key, an initializer in a for-of head, a declaration as the body of a statement), it is an error; otherwise the tree is the one that the remaining fields describe. A document with a single such fault is rejected with the message that names it: the missing field, the expected and the actual type, the unknown tag, the misplaced node.",
  over=["inputs"], q="every change of a catalogue (removal, duplication, nesting, exchange, replacement by each of about 90 values, every tag for every tag) of every slot of the ESTree form of every expression and statement, and all pairs of coarser changes",
  why="the reader has no test; each of some 150 fields must be checked in each of its wrong forms", files=ESF,
  mech=[("typed access to nodes","crates/estree/src/node.rs"),("tags","crates/estree/src/tag.rs"),("errors","crates/estree/src/error.rs")],
  technique="exhaustive bounded enumeration of changes to ESTree documents, each read by the real code and by a reference reader in lock step", note=NOTE),
]
