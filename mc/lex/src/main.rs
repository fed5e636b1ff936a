mod canon;
mod exec;
mod oracles;
mod small;
mod spaces;

use mc_core::Prop;

const REF: &str = "the reference tokenizer (mc/reflex) is the specification: ES2015 clause 11 and Annex B, for the part of the grammar that joker supports";
const DEBUG: &str = "the implementation is compiled with debug assertions and overflow checks";
const UCD: &str = "ID_Start and ID_Continue come from the ucd crate, which both sides use";

static PROPS: &[Prop] = &[
    Prop { id: "L01", rule: "every string up to a length over hostile alphabets, every truncation of long lexemes, every code point in every lexical context, under every goal assignment; reading continues past errors and past the end", assumptions: &[DEBUG], run: spaces::totality, check: oracles::totality },
    Prop { id: "L02", rule: "every punctuator string up to a length, every pair (and triple) of lexemes with every separator, every code point, under every goal assignment; one state per token boundary", assumptions: &[REF, UCD], run: spaces::classes, check: oracles::classes },
    Prop { id: "L03", rule: "every string up to a length over line terminators, wide characters and multi-line lexemes, every lexeme pair and separator, long lines and files", assumptions: &[REF], run: spaces::positions, check: oracles::positions },
    Prop { id: "L04", rule: "every string of trivia and tokens up to a length, and every separator of every lexeme pair", assumptions: &[REF], run: spaces::newlines, check: oracles::newlines },
    Prop { id: "L05", rule: "every string up to a length over the numeric alphabet, every digit pattern around the 53-bit rounding boundary, every exponent, long literals", assumptions: &[REF, "decimal literals are rounded by Rust's standard library parser on both sides; radix literals by an exact independent algorithm"], run: spaces::numbers, check: oracles::numbers },
    Prop { id: "L06", rule: "every string up to a length over the string-literal alphabet, every one-, two- and three-character escape, every code point raw and escaped, all pairs of surrogate-boundary escapes", assumptions: &[REF, "lone surrogates have no representation in a Rust string and read as '?'"], run: spaces::strings, check: oracles::strings },
    Prop { id: "L07", rule: "every string up to a length over the regexp alphabet in operand position, every code point in body, class, escape and flags", assumptions: &[REF], run: spaces::regexps, check: oracles::regexps },
    Prop { id: "L08", rule: "every word within one edit of a keyword, every prefix and concatenation, every per-character escaping, every code point at the start and inside of an identifier, raw and escaped", assumptions: &[REF, UCD], run: spaces::words, check: oracles::words },
    Prop { id: "L09", rule: "every string up to a length over comment and HTML-like comment openers and closers, every code point as trivia and inside comments", assumptions: &[REF], run: spaces::trivia, check: oracles::trivia },
    Prop { id: "L10", rule: "every history of peek/read/skip/unread/reread/repeek operations up to a length (at most two buffered tokens), with both goals, over several texts, against a queue model", assumptions: &[REF, "at most two tokens are buffered, as the lexer requires", "the state after an error is not specified"], run: spaces::histories, check: oracles::history },
    Prop { id: "L11", rule: "every punctuator and comment string up to a length and every lexeme pair, with an instrumented character source", assumptions: &["the bound is four characters past the end of the token"], run: spaces::lookahead, check: oracles::lookahead },
    Prop { id: "L12", rule: "every malformed lexeme obtained by truncating, or replacing one character of, a lexeme of each family, and every string up to a length over each family's alphabet", assumptions: &[REF], run: spaces::errors, check: oracles::errors },
    Prop { id: "L13", rule: "every ordered pair of lexemes from a catalogue of spellings", assumptions: &[REF], run: spaces::equality, check: oracles::equality },
    Prop { id: "L14", rule: "every error kind with every character, code unit or reserved word it can carry", assumptions: &[], run: small::messages, check: small::message },
    Prop { id: "L15", rule: "every pair of locations over a set of positions, and every list of locations up to a length in several nestings of containers", assumptions: &[], run: small::locations, check: small::location },
    Prop { id: "L16", rule: "every string up to a length over hostile alphabets, every malformed text before and between every lexeme, sequences of spellings of the same thing, every order of turns of two tokenizers; reading continues past errors", assumptions: &[REF, "where scanning stops at an error is not specified, only that it is at the reported place"], run: spaces::memory, check: oracles::memory },
];

fn main() {
    // What a thread has by default: nothing here may need depth in proportion to the text.
    mc_core::STACK.store(2 << 20, std::sync::atomic::Ordering::Relaxed);
    mc_core::main(PROPS)
}
