#[path = "../../lex/src/canon.rs"]
mod canon;
mod ast;
mod conv;
mod est;
mod modes;
mod oracles;
mod refparse;
mod spaces;
mod tree;

use mc_core::Prop;

const REF: &str = "the reference parser (mc/parse/src/refparse.rs, over the reference tokenizer mc/reflex) is the specification: ES2015 clauses 12 to 15 and Annex B, for the grammar esprit supports";
const DEBUG: &str = "the implementation is compiled with debug assertions and overflow checks";

static PROPS: &[Prop] = &[
    Prop { id: "P01", rule: "every text over hostile characters and every token sequence up to a length, every truncation, deletion, duplication and replacement of a token in a program catalogue, every kind of nesting to a depth, through every entry point", assumptions: &[DEBUG], run: modes::totality, check: modes::total },
    Prop { id: "P02", rule: "every operator sequence up to a length, every catalogued expression in every place two levels deep, and every token sequence over several alphabets up to a length, cut where the reference parser shows that no continuation is a program", assumptions: &[REF, DEBUG], run: spaces::expressions, check: oracles::cover },
    Prop { id: "P03", rule: "every catalogued statement in every context two levels deep and every pair in every context, and every token sequence over several alphabets up to a length, cut where no continuation is a program", assumptions: &[REF, DEBUG], run: spaces::statements, check: oracles::tree },
    Prop { id: "P04", rule: "every pair of statements without semicolons with every separator in every context, a line break in every one or two gaps of every statement, and every sequence of tokens and line breaks over several alphabets up to a length", assumptions: &[REF, DEBUG], run: spaces::semicolons, check: oracles::tree },
    Prop { id: "P05", rule: "every token sequence up to a length with a slash after it, and several slash forms inserted at, and in place of, every token of a program catalogue", assumptions: &[REF, DEBUG], run: spaces::slashes, check: oracles::tree },
    Prop { id: "P06", rule: "every catalogued program in nested contexts, every truncation and every one-token deletion and replacement of it, and every sequence of jumps, labels, loops, switches and functions up to a length", assumptions: &[REF, DEBUG], run: modes::rejections, check: oracles::errors },
    Prop { id: "P07", rule: "every prologue up to a number of directives with every sensitive construct in every place under every entry point, two levels of prologues and functions, pairs of constructs, and every name in every name position", assumptions: &[REF, DEBUG], run: modes::strictness, check: oracles::errors },
    Prop { id: "P08", rule: "every prologue, sensitive construct and catalogued program through every entry point and refinement", assumptions: &[DEBUG], run: modes::entry_points, check: modes::agreement },
    Prop { id: "P09", rule: "every catalogued program with each kind of trivium in each gap and in all gaps, against plain spaces or line breaks there", assumptions: &[DEBUG], run: modes::layouts, check: modes::trivia },
    Prop { id: "P10", rule: "every catalogued expression in every place two levels deep and every statement in two levels of contexts, each in three layouts", assumptions: &[REF, DEBUG], run: spaces::spans, check: oracles::spans },
    Prop { id: "A01", rule: "every text over the operator characters up to a length, every word near a word operator, every pair of operators", assumptions: &[DEBUG], run: ast::operator_texts, check: ast::operators },
    Prop { id: "A02", rule: "every nesting of literals and other expressions to a depth around every leaf, every catalogued expression two places deep, every token sequence up to a length inside array and object literals", assumptions: &["refparse::pattern_of restates the cover grammar of ES2015 12.14.5, without default values", DEBUG], run: ast::covers, check: ast::cover },
    Prop { id: "A03", rule: "every catalogued program, alone and in two layouts; every ordered pair of variants of every node kind; the variants in every statement context against their neighbours", assumptions: &["programs denote the same when their trees agree up to literal spelling, semicolons and layout", DEBUG], run: ast::erasures, check: ast::erasure },
    Prop { id: "A04", rule: "every pattern kind with and without location against every catalogued initializer; every directive body up to a number of parts in every position; every catalogued program", assumptions: &[DEBUG], run: ast::helper_cases, check: ast::helpers },
    Prop { id: "E01", rule: "every catalogued expression and statement in two levels of contexts, every kind of literal and name in every place, lists and nests of every size, written as ESTree", assumptions: &[REF, "ESTree is written from the reference tree as the ESTree specification gives it; patterns are written as array and object expressions, the only form the reader supports", DEBUG], run: est::trees, check: est::reads },
    Prop { id: "E02", rule: "every slot of the ESTree form of each catalogued program deleted, duplicated, nested, exchanged and replaced by every value of a catalogue; pairs of such changes", assumptions: &["the reference reader (mc/parse/src/est.rs) restates the ESTree node types; what they leave open is not judged", DEBUG], run: est::changes, check: est::malformed },
];

fn main() { mc_core::main(PROPS) }
