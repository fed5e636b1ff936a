UJ="crates/unjson/src/unjson.rs"; UE="crates/unjson/src/error.rs"; UT="crates/unjson/src/ty.rs"
NOTE="Exhaustive within the bounds listed in the evidence file; trusts serde_json 0.8's value type and the accessor table in mc/json."
PROPS=[
 dict(id="J01", title="JSON accessors agree with each other and report exact type errors",
  statement="For every JSON value and requested type, converting the value, reading it as a field and extracting it as a field give the same result: the value itself when it has that type, with an integer type accepting any integer that fits and a floating type any number, and otherwise an error naming the requested and the actual type. The optional variants differ only in turning null into nothing and in mentioning null in the error. An absent field is reported by name, and neither reading nor a failed lookup changes the object.",
  over=["inputs"], q="all accessors on all values of a catalogue: integers around every power of two in every representation, floats, strings, all arrays and objects up to a size",
  why="the crate has no tests; fifty accessors times value representations is a product only enumeration covers", files=[UJ,UE,UT],
  mech=[("value conversions",UJ+" Unjson"),("field reads",UJ+" GetField, ValueEx"),("field extraction",UJ+" ExtractField"),("type names",UT)],
  technique="exhaustive enumeration of accessor/value pairs on the real code against an accessor model", note=NOTE),
 dict(id="J02", title="Extracting fields removes exactly the requested field, across any history",
  statement="Under any sequence of field reads and extractions, an object behaves as a map: an extraction removes exactly the named field, whether or not its value has the requested type, a read removes nothing, no other field is ever changed, and extracting the same field again reports it as missing.",
  over=["histories"], q="all histories of get and extract operations of every type up to a length over all small objects",
  why="the crate has no tests; the effect of an operation depends on what earlier operations took away", files=[UJ],
  mech=[("field removal",UJ+" extract_field")], technique="exhaustive enumeration of operation histories on the real code in lock step with a map model", note=NOTE),
 dict(id="J03", title="JSON errors carry and display their details unaltered",
  statement="Every constructor of a JSON access error produces the error kind it is named for with its arguments in the documented roles, and the displayed message states the expected and actual type, length, index, field name or string exactly.",
  over=["inputs"], q="all error kinds with all lengths, indices, types and names up to a bound",
  why="the crate has no tests; swapped arguments read plausibly", files=[UE,UT],
  mech=[("error constructors and messages",UE)], technique="exhaustive enumeration of error constructions against a message model", note=NOTE),
]
