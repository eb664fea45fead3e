"""The properties: titles, statements, anchors.  gen.py writes properties.jsonl and MANIFEST.json from this and props.py."""
R = "src/parsers/"
META = []
def P(id, title, statement, over, text, why, mech, files=None):
    fs = files or sorted({m[1].split(":")[0] for m in mech})
    META.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=fs, mechanism=[dict(name=n, where=w) for n, w in mech])))

P("P01", "parse() succeeds exactly when the pattern matches the whole input",
  "For every pattern and every text, parsing succeeds if and only if some way of matching the pattern consumes the text from its first to its last character. A match of a mere prefix is never accepted, and an input is never rejected while some choice of repetition counts, options and alternatives would match all of it.",
  ["inputs", "programs"], "all texts and all patterns built from sub-patterns of arbitrary behaviour (any set of possible match ends at any position)",
  "The tests parse a few dozen fixed strings with fixed patterns; acceptance depends on every combination of partial matches the sub-patterns offer, which no sample covers.",
  [("top-level loop: backtrack until the match ends at the end of input", "src/traits.rs:Parser::parse_raw"), ("backtracking of each combinator", "src/parsers/sequence.rs:SequenceParseIter::backtrack"), ("backtracking of alternatives", "src/parsers/either.rs:EitherParseIter::backtrack"), ("backtracking of repetitions", "src/parsers/repeat.rs:RepeatParseIter::backtrack")])
P("P02", "The value returned is that of the most preferred whole match",
  "When a text can be matched in several ways, the result is the value of the first one in preference order: earlier alternatives before later ones, one more repetition before stopping, a present optional before an absent one, and choices made further left weigh more than choices made further right. This holds for every nesting of sequences, alternatives, optionals and repetitions.",
  ["inputs", "programs"], "all nestings of combinators (to the stated depth) over sub-patterns of arbitrary behaviour",
  "Ambiguous inputs are rare in the tests and each test fixes one; the preference order is a statement about all ways to match.",
  [("order of backtracking", "src/parsers/sequence.rs:SequenceParseIter::backtrack"), ("left before right", "src/parsers/either.rs:EitherParseIter"), ("greedy repetition", "src/parsers/repeat.rs:RepeatParseIter"), ("one value per match", "src/parsers/map.rs:MapParseIter")])
P("P03", "Concatenated patterns try every split of the text",
  "A sequence of patterns matches exactly the texts that can be cut into consecutive pieces matched by its parts, at any position, in any grouping; every match of an earlier part is combined with every match of the later ones before the sequence gives up. Its matches come in the order of the earlier part's preference, then the later's, and its value lists the parts' values in order.",
  ["inputs", "programs"], "all behaviours of the parts (any ordered list of match ends at any position), sequences of 2 to 5 parts",
  "A test fixes one behaviour per part; the missed retry needs a part with a second match and a successor that fails after the first.",
  [("first_tail_match and backtrack", "src/parsers/sequence.rs:first_tail_match"), ("concatenation of values", "src/types.rs:RawOutputConcat")])
P("P04", "Alternatives are tried in the order written and all of them are tried",
  "A braces pattern first offers every match of its first alternative, then every match of the second, and so on, always starting from the same position. If a later part of the pattern fails after one alternative, the remaining matches of that alternative and then all later alternatives are still tried, and the value is that of the alternative that finally matched.",
  ["inputs", "programs"], "all behaviours of 2 to 5 alternatives and of the pattern that follows",
  "The tests use alternatives that exclude one another; order and completeness show only when several alternatives match the same text.",
  [("either: left, then right from the same start", "src/parsers/either.rs:EitherParseIter::backtrack"), ("alternatives fold into nested pairs", "src/macros.rs:@list")])
P("P05", "An optional pattern prefers presence, and absence is always tried",
  "An optional pattern offers every match of the pattern inside, each giving a present value, and after all of them one empty match giving an absent value. It never fails by itself, and when what follows cannot match after a present one, the absent one is still tried from the original position.",
  ["inputs", "programs"], "all behaviours of the optional part and its neighbours",
  "Tests cover an optional that is plainly there or plainly not, never one that must be given up after matching.",
  [("optional as either(pattern, empty)", "src/parsers/either.rs:opt"), ("empty match", "src/parsers/empty.rs:EmptyParser")])
P("P06", "Repetition takes as many as it can and gives back one at a time",
  "A starred pattern matches zero or more, a plus pattern one or more, consecutive matches of the pattern inside; longer runs are preferred, and when the rest fails each shorter run and each other match of each repeated item is tried, in that order, before the repetition gives up. The value has exactly one element per repetition, in order.",
  ["inputs", "programs"], "all behaviours of the repeated part and of what precedes and follows it, up to the stated number of repetitions",
  "Tests repeat simple characters; giving back items that themselves match in several ways needs combinations no test contains.",
  [("advance and backtrack of the stack of item matches", "src/parsers/repeat.rs:RepeatParseIter"), ("star and plus", "src/parsers/repeat.rs:star")])
P("P07", "Separated repetition alternates items and separators exactly",
  "A separated repetition matches nothing, or one item, or items with exactly one separator between each two neighbours: never a leading, trailing or doubled separator as part of the match. When what follows fails, shorter lists, other matches of items and other matches of separators are all tried before it gives up; the value contains the items' values only.",
  ["inputs", "programs"], "all behaviours of item, separator and context, up to the stated number of items",
  "Tests use literal separators and unambiguous items; a separator that can match in several ways or a list that must give back an item with its separator is not tried.",
  [("separator handling in advance and backtrack", "src/parsers/repeat.rs:RepeatParseIter::backtrack"), ("repeat_sep", "src/parsers/repeat.rs:repeat_sep")])
P("P08", "Repetition always ends, even when the repeated pattern matches nothing",
  "Repeating a pattern (with or without separator) that can match the empty text terminates on every input, in time and memory bounded by the input, instead of repeating forever. The input is still accepted or rejected as the pattern without the endless repetition would be.",
  ["inputs", "programs"], "all texts, all repeated patterns and separators that may match empty text, nested repetitions",
  "A test that would show the failure hangs or exhausts memory, so none exists; termination is a statement about all inputs.",
  [("no progress ends the repetition", "src/parsers/repeat.rs:RepeatParseIter::next")])
P("P09", "line() and lines() cover exactly whole lines",
  "A line pattern matches only at the start of a line, applies the pattern inside to precisely the text up to the next newline or the end of the input (never including the newline, never more than one line, and all of it), and consumes the newline if there is one; at the very end of the input there is no line. The lines pattern matches any number of consecutive such lines, as many as possible, giving one value per line.",
  ["inputs"], "all texts up to the stated length (any characters, any placement of newlines, with or without a final newline) and arbitrary patterns inside and around",
  "Tests use tidy inputs; misplaced, missing, doubled and final newlines in every position cannot be enumerated by hand.",
  [("where a line starts and ends", "src/parsers/lines.rs:Line"), ("inner pattern must match the whole region", "src/parsers/lines.rs:match_fully"), ("lines", "src/parsers/lines.rs:lines")])
P("P10", "section() and sections() cover exactly the blocks between blank lines",
  "A section pattern matches only at the start of the input or just after a blank line, applies the pattern inside to precisely the (zero or more) nonblank lines up to the next blank line or the end of the input, and consumes the one blank line that ends it; at the very end of the input there is no section. The sections pattern matches any number of consecutive sections, one value each.",
  ["inputs"], "all texts up to the stated length and arbitrary patterns inside and around",
  "Tests separate sections by exactly one blank line; blank lines at the start or end, several in a row, missing final newlines and positions inside a section are not tried.",
  [("where a section starts and ends", "src/parsers/lines.rs:Section"), ("inner pattern must match the whole region", "src/parsers/lines.rs:match_fully"), ("sections", "src/parsers/lines.rs:sections")])
P("P11", "Lines and sections nest and combine with other patterns",
  "Line and section patterns placed inside one another, next to one another, under repetitions, alternatives and optionals, match what composing their definitions gives: the text of an outer region is the whole input for the patterns inside it, and matching goes on after the outer region as if the inner ones had not been there.",
  ["inputs", "programs"], "all texts over a small alphabet with newlines, arbitrary patterns inside regions",
  "The composition of two region rules is where off-by-one errors hide; the tests contain a handful of compositions on one input each.",
  [("a slice of the text becomes a context of its own", "src/context.rs:ParseContext::with_slice"), ("regions", "src/parsers/lines.rs:RegionParser")])
P("P12", "A failed parse reports the furthest point reached",
  "When parsing fails, the reported location is the greatest position, in the whole input, at which any attempted way of matching failed, including attempts that some other alternative replaced and text left over after a match; failures inside a line or section that did match in another way do not count. The location is never beyond the end of the input.",
  ["inputs", "programs"], "all inputs that fail, all patterns over sub-patterns that fail anywhere",
  "The tests check a few messages; which failure wins depends on the history of all attempts.",
  [("keep the foremost error", "src/context.rs:ParseContext::report"), ("errors of regions", "src/context.rs:ParseContext::with_slice"), ("leftover text", "src/traits.rs:Parser::parse_raw")])
P("P13", "An error always refers to the complete input",
  "Every error carries the complete text given to the parser, even when the failure happened deep inside lines, sections or nested regions, and its location is a byte offset into that text that lies on a character boundary. Offsets inside regions are converted so that they point at the failing character of the whole input.",
  ["inputs"], "all texts (any Unicode) and nestings of regions",
  "Tests look at messages of ASCII inputs; multi-byte characters before and inside a region and nested regions are not combined.",
  [("adjust_location", "src/error.rs:ParseError::adjust_location"), ("slices", "src/context.rs:ParseContext::with_slice"), ("boundary assertion", "src/error.rs:ParseError::new")])
P("P14", "A displayed error names the right line and column",
  "Displaying an error gives its reason followed by the line and the column of its location, both counted from one, columns counted in characters of that line; a location at the very end of the input is displayed as the end of input instead. The debug form contains that same message as its summary, and cloning an error changes nothing.",
  ["inputs"], "all texts and all locations in them",
  "A few messages are tested, all on ASCII lines; line and column depend on every newline and multi-byte character before the location.",
  [("Display", "src/error.rs:Display for ParseError"), ("Debug", "src/error.rs:Debug for ParseError")])
P("P15", "An error's reason is a failure that happened at its location",
  "The reason shown is that of a failure which really occurred at the reported location: what was expected there, a number that could not be converted (with its text and type), a line or section that cannot start there or was matched only in part, or text left over after a match. The first such failure at the furthest location is the one kept.",
  ["inputs", "programs"], "all failing inputs of the modelled patterns",
  "Tests compare a few messages; that the reason belongs to the location must hold for every failing input.",
  [("reasons", "src/error.rs:ParseErrorReason"), ("report keeps the first of the foremost", "src/context.rs:ParseContext::report"), ("what each basic pattern expected", "src/parsers/primitive.rs:from_str_parse_impl"), ("region failures", "src/parsers/lines.rs:match_fully")])
P("P16", "No input makes parsing panic or fail to return",
  "For every text, including empty text, any Unicode, any mix of newlines and carriage returns, and absurd numbers, a parser either returns a value or returns an error, and the error can be displayed. It never panics, overflows, indexes outside the text, splits a character or runs forever.",
  ["inputs"], "all texts up to the stated length, patterns covering every building block",
  "A panic needs the one odd input (a multi-byte character at a boundary, an empty match, a huge number) that no test thought of.",
  [("slicing of the source", "src/parsers/chars.rs:CharParser"), ("slicing of regions", "src/parsers/lines.rs:Section"), ("exact text comparison", "src/parsers/exact.rs:Parser for str"), ("boundary assertion", "src/error.rs:ParseError::new"), ("lexemes", "src/parsers/primitive.rs:from_str_parse_impl")])
P("P17", "Decimal integers: longest run of digits, exact value or an error",
  "An integer pattern takes an optional sign (signed types only) and the longest following run of one or more ASCII decimal digits, leading zeros included, and nothing else. It gives exactly the number written when the type can hold it, including both extremes, and fails when the type cannot; it never wraps, truncates, or gives back digits.",
  ["inputs"], "all texts up to the stated length and all texts around the limits of each of the twelve types",
  "Tests try a few numbers; the limits of twelve types, in both signs, with every continuation, are too many cases.",
  [("decimal lexemes and conversion", "src/parsers/primitive.rs:from_str_parse_impl"), ("regexes", "src/parsers/primitive.rs:regexes"), ("single match at the start position", "src/parsers/regex.rs:RegexParser")])
P("P18", "Binary and hexadecimal integers keep to their base and range",
  "The binary and hexadecimal integer patterns take an optional sign (signed types only) and the longest run of digits of their base (hexadecimal in either case), without any prefix, and give exactly the number written in that base, or fail when the type cannot hold it.",
  ["inputs"], "all texts up to the stated length and around the limits, 24 patterns",
  "Two or three of the 24 patterns are tested, none at its limits.",
  [("radix lexemes and conversion", "src/parsers/primitive.rs:from_str_radix_parsers"), ("regexes", "src/parsers/primitive.rs:regexes")])
P("P19", "Big integers have no limit and exact values",
  "The big integer patterns (decimal, binary, hexadecimal; signed and unsigned) take an optional sign (signed only) and the longest run of digits of their base and give exactly the number written, whatever its length.",
  ["inputs"], "all digit strings of the stated lengths, including ones longer than any machine word, with symbolic final digits",
  "A few numbers are tested; values past one, two and three machine words in each base are not.",
  [("big integer parsers", "src/parsers/primitive.rs:from_str_radix_parsers"), ("regexes", "src/parsers/primitive.rs:regexes")])
P("P20", "Floating-point numbers and booleans follow Rust's grammar",
  "The floating-point patterns take the longest prefix that is a number in the grammar of Rust's own conversion (sign, digits, fraction, exponent, infinity and nan in any case), and give exactly the nearest value of that type, as that conversion does; the boolean pattern takes exactly one of its two words. Nothing else is consumed and nothing else matches.",
  ["inputs"], "all texts up to the stated length over the characters that matter, and around special words, exponents and halfway values",
  "The grammar has many optional parts; the tests try a few spellings.",
  [("float and bool lexemes", "src/parsers/primitive.rs:from_str_parse_impl"), ("regexes", "src/parsers/primitive.rs:regexes")])
P("P21", "Character classes match exactly one character of their class",
  "The letter, letter-or-digit, uppercase, lowercase and any-character patterns each match exactly one character, of whatever encoded length, precisely when it belongs to the Unicode category named, and give that character. Anything, newlines included, is matched by the any-character pattern; nothing is matched at the end of the text.",
  ["inputs"], "all characters of up to two bytes, whole blocks of three- and four-byte characters, and all texts following them",
  "The tests use a few ASCII letters; the classes range over all of Unicode and over encoded lengths.",
  [("CharParser", "src/parsers/chars.rs:CharParser"), ("the classes", "src/parsers/chars.rs:alpha")])
P("P22", "Digits and char_of give the right number for each character",
  "The decimal, binary and hexadecimal digit patterns match exactly one ASCII digit of their base (hexadecimal in either case) and give its numeric value. The one-of-these-characters pattern matches exactly one character if it occurs among the options, and gives the index, counted in characters, of its first occurrence there.",
  ["inputs"], "all characters, option strings with repeated, multi-byte and related characters",
  "Tests try a few characters of one option string; value and index must be right for each character.",
  [("CharOfParser", "src/parsers/chars.rs:CharOfParser"), ("digits", "src/parsers/chars.rs:digit")])
P("P23", "Exact text matches itself and nothing else",
  "A quoted string or character in a pattern matches exactly those characters at the current position, byte for byte and case-sensitively, wherever it stands, and consumes exactly their length; the empty string matches anywhere and consumes nothing. It yields no value.",
  ["inputs"], "all texts against fixed and symbolic exact patterns, ASCII and multi-byte",
  "Tests show a match and a mismatch or two; near misses, prefixes, and multi-byte boundaries are not covered.",
  [("str and char as parsers", "src/parsers/exact.rs:Parser for str")])
P("P24", "string() returns exactly the text its pattern consumed",
  "Capturing a pattern as a string matches exactly what the pattern matches, in the same order of preference, and gives the text between the start and the end of the match, unchanged, whatever values the pattern would have given; also inside lines, sections and repetitions.",
  ["inputs", "programs"], "all texts and arbitrary patterns inside",
  "Tests capture simple runs; captures that must be given back, empty captures and captures inside regions are not covered.",
  [("StringParser", "src/parsers/string.rs:StringParser")])
P("P25", "Conversion code runs once per value of the final result, and only then",
  "Conversion expressions are evaluated only after the whole input has matched, exactly once for each value that is part of the final result, in no case for attempts that were given up or for text captured as a string, and not at all when parsing fails.",
  ["inputs", "programs", "histories"], "all histories of matching and giving up over sub-patterns of arbitrary behaviour",
  "Whether a conversion runs for an abandoned attempt depends on the history of backtracking; tests try two histories.",
  [("conversion is deferred to convert()", "src/parsers/map.rs:MapParseIter::convert"), ("parse_raw converts at the end", "src/traits.rs:Parser::parse_raw"), ("string() does not convert", "src/parsers/string.rs:StringParseIter")])
P("P26", "The shape of the value follows the shape of the pattern",
  "Exact text contributes nothing; two or more value-producing parts in a row give a flat tuple of up to eight values in order, a single one gives just its value; parentheses group their contents into one value; optional, repeated, separated, line and section patterns give an option or a vector with one element per match; named parsers keep their own value as one unit or flat as their definition says.",
  ["inputs", "programs"], "all values of the parts, pattern shapes covering each combination rule",
  "Types are checked by compiling, but which match ends in which slot is checked by tests for a few shapes and values.",
  [("tuple concatenation", "src/types.rs:impl_tuple_concat"), ("single values", "src/parsers/map.rs:single_value"), ("sequence", "src/parsers/sequence.rs:Concat"), ("macro", "src/macros.rs:aoc_parse_helper")])
P("P27", "Recursive rule sets match nested input of every shape",
  "A set of rules that refer to themselves and to one another accepts exactly the texts of the grammar they spell out, to any depth of nesting, with alternatives and repetitions inside rules backtracking as elsewhere, and builds the value of the nested structure.",
  ["inputs", "programs"], "all texts up to the stated length over the grammars' alphabets, several recursive grammars",
  "Tests parse a few nested texts; unbalanced, empty and deeply nested ones in all combinations are not covered.",
  [("rules look up their pattern when run", "src/parsers/rule_set.rs:RuleParser"), ("dynamic parsers", "src/parsers/dynamic.rs:DynParser"), ("rule syntax", "src/macros.rs:@rules")])
P("P28", "A rule stands for its pattern; rule sets do not interfere",
  "Using a rule gives the same matches, in the same order, with the same value, as writing its pattern in that place, wherever it is used: in other rules, lines, sections, repetitions. Several rule sets used side by side, inside one another, moved, stored, rebuilt or dropped keep their rules apart, whatever the rules are called.",
  ["inputs", "programs", "histories"], "arbitrary patterns as rules, several rule sets in one parse, rule sets built and dropped before",
  "No test runs two rule sets in one parse, or a rule inside a region next to another set's.",
  [("rule sets are registered per parse", "src/context.rs:ParseContext::register_rule_set"), ("identity of a rule set", "src/parsers/rule_set.rs:RuleSetParser"), ("regions keep the registered sets", "src/context.rs:ParseContext::with_slice")])
P("P29", "Collections hold exactly the collected values",
  "The set, map and deque patterns match exactly what the pattern inside matches and give the collection made of its values: sets and maps without duplicates, the last value winning for a repeated key, deques with all values in order.",
  ["inputs", "programs"], "all sequences of values of the stated length, arbitrary patterns inside for matching",
  "Tests collect one input each, with no repeated keys.",
  [("Collect", "src/parsers/collections.rs:Collect"), ("functions", "src/parsers/collections.rs:hash_map")])
P("P30", "aoc_parse() supplies a missing final newline and nothing else",
  "The helper for inputs stripped of their final newline gives the same result, value or error, as parsing the text with one newline appended if it does not already end in one, for every text including the empty one.",
  ["inputs"], "all texts up to the stated length",
  "It has no test at all.",
  [("aoc_parse", "src/util.rs:aoc_parse")])
P("P31", "Parsers keep no state",
  "A parser can be used any number of times, through references and clones, on other texts in between, after failures, and inside its own conversions, and the same text always gives the same result, value or error.",
  ["inputs", "histories"], "all pairs of texts up to the stated length, parsed one after another by the same parser",
  "Tests parse each text once; a leftover of an earlier parse shows only in a second one.",
  [("a fresh context for each parse", "src/traits.rs:Parser::parse_raw"), ("parsers are immutable", "src/traits.rs:Parser for &P"), ("lazily built regexes", "src/parsers/primitive.rs:regexes")])
P("P32", "Sub-parsers are driven by the published protocol",
  "A user-written parser used inside any pattern is started only at positions within its text, is asked for its next match only until it says there are none, is not used after that, is converted only after the whole pattern has matched and then without further matching, and everything started is released by the end of the parse. Inside a region it sees exactly the region's text.",
  ["inputs", "programs", "histories"], "all behaviours of user-written sub-parsers under every combinator",
  "The protocol's violations are invisible with built-in parsers, and the tests contain no other.",
  [("ParseIter contract", "src/traits.rs:ParseIter"), ("use by sequence", "src/parsers/sequence.rs:SequenceParseIter"), ("use by repetition", "src/parsers/repeat.rs:RepeatParseIter"), ("use by regions", "src/parsers/lines.rs:match_fully")])
P("P33", "The parse context keeps the foremost of the errors reported to it",
  "Whatever series of errors custom parsers report to the context, the error extracted is the first one reported at the greatest location, with the location, kind and texts it was reported with.",
  ["inputs", "histories"], "all series of reports up to the stated length at all locations",
  "No test reports errors directly; which report wins depends on the whole series.",
  [("report", "src/context.rs:ParseContext::report"), ("kinds of report", "src/context.rs:ParseContext::error_expected")])
P("P34", "Every form of the pattern language means what is written",
  "Names, calls, quoted text, groups, alternatives and rules, each with or without a label and under each quantifier, in any position and nesting, match and give the values the pattern language documents: quantifiers apply to the term just before them, labels bind the value of exactly their own term in the nearest enclosing conversion, unlabelled terms are matched but not bound, and arguments and alternatives are separated at the commas written.",
  ["inputs", "programs"], "patterns covering each form of term with each quantifier and label position, on all texts up to the stated length",
  "Each form of the macro is used somewhere in the tests, but not the combinations, and only with one text each.",
  [("parser! macro", "src/macros.rs:aoc_parse_helper"), ("grouping", "src/parsers/map.rs:single_value"), ("labels", "src/macros.rs:@reverse_pats")])
P("P35", "Malformed patterns are rejected at compile time with a clear message",
  "A pattern that breaks the documented syntax (a label without a pattern, a quantifier without a term, a non-greedy quantifier, rules without a final pattern or without semicolons) does not compile, and the compiler's message says what is missing; every pattern that follows the syntax compiles.",
  ["programs"], "all token sequences given to the macro",
  "A few malformed patterns are doc-tests; the rest of the token sequences are not tried.",
  [("syntax errors", "src/macros.rs:compile_error")])
P("P36", "Long inputs are parsed without deep recursion",
  "The depth of the native stack while matching, giving back, converting and releasing grows with the nesting of the pattern and of recursive rules, not with the length of the input or the number of its lines, items or sections.",
  ["inputs"], "all repeating patterns and all inputs of the stated lengths",
  "The tests parse inputs of a few hundred characters, on which recursion per item goes unnoticed.",
  [("an explicit stack of item matches", "src/parsers/repeat.rs:RepeatParseIter"), ("retries loop", "src/parsers/sequence.rs:first_tail_match"), ("leftover text retries loop", "src/traits.rs:Parser::parse_raw")])
NOT_APPLICABLE = [
    dict(property="P35", reason="What has to be decided happens inside rustc's macro expansion and type checker; there is no code of the crate to execute symbolically, and trying token sequences one by one would be enumeration of concrete runs."),
]
