FM = "fastMatcher.go"; FD = "fastMatcherDef.go"; TR = "transform.go"; TK = "jsontokenizer.go"
FV = "fastval.go"; FE = "fastlitescape.go"; FP = "fastlitparse.go"; BT = "bintree.go"
DIFF = "runtime monitoring: verdicts of the real matcher on generated workloads against an executable reference model"
NOTE = ("Held on the generated executions counted in the evidence file, no more; trusts the reference model in harness/model.go "
        "(itself cross-checked by running silent on the repaired tree) and Go's strconv/regexp/time/math.")
PROPS = [
dict(id="C01", title="A matcher's verdict is the expression's meaning on the document",
  statement="For every supported expression and every valid JSON document, matching the compiled expression returns exactly the verdict the expression's meaning gives on that document, without an error. The meaning is that of evaluating the expression tree directly over the parsed document, whatever the compiler merged, reordered or skipped.",
  **{"for": "All expression trees built from the public node kinds (constants, AND, OR, NOT, comparisons, EXISTS, NOT EXISTS, LIKE, ANY/EVERY/ANY-AND-EVERY, functions, time and regex literals) and all valid documents."},
  over=["inputs", "programs"],
  why="The tests sample a few dozen hand-written expressions over one fixed set of documents; the property ranges over all pairs of expressions and documents, and faults sit in rare combinations of shared path prefixes, skipped subtrees and already-decided branches.",
  files=[FM, FD, TR, BT, TK, FV],
  mech=[("single-pass evaluation", "fastMatcher.go matchExec"), ("compilation to an execution tree", "transform.go Transformer"), ("three-state bucket tree", "bintree.go binTreeState")],
  tech=DIFF, note=NOTE),
dict(id="C02", title="Equivalent spellings of one document give one verdict",
  statement="The verdict depends only on the JSON value of the document: whitespace, the order of members, escape sequences in keys and strings, the spelling of numbers and members the expression does not refer to never change it (except that a number written with a fraction or exponent counts as fractional where it is turned into text or enters integer arithmetic). Likewise the operands of AND and OR may be reordered without changing the verdict.",
  **{"for": "All valid documents, all spellings of each, all supported expressions."},
  why="Tests use one machine-generated compact spelling per document; the property ranges over all spellings of a value.",
  files=[TK, FM, FE, FV],
  mech=[("token scanner", "jsontokenizer.go"), ("skipping of values that are not needed", "fastMatcher.go skipValue"), ("key and string unescaping", "fastlitescape.go"), ("parse-order independent evaluation", "fastMatcher.go matchObjectOrArray")],
  tech="runtime monitoring: metamorphic oracle over re-spelled documents, plus the reference model", note=NOTE),
dict(id="C03", title="Field paths resolve to the value at that path and nothing else",
  statement="A field reference denotes exactly the value found by following its keys (and array indexes) from the document root or loop variable; EXISTS holds exactly when that value is present (null counts as present), and a comparison with an absent value does not hold. A path through a scalar, null, or the wrong kind of container is absent.",
  **{"for": "All paths (nested, sharing prefixes, prefixes of each other, odd and long keys, array indexes) and all documents."},
  why="Tests reference a handful of fixed top-level and nested names; the property ranges over all sets of overlapping paths and all document shapes.",
  files=[FM, TR, FD, TK],
  mech=[("execution tree of key nodes", "transform.go getExecNode"), ("slots for values seen earlier", "fastMatcher.go slots"), ("after-nodes", "fastMatcher.go matchAfter")],
  tech=DIFF, note=NOTE),
dict(id="C04", title="Comparisons order values of all types consistently and as documented",
  statement="Each of the six comparison operators returns what its meaning gives for the types and contents of its two operands: numbers by value, strings by their characters, booleans false before true, literals imposing their type where the other side converts, and unlike types by the fixed collation order. Structured values are equal exactly when they are the same JSON.",
  **{"for": "All pairs of operands (field/literal in either position, field/field) of all JSON types and all six operators."},
  why="Tests compare a few same-typed pairs; the property is about every pair of types, operators and orientations.",
  files=[FV, FM, "expression.go"],
  mech=[("typed comparison", "fastval.go Compare / CompareWithStatus"), ("conversion to the literal's type", "fastMatcher.go matchOp")],
  tech=DIFF, note=NOTE),
dict(id="C05", title="Numbers compare by mathematical value at full precision",
  statement="Integers, signed or unsigned, compare exactly over the whole 64-bit range; a number compares the same however it is spelled (exponents, fractions, leading minus, more than 64 bits), and a comparison between an integer and a float is that of their values as double precision floats.",
  **{"for": "All spellings of JSON numbers and numeric literals of every Go numeric type."},
  why="Tests use small integers and a few floats; errors sit at sign, width and exponent boundaries.",
  files=[FP, FV, TK],
  mech=[("number parsing", "fastlitparse.go"), ("numeric comparison", "fastval.go compareInt/compareUint/compareFloat"), ("number tokens", "jsontokenizer.go")],
  tech=DIFF, note=NOTE),
dict(id="C06", title="ANY, EVERY and ANY-AND-EVERY quantify over exactly the array's elements",
  statement="ANY holds when the body holds for at least one element, EVERY when it holds for all (vacuously for an empty array), ANY-AND-EVERY when the array is not empty and the body holds for all; over something absent or not an array none of them holds. What was found for one element never influences another, and conditions on other parts of the document may be used inside and beside the loop.",
  **{"for": "All arrays (empty, scalars, objects, nested), all bodies and nestings the compiler supports, all placements in a larger expression."},
  over=["inputs", "programs"],
  why="Tests have a few loops over two fixed arrays; the property ranges over array contents, bodies, nesting and the order in which outer fields are met.",
  files=[FM, TR, BT],
  mech=[("loop execution", "fastMatcher.go matchLoop"), ("resetting of decisions per element", "bintree.go resetNode / fastMatcher.go"), ("loop compilation", "transform.go transformLoop")],
  tech="runtime monitoring: reference model, plus a metamorphic oracle that matches every element on its own", note=NOTE),
dict(id="C07", title="Arithmetic and functions in expressions compute their mathematical value",
  statement="A comparison over arithmetic (add, subtract, multiply, divide, modulo, negate, powers) or numeric functions (absolute value, rounding, roots, logarithms, trigonometry) gives the verdict of the mathematical result: exact for integers that fit, double precision otherwise. A function of an absent or non-numeric value makes the comparison not hold, and nothing panics.",
  **{"for": "All supported functions, nested in any way, of all numeric fields and literals."},
  why="Tests apply each function to one or two values; the property ranges over nesting, operand kinds, signs and ranges.",
  files=["fastval_math.go", FM, TR],
  mech=[("function table", "fastMatcher.go resolveFunc"), ("arithmetic on values", "fastval_math.go")],
  tech=DIFF, note=NOTE),
dict(id="C08", title="Date comparisons follow the instants the texts denote",
  statement="Comparing a date field with a time literal, or two dates through the date function, orders them by the instant their ISO-8601 texts denote, with offsets and fractions taken into account. A text that is no date is never treated as one.",
  **{"for": "All date texts of the supported forms (year, year-month, date, date and time with or without offset and fraction), valid and invalid."},
  why="Tests compare a few well-formed dates; the property ranges over forms, offsets, fractions and invalid texts.",
  files=["fastval_date.go", FV, FM],
  mech=[("date parsing", "fastval_date.go GetNewTimeFastVal, FastValDateFunc"), ("time comparison", "fastval.go compareTime")],
  tech=DIFF, note=NOTE),
dict(id="C09", title="LIKE matches the regular expression against the string's characters",
  statement="A LIKE condition holds exactly when the value is a string whose characters, after unescaping, match the regular expression, whatever the spelling of the string in the document.",
  **{"for": "All strings (any Unicode, any escapes) and all regular expressions of the supported syntax, in and outside loops."},
  why="Tests match a few plain ASCII strings; the property ranges over escapes, Unicode and anchors.",
  files=[FM, FV, FE],
  mech=[("match operator", "fastMatcher.go matchOp OpTypeMatches"), ("regex on values", "fastval.go Matches")],
  tech=DIFF, note=NOTE),
dict(id="C10", title="Expressions compiled together each keep the result they have alone",
  statement="When several expressions are compiled into one matcher, the verdict reported for each equals the one it gives when compiled alone, and the overall result is whether any of them matched. Sharing of paths and conditions between them never shows, and neither does what a Transformer compiled before.",
  **{"for": "All lists of supported expressions and all documents."},
  over=["programs", "inputs"],
  why="Tests compile at most a few expressions together; interference depends on which fields they share and in which order decisions fall.",
  files=[FM, TR, BT],
  mech=[("merging of expressions", "transform.go Transform"), ("per-expression results", "fastMatcher.go ExpressionMatched"), ("bucket tree", "bintree.go")],
  tech="runtime monitoring: metamorphic oracle (together against alone), plus the reference model", note=NOTE),
dict(id="C11", title="A reused matcher behaves like a fresh one after reset",
  statement="After a reset, a matcher gives for the next document the same verdict, per-expression results, status and error as a new matcher, whatever documents (matching, not matching, malformed, truncated) it processed before. Documents never modify the compiled definition.",
  **{"for": "All histories of documents over one matcher and several matchers over one definition."},
  over=["histories", "inputs"],
  why="Tests reuse a matcher over a fixed file of valid documents; leftovers depend on the order of documents and on where the previous one stopped.",
  files=[FM, BT],
  mech=[("reset", "fastMatcher.go Reset"), ("bucket state reset", "bintree.go Reset")],
  tech="runtime monitoring: history oracle (reused matcher against a fresh one, step by step)", note=NOTE),
dict(id="C13", title="Matching arbitrary bytes is safe",
  statement="Matching any byte sequence terminates without a panic, never writes to the input, never reads beyond its end, and needs memory bounded by the input; malformed input gives an error (and then never a match) or a verdict, and valid JSON never gives an error. The verdict does not depend on bytes outside the input.",
  **{"for": "All byte sequences (truncated at any point, corrupted, random, deeply nested, very long) and all supported expressions."},
  why="Tests feed only valid documents; the property ranges over all byte strings.",
  files=[TK, FM, FE, FP, FV],
  mech=[("bounds checks of the scanner", "jsontokenizer.go"), ("error returns", "fastMatcher.go matchExec")],
  tech="runtime monitoring: hostile inputs with guard bytes around the buffer, panic, hang and memory watchdogs", note="Held on the generated inputs counted in the evidence file; a hang is judged by 15 s of CPU on one input (confirmed alone with 25 s), memory by a 3 GB limit."),
dict(id="C22", title="Malformed tokens in what a match reads are reported",
  statement="When deciding a verdict requires scanning past a malformed token of the document (a misspelt literal, an incomplete or misspelt number, a bad escape sequence or a control character in a string or key, an unterminated string, a byte that begins no token), the match returns an error, whether the value it belongs to is looked at, skipped, inside a loop's array or at the end of the input.",
  **{"for": "All documents with one malformed token at any position, all expressions that cannot be decided before it."},
  why="Tests match only valid documents; every state of the scanner has its own error edges, at every position and at the end of the input.",
  files=[TK, FM],
  mech=[("token state machine", "jsontokenizer.go Step"), ("errors of skipped values", "fastMatcher.go leaveValue/skipValue")],
  tech="runtime monitoring: fault injection into documents (one spoilt token), error required", note="Held on the generated documents counted in the evidence file; errors of structure made of well-formed tokens are not claimed to be reported."),
dict(id="C14", title="AND, OR and NOT compose by their truth tables",
  statement="The verdict of a composite expression is the truth function of the verdicts of its parts, each evaluated on the same document; no skipped or already-decided part, and no order in which fields occur, changes it.",
  **{"for": "All trees of AND, OR and NOT over arbitrary conditions, all assignments of the conditions, all orders of fields in the document."},
  over=["inputs", "programs"],
  why="Tests evaluate a few trees of depth two; the resolution of the bucket tree depends on the order in which leaves are decided.",
  files=[BT, TR, FM],
  mech=[("propagation of decided nodes", "bintree.go MarkNode/checkNode"), ("tree construction", "transform.go transformMergePieces")],
  tech="runtime monitoring: exhaustive truth assignments per generated tree, and a parts-against-whole oracle", note=NOTE),
dict(id="C23", title="The collation status tells whether operands could not be reconciled",
  statement="The status reported with a verdict says that values of unreconcilable types were compared exactly when that happened for the conditions evaluated; it is never set when all operands were absent or reconcilable, and never survives a reset.",
  **{"for": "All single comparisons over all pairs of types; composites whose operands all reconcile, and composites whose result depends on operands that do not."},
  why="Tests check the status on a few pairs; the property ranges over all pairs of types and histories.",
  files=[FV, FM],
  mech=[("status of comparison", "fastval.go CompareWithStatus"), ("status of the matcher", "fastMatcher.go MatchWithStatus")],
  tech=DIFF, note=NOTE),
dict(id="C15", title="A filter expression text means what it says",
  statement="A filter-language text is parsed into an expression whose verdict on every document is the meaning of the text: OR binds weaker than AND, AND weaker than NOT, parentheses override both, arithmetic has its usual precedence and order, field paths (quoted or not, with members and indices), strings, numbers, booleans, dates, EXISTS, IS [NOT] NULL, IS [NOT] MISSING, REGEXP_CONTAINS and functions denote what the grammar gives them.",
  **{"for": "All well-formed texts of the filter grammar (any nesting, keyword case, spacing, quoting) and all documents."},
  over=["programs", "inputs"],
  why="Tests parse a few dozen texts and mostly look at the printed tree; the property ranges over all combinations of operators, quoting and nesting.",
  files=["filterExprParser.go", "constants.go", TR, FM],
  mech=[("grammar and lexer", "filterExprParser.go FilterExpression"), ("output of expression trees", "filterExprParser.go OutputExpression"), ("entry point", "filterExprParser.go GetFilterExpressionMatcher")],
  tech="runtime monitoring: generator of texts with their meaning; the matcher of the parsed text against the reference model", note=NOTE),
dict(id="C16", title="The filter language rejects malformed text with an error",
  statement="Parsing any text as a filter expression terminates with a matcher or an error, never a panic, and a matcher that was returned never panics on a document. Texts that violate the grammar (unbalanced parentheses, missing operands, trailing or unknown input, invalid regular expressions) give an error instead of being half understood.",
  **{"for": "All texts: random token sequences, damaged well-formed texts, deep nesting."},
  why="Tests try a handful of malformed texts; the property ranges over all texts.",
  files=["filterExprParser.go", TR],
  mech=[("parser entry", "filterExprParser.go NewFilterExpressionParser"), ("matcher construction", "filterExprParser.go GetFilterExpressionMatcher"), ("regex validation", "filterExprParser.go OutputExpression")],
  tech="runtime monitoring: hostile texts (token soup, mutated well-formed texts, deep nesting) with panic, hang and memory watchdogs and a grammar oracle for damage known to be malformed", note="Held on the generated texts counted in the evidence file."),
dict(id="C17", title="A simple expression text means what it says",
  statement="A text of the simple expression language (ParseSimpleExpression) is parsed into an expression whose verdict on every document is the meaning of the text: comparisons in all their spellings (==, =, !=, >=, IS NULL, IS NOT NULL, EXISTS, LIKE, ...), AND and OR grouped from left to right except where parentheses group otherwise, field paths with members, array indices, quoted and backticked names and names of several words, numbers and quoted strings as values, true and false as conditions, and the built-in functions and constants with their arguments denote what they stand for.",
  **{"for": "All well-formed texts of the simple language (any chain of conditions, nesting of parentheses and functions, spacing and quoting) and all documents."},
  over=["programs", "inputs"],
  why="Tests parse a few dozen texts and compare mostly printed trees; the parser is a hand-written state machine over words, whose behaviour depends on the combination of quoting, spacing, parentheses and position.",
  files=["simpleParser.go", "constants.go", TR, FM],
  mech=[("tokens, modes and parentheses", "simpleParser.go expressionParserContext"), ("output of expression trees", "simpleParser.go outputExpression"), ("entry point", "simpleParser.go ParseSimpleExpression")],
  tech="runtime monitoring: generator of texts with their meaning; the matcher of the parsed text against the reference model", note=NOTE),
dict(id="C26", title="The simple expression language rejects malformed text with an error",
  statement="Parsing any text as a simple expression terminates with an expression or an error, never a panic or hang, and an expression that was returned can be compiled and matched without a panic. Malformed texts (unbalanced parentheses or quotes, missing operands or operators, dangling AND/OR, invalid regular expressions) give an error.",
  **{"for": "All texts: random token sequences, damaged well-formed texts, deep nesting."},
  why="Tests try a handful of malformed texts; the property ranges over all texts.",
  files=["simpleParser.go", TR],
  mech=[("parser entry", "simpleParser.go ParseSimpleExpression"), ("token classification", "simpleParser.go getCurrentToken"), ("parenthesis bookkeeping", "simpleParser.go handleCloseParenBookKeeping")],
  tech="runtime monitoring: hostile texts (token soup, mutated well-formed texts, deep nesting) with panic, hang and memory watchdogs and a grammar oracle for damage known to be malformed", note="Held on the generated texts counted in the evidence file."),
dict(id="C12", title="Concurrent use gives the sequential results without data races",
  statement="Matchers over one shared definition used by different goroutines at once, and expressions parsed, compiled, printed, counted, compacted or matched, values compared or converted and items removed at once, give exactly the results they give alone, and no execution has a data race. Shared documents, expressions and definitions are not modified by use.",
  **{"for": "All schedules of any number of goroutines, each with its own matcher, over all definitions, documents and texts."},
  over=["schedules", "inputs"],
  why="Tests are single-threaded; whether state is shared by mistake only shows under concurrency and only in some interleavings.",
  files=[FM, FD, BT, TR, FP, "filterExprParser.go", "simpleParser.go"],
  mech=[("per-matcher state", "fastMatcher.go NewFastMatcher"), ("shared definition", "fastMatcherDef.go MatchDef"), ("conversion buffers", "fastlitparse.go fastLitParser"), ("parser state", "filterExprParser.go / simpleParser.go package variables")],
  tech="runtime monitoring: Go race detector under stress, plus offline comparison of per-goroutine logs with the sequential results",
  note="Held on the schedules the runtime produced (overlapping operations and distinct interleavings are counted in the evidence file); the race detector sees only conflicting accesses of executions that ran."),
dict(id="C18", title="An expression written as JSON denotes that expression",
  statement="ParseJsonExpression turns the JSON form of an expression into an expression with exactly that meaning on every document, however the JSON is spaced or escaped; JSON that is malformed, or whose lists are too short, of an unknown kind or with operands of a wrong type, gives an error, never a panic.",
  **{"for": "All JSON texts: forms of all supported expressions, damaged ones, and arbitrary nested lists."},
  over=["programs", "inputs"],
  why="Tests read a few dozen well-formed expressions; the property ranges over all JSON texts.",
  files=["expression_json.go", "expression.go", TR],
  mech=[("reading of lists", "expression_json.go ParseJsonExpression"), ("operands", "expression_json.go parseJsonSubexpr / parseJsonLoop")],
  tech="runtime monitoring: matcher of the parsed JSON against the reference model; hostile lists with panic oracle", note=NOTE),
dict(id="C19", title="Removing items from an object keeps exactly the rest",
  statement="Removing items by key from a JSON object removes exactly the members with these keys, at any depth, and nothing else: what remains is valid JSON with the same values in the same order, the removed values are reported unchanged, counts and flags agree with it, the source is untouched and the destination never overrun. Sources that are cut short, unbalanced or have a malformed token, and destinations that are too short, give an error, never a panic.",
  **{"for": "All JSON objects in all spellings, all sets of keys, all destination sizes, and arbitrary bytes."},
  why="Tests remove keys from a few compact objects; commas, nesting, position (first, last, only), escapes and sizes matter.",
  files=["jsonComposer.go", TK],
  mech=[("composition of the rest", "jsonComposer.go MatchAndRemoveItemsFromJsonObject"), ("token scanner", "jsontokenizer.go")],
  tech="runtime monitoring: independent removal over the parsed source as oracle, guard bytes around buffers, hostile sources", note=NOTE),
dict(id="C20", title="The slow matcher and the fast matcher agree",
  statement="On expressions both support (AND, OR, ANY over arrays, comparisons of fields with fields and with string, boolean and floating point literals) and documents in which the compared values exist and are of one type, the slow matcher, which walks the parsed document, and the fast matcher give the same result for every expression, and neither panics or gives an error; the slow matcher can be reused after a reset and reports malformed documents; on other documents it neither panics nor reports a match along with an error.",
  **{"for": "All expressions and documents of the common fragment."},
  over=["inputs", "programs"],
  why="Tests compare the two matchers on a few expressions over one document set; agreement ranges over all expressions and documents.",
  files=["slowmatcher.go", FM, "matcher.go"],
  mech=[("tree walking evaluation", "slowmatcher.go matchOne / compareExprs"), ("single-pass evaluation", "fastMatcher.go matchExec")],
  tech="runtime monitoring: differential oracle between the two matchers, with the reference model as a third voter", note=NOTE),
dict(id="C21", title="Compacting an expression preserves its verdict",
  statement="CompactExpression returns an expression with the same verdict on every document as the original, with constants that decide or do not affect AND and OR folded away, and leaves the original unchanged.",
  **{"for": "All expressions with constants anywhere in them and all documents."},
  over=["programs", "inputs"],
  why="Tests do not compact expressions with constants in loops, negations or deep in AND/OR trees.",
  files=["expression_compact.go", TR],
  mech=[("folding of AND and OR", "expression_compact.go compactExpressionAnd / compactExpressionOr"), ("loops", "expression_compact.go compactExpressionAnyIn")],
  tech="runtime monitoring: matcher of the compacted expression against the reference model of the original", note=NOTE),
dict(id="C24", title="Values compare in one consistent order and convert faithfully",
  statement="Comparing two values one way round is the opposite of comparing them the other way round, with the same validity; equality agrees with comparison; numbers, strings, booleans and times are ordered by what they stand for whatever Go or JSON type they were built from; a conversion that reports success gives the value it stands for, and numbers, booleans and strings always convert to text, numbers and booleans to a boolean, numbers to a float, integers to the integer types they fit; no comparison or conversion panics.",
  **{"for": "All pairs of values built by the library's constructors (every Go numeric type, strings in each representation, booleans, null, times, arrays, objects, missing and invalid)."},
  why="Tests compare a few pairs of values one way round; order laws range over all pairs of types and values.",
  files=[FV, "fastval_date.go"],
  mech=[("comparison", "fastval.go Compare / compareInternal / Collate"), ("conversions", "fastval.go AsInt / AsUint / AsFloat / AsBoolean / AsString / AsTime"), ("constructors", "fastval.go NewFastVal")],
  tech="runtime monitoring: order laws and independent conversions checked on generated pairs of values", note=NOTE),
dict(id="C25", title="Expressions and definitions describe themselves truthfully",
  statement="The statistics of an expression count its loops, loop depth, ANDs, ORs, fields and values exactly; its printed form names its fields, variables (as they are printed alone), literals, functions, operators and connectives in order; the printed form of a parsed filter text (FilterExpression.String) has the parts of the text, apart from white space, quotes, the spelling of numbers and of = and <>; printed statistics show their numbers; a printed compiled definition shows every element, operation, loop, bucket and condition it holds; printing never panics.",
  **{"for": "All supported expressions and filter texts."},
  over=["programs"],
  why="Tests print a few expressions and definitions; not every kind of node and nesting occurs in them.",
  files=["expressionstats.go", "expression.go", "filterExprParser.go", FD, BT],
  mech=[("statistics", "expressionstats.go scanOne"), ("printed forms", "expression.go String, filterExprParser.go String"), ("printed definitions", "fastMatcherDef.go MatchDef.String, bintree.go binTree.String")],
  tech="runtime monitoring: counts and parts of the printed form against an independent walk of the generated tree", note=NOTE),
]
