#!/usr/bin/env python3
"""Source of /verif/properties.jsonl. Run it to regenerate the file."""
import json, os

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}

PROPS = [
P("C01", "Diagnostics and errors are never silently lost",
  "Whenever a step of parsing, evaluating, decoding, transforming or command-line processing obtains diagnostics or an error from an operation it calls, or creates one itself, that information reaches the diagnostics or error the public operation hands to its caller on every path, unless it is known to be empty or is replaced by another error. No code path can accept an input after discarding the error that was found in it.",
  ["inputs", "programs", "fault_sequences"],
  "for every input and every failure of a nested operation, along every path through every function in the repository",
  "Tests exercise some failing inputs per function; most combinations of a nested failure with each surrounding path (early return, loop iteration, retained earlier diagnostics) are never executed, and a dropped diagnostic leaves a plausible value behind.",
  ["hcl", "hcl/hclsyntax", "hcl/json", "hcldec", "gohcl", "hclwrite", "hclpack", "hclparse", "ext", "cmd", "hcltest"],
  [("accumulate-and-return of diags in each function", "all packages"),
   ("Diagnostics.Append/Extend", "hcl/diagnostic.go")],
  observe=["the hcl.Diagnostics or error result of exported functions and of Body/Expression methods"]),

P("C02", "Malformed syntax is always reported as an error",
  "If the native-syntax or JSON parser gives up on a construct, passes over a token it did not expect, accepts a bracket that is left open or closed by another kind, stops before the end of the input or puts a placeholder in place of something missing, then the diagnostics returned to the caller contain an error. Malformed source text is never accepted silently with part of it skipped.",
  ["inputs"],
  "for every byte sequence given to the configuration, expression, template, traversal and JSON parsers",
  "The tests list a few hundred malformed inputs; each recovery path in the parser needs its own malformed token sequence and most of them have none.",
  ["hcl/hclsyntax/parser.go", "hcl/hclsyntax/parser_template.go", "hcl/hclsyntax/parser_traversal.go", "hcl/hclsyntax/public.go", "hcl/json/parser.go"],
  [("recovery functions and the recovery flag", "hcl/hclsyntax/parser.go recover/recoverAfterBodyItem/setRecovery"),
   ("token sanity checks", "hcl/hclsyntax/token.go checkInvalidTokens")],
  state=[("recovery", "an error was already reported, follow-up errors are muted", "parser.recovery")],
  observe=["ParseConfig, ParseExpression, ParseTemplate, ParseTraversalAbs diagnostics"]),

P("C03", "Newline significance is restored after every construct",
  "Newlines are ignored inside parentheses, square brackets, interpolations, template directives, call arguments and for expressions, separate items inside object braces, and after the parser leaves any construct, whether it parsed well or failed, newline handling is exactly what it was before. Hence no input can make later lines of the same file be parsed under the wrong newline rule, and parsing never aborts on unbalanced newline handling.",
  ["inputs"],
  "for every token sequence, including malformed ones that leave constructs through error paths",
  "The error exits of each construct would each need an input where a later construct depends on newline handling; tests have almost none of these.",
  ["hcl/hclsyntax/peeker.go", "hcl/hclsyntax/parser.go", "hcl/hclsyntax/parser_template.go", "hcl/hclsyntax/parser_traversal.go", "hcl/hclsyntax/public.go"],
  [("PushIncludeNewlines/PopIncludeNewlines pairing", "hcl/hclsyntax/peeker.go"),
   ("AssertEmptyIncludeNewlinesStack", "hcl/hclsyntax/public.go")],
  state=[("IncludeNewlinesStack", "stack of newline modes", "hcl/hclsyntax/peeker.go")]),

P("C04", "Parsing terminates on every input",
  "Parsing any finite byte sequence, in native syntax, template syntax or JSON, finishes: every loop of the parsers makes progress on each round and stops when the input ends, and none of their recursions repeats without consuming input. Truncated or unbalanced input cannot make a parser spin forever.",
  ["inputs"],
  "for every finite byte sequence, in particular every truncation of a valid document",
  "A non-terminating loop needs the specific truncation that reaches it; tests contain few truncated inputs and none per loop.",
  ["hcl/hclsyntax/parser.go", "hcl/hclsyntax/parser_template.go", "hcl/hclsyntax/parser_traversal.go", "hcl/hclsyntax/peeker.go", "hcl/json/parser.go", "hcl/json/scanner.go", "hcl/json/peeker.go"],
  [("end-of-file exits of parser loops", "hcl/hclsyntax, hcl/json"),
   ("Read advances the peeker", "hcl/hclsyntax/peeker.go, hcl/json/peeker.go")]),

P("C05", "Null, unknown and mistyped values never crash evaluation or decoding",
  "Whatever values the caller's variables and functions produce (null, unknown, of an unexpected type, or dynamically typed), evaluating an expression, decoding or expanding a body and generating text from it yields a value or diagnostics; an operation that is only defined for known, non-null values of one type is applied only after that has been established.",
  ["inputs", "configurations"],
  "for every value bound to every variable, function result, attribute or key used by a configuration",
  "Tests evaluate each construct with a handful of values; null, unknown and dynamic values are combined with only some of the positions where a value can be used.",
  ["hcl/ops.go", "hcl/traversal.go", "hcl/hclsyntax/expression.go", "hcl/hclsyntax/expression_template.go", "hcl/json/structure.go", "hcldec/spec.go", "gohcl/decode.go", "ext/dynblock", "ext/include", "ext/userfunc", "hcltest/mock.go", "cmd/hcldec"],
  [("IsNull/IsKnown/type tests before AsString, True, ElementIterator, LengthInt, EncapsulatedValue, ...", "all evaluation and decoding code")]),

P("C06", "Evaluating, inspecting and decoding never modify their inputs",
  "Evaluating an expression, listing its variables, reading a body's content or attributes, walking a tree, decoding a body and deriving a schema or type leave the parsed configuration, the evaluation scope, the schema, the decoding specification and the packed body they were given unchanged (the only writable target is the destination the caller supplies). Repeating or interleaving such operations on shared objects, from any number of goroutines, therefore gives the same results as doing each once.",
  ["schedules", "histories", "inputs"],
  "for every sequence and interleaving of read operations on shared objects",
  "Tests call each read operation once on fresh objects from a single goroutine; sharing needs repeated or concurrent use and aliasing that only appears for particular slice capacities.",
  ["hcl", "hcl/hclsyntax", "hcl/json", "hcldec", "gohcl", "hclpack", "ext/dynblock", "ext/typeexpr", "ext/userfunc", "ext/transform"],
  [("fresh copies made by Content/PartialContent/Expand", "all Body implementations"),
   ("EvalContext.NewChild", "hcl/eval_context.go"),
   ("locked per-context value map of the splat placeholder", "hcl/hclsyntax/expression.go AnonSymbolExpr")]),

P("C07", "No operation changes package-level state",
  "Once the program has been initialised, no operation of the library packages writes to state shared by the whole process, so operations on unrelated objects in different goroutines cannot influence or race with each other.",
  ["schedules", "histories"],
  "for every pair of operations on distinct objects, in any order or at the same time",
  "The tests are sequential and never run two library operations at the same time.",
  ["hcl", "hcl/hclsyntax", "hcl/json", "hcldec", "gohcl", "hclwrite", "hclpack", "ext", "hcltest", "hcled", "hclparse"],
  [("package-level variables are tables filled at initialisation", "all packages")]),

P("C08", "Reported variables cover everything evaluation reads",
  "The variables reported for an expression, or for a body read through a decoding specification or a block schema, include every variable that evaluating or decoding it may look up, apart from names the construct itself defines; an application that supplies exactly the reported variables never gets an unknown-variable error. Names introduced by a construct hide outer variables only inside the part of the construct where evaluation also sees them.",
  ["inputs", "programs"],
  "for every expression, body and decoding specification, with arbitrary nesting",
  "Tests compare variable lists for a few expressions; every sub-expression position of every construct has to be covered, also through wrappers and nested specifications.",
  ["hcl/hclsyntax/expression.go", "hcl/hclsyntax/expression_template.go", "hcl/hclsyntax/variables.go", "hcl/hclsyntax/walk.go", "hcl/json/structure.go", "hcldec/spec.go", "hcldec/variables.go", "ext/dynblock/variables.go"],
  [("walkChildNodes", "hcl/hclsyntax"), ("ChildScope local names", "hcl/hclsyntax/variables.go"), ("variablesNeeded", "hcldec/spec.go")]),

P("C09", "Every diagnostic is well formed",
  "Every diagnostic that can be returned has a valid severity and a summary, and has a subject range whenever it has a context range, so it can be rendered, located and counted as an error. A problem that makes an operation fail is always given error severity.",
  ["inputs"],
  "for every diagnostic constructed anywhere in the repository",
  "Each diagnostic needs its own failing input, and tests mostly count diagnostics without looking at their fields.",
  ["hcl", "hcl/hclsyntax", "hcl/json", "hcldec", "gohcl", "hclpack", "hclparse", "ext", "cmd", "hcltest"],
  [("hcl.Diagnostic literals", "all packages")]),

P("C10", "Each returned item describes its own element",
  "When an operation produces one result per element of a collection (attributes, blocks, diagnostics, ranges, closures), every result keeps describing the element it was made for; results never share storage that later rounds of the same loop overwrite.",
  ["inputs"],
  "for every collection with two or more elements",
  "The tests of such loops mostly have a single element, or look only at parts that are not shared.",
  ["hcl", "hcl/hclsyntax", "hcl/json", "hcldec", "gohcl", "hclpack", "hclwrite", "ext", "cmd"],
  [("loop variables are not referenced after their round", "all packages")]),

P("C11", "Reading a body accounts for every item exactly once",
  "For every kind of body (native, JSON, merged, packed, dynamic-expanded, transformed, mock): reading its content with a schema returns the items the schema asks for, reports every other item and every missing required attribute as an error, and reading part of the content leaves exactly the unread items in the remaining body. An item already read from a body is never returned or complained about again when the remainder is read.",
  ["inputs", "configurations", "histories"],
  "for every body, schema and sequence of partial reads",
  "Tests read most bodies once with one schema; sequences of partial reads over each kind of body are hardly covered.",
  ["hcl/merged.go", "hcl/hclsyntax/structure.go", "hcl/json/structure.go", "hclpack/structure.go", "ext/dynblock/expand_body.go", "ext/dynblock/unknown_body.go", "ext/transform", "hcltest/mock.go"],
  [("hidden item sets", "each Body implementation"), ("required/unsupported checks", "each Body implementation")]),

P("C12", "Formatting changes nothing but spacing",
  "Formatting source text changes only the number of spaces before tokens: every token keeps its bytes and its place, none is added, dropped, merged or reordered.",
  ["inputs"],
  "for every byte sequence, including ones with syntax errors",
  "Tests compare some fifty snippets; the formatter runs on arbitrary token sequences.",
  ["hclwrite/format.go", "hclwrite/public.go", "hclwrite/tokens.go", "cmd/hclfmt/main.go"],
  [("format writes only SpacesBefore", "hclwrite/format.go")]),

P("C13", "Unmodified source survives the writer's parser byte for byte",
  "Parsing a valid source file for modification and writing it out again yields every token of the source in the original order: no token is lost, duplicated or moved, whatever comments, parentheses, newlines, index forms or nesting it contains.",
  ["inputs"],
  "for every valid native-syntax file",
  "The round-trip tests hold a few dozen snippets; a lost token needs the syntactic position whose tokens are not carried over.",
  ["hclwrite/parser.go", "hclwrite/ast.go", "hclwrite/node.go", "hclwrite/tokens.go"],
  [("before/within/after partition of the token stream", "hclwrite/parser.go")]),

P("C14", "Edits of a writable file keep its structure consistent",
  "After any sequence of edits (setting, replacing, appending, clearing), what lookups report about a writable body is exactly what it writes out: every attribute or block that can be looked up is part of the output, everything removed is gone from both, values returned by an edit are the elements it put in place, and the parts keep their order.",
  ["histories"],
  "for every sequence of edit operations on a parsed or new file",
  "Tests apply one edit to a fresh body and compare the output once.",
  ["hclwrite/ast.go", "hclwrite/ast_body.go", "hclwrite/ast_attribute.go", "hclwrite/ast_block.go", "hclwrite/node.go"],
  [("node list links", "hclwrite/node.go"), ("items set", "hclwrite/ast_body.go")]),

P("C15", "Generated tokens represent all of a value or traversal",
  "Source tokens generated for a value or a traversal contain every part of it, and every character that a quoted string generated by the writer escapes is written as an escape the reader decodes to the same character; characters with a special meaning in quoted strings are always escaped.",
  ["inputs"],
  "for every value and traversal that can be written",
  "Tests generate a handful of values; parts of a traversal or rarely used characters are not among them.",
  ["hclwrite/generate.go", "hcl/hclsyntax/parser.go", "hcl/hclsyntax/parser_template.go"],
  [("escapeQuotedStringLit / string literal decoding", "hclwrite/generate.go, hcl/hclsyntax/parser.go")]),

P("C16", "Packed bodies survive their JSON form",
  "Encoding a packed body to JSON and decoding it again gives an equal body: every attribute, block, label, expression, syntax kind and source range comes back in its own place. Decoding arbitrary, damaged JSON yields an error or a body and never crashes.",
  ["inputs"],
  "for every packed body and every JSON text",
  "One round trip of one sample is tested; a range or field that the two directions treat differently is only seen when its values differ from its neighbours'.",
  ["hclpack/json_marshal.go", "hclpack/positions_packed.go", "hclpack/structure.go", "hclpack/vlq.go"],
  [("forJSON/decode pairs", "hclpack/json_marshal.go"), ("pack/unpack of positions", "hclpack/positions_packed.go")]),

P("C17", "Decoding specifications agree with their schema, type and variables",
  "For every kind of decoding specification, nested at will: the schema requested contains exactly what decoding reads, nested specifications on the same body are all taken into account, each block decoded has its value in the result unless an error is reported, the result has the implied type also when items are absent, repeated or unknown, and every kind of specification can be serialised with the provided registration.",
  ["programs", "inputs"],
  "for every specification tree and every body",
  "Tests use shallow specifications; each combination of specification kind, nesting and missing or repeated items would need its own test.",
  ["hcldec/spec.go", "hcldec/decode.go", "hcldec/schema.go", "hcldec/variables.go", "hcldec/gob.go", "hcldec/public.go"],
  [("Spec interface methods of each kind", "hcldec/spec.go"), ("gob registration", "hcldec/gob.go")]),

P("C18", "Struct tags mean the same in schema, decoding and encoding",
  "For every Go struct type with field tags, the schema implied by the type, decoding into it and encoding from it give each tagged field the same role (attribute, optional attribute, block, label, remainder) and the same name, and optional attributes are exactly those not required by the schema.",
  ["programs", "inputs"],
  "for every tagged struct type and every body",
  "Tests have a few struct types and check schema, decoding and encoding on different ones.",
  ["gohcl/schema.go", "gohcl/decode.go", "gohcl/encode.go"],
  [("shared field tag table", "gohcl/schema.go getFieldTags")]),

P("C19", "Wrapped expressions and bodies keep their abilities",
  "An expression that is a literal list, map, call, keyword or traversal in the configuration is recognised as such by static analysis also when it reaches the application through a wrapper (dynamic blocks, object keys, packed bodies). Bodies wrapped by dynamic-block expansion or by a deep transformation stay wrapped, with the same scope and settings, in everything read from them: attributes, nested blocks and remainders.",
  ["inputs", "programs"],
  "for every wrapper and every optional ability of an expression, and every way of reading a wrapped body",
  "Optional abilities are found by dynamic type tests, so a method with a slightly different signature or a missed wrapper compiles and merely answers 'no'.",
  ["hcl/expr_list.go", "hcl/expr_map.go", "hcl/expr_call.go", "hcl/expr_unwrap.go", "hcl/traversal_for_expr.go", "hcl/hclsyntax/expression.go", "hcl/json/structure.go", "ext/dynblock", "ext/transform"],
  [("optional interfaces ExprList, ExprMap, ExprCall, AsTraversal, UnwrapExpression", "hcl/*.go")]),

P("C20", "Operators, brackets and escapes follow the language specification",
  "The binary and unary operators have the meaning, precedence and associativity of the language specification, every opening bracket kind is closed by its own closing kind, and every invalid token kind is rejected. The escape sequences of quoted strings stand for the characters the specification gives them.",
  ["inputs"],
  "for every expression built from the operators",
  "Tests cover operators mostly one at a time; precedence between each pair is not covered.",
  ["hcl/hclsyntax/expression_ops.go", "hcl/hclsyntax/token.go", "hcl/hclsyntax/parser.go", "hcl/hclsyntax/spec.md", "hclwrite/format.go"],
  [("binaryOps table", "hcl/hclsyntax/expression_ops.go")]),

P("C21", "Order-sensitive output does not depend on map iteration",
  "Anything whose order the caller can observe in a result (written tokens, encoded bytes, lists of blocks, attributes, schema entries, labels, names) is the same each time the same operation is applied to the same input; only the relative order of diagnostics is left open.",
  ["inputs", "schedules"],
  "for every input and every iteration order the Go runtime may choose",
  "Map order changes between runs and small maps often come out in order, so tests pass by luck.",
  ["hcl", "hcl/hclsyntax", "hcl/json", "hcldec", "gohcl", "hclwrite", "hclpack", "ext"],
  [("sorting after map iteration", "all packages")]),

P("C22", "Syntax tree nodes carry real source ranges",
  "Every expression, block, attribute, traversal step and diagnostic subject produced by parsing has ranges that come from the tokens it was built from; no node is given an empty default range on any path, also when recovering from errors. A range does not end before it starts, and that of a node has its parts in it.",
  ["inputs"],
  "for every byte sequence",
  "A default range appears only on particular paths and is invisible unless the range is inspected.",
  ["hcl/hclsyntax/parser.go", "hcl/hclsyntax/parser_template.go", "hcl/hclsyntax/parser_traversal.go", "hcl/json/parser.go"],
  [("ranges computed from first and last token", "hcl/hclsyntax, hcl/json")]),

P("C23", "Type expressions and their text form are inverse",
  "Every type constraint the type-expression reader accepts is written by the type-string writer with the same constructor, primitive name or keyword, with all its attributes and elements, and is accepted back as the same type. Concrete-type reading rejects the any keyword wherever it is nested. The type names and constructors of hcldec specification files denote the same types.",
  ["inputs"],
  "for every type expression, arbitrarily nested",
  "Tests list a dozen types.",
  ["ext/typeexpr/get_type.go", "ext/typeexpr/public.go", "cmd/hcldec/type_expr.go"],
  [("keyword and constructor switches", "ext/typeexpr")]),

P("C24", "Fixed positions are only read from sequences known to be long enough",
  "Whatever the number of blocks, labels, arguments, tokens, path steps or characters in the input, no operation reads a fixed position of a sequence without first establishing that the sequence is that long; too short or too long input leads to diagnostics, never to a crash.",
  ["inputs"],
  "for every input and every indexing operation with a constant or end-relative position",
  "Each out-of-range access needs the one input with the wrong count.",
  ["hcl", "hcl/hclsyntax", "hcl/json", "hcldec", "gohcl", "hclpack", "hclwrite", "ext", "cmd"],
  [("length guards", "all packages")]),

P("C25", "A missing result is never used",
  "An operation that may hand back no file, body, block or expression together with diagnostics is followed by a check before the result is used, so that unreadable files and failed lookups end in diagnostics and never in a crash.",
  ["inputs", "fault_sequences"],
  "for every failure of a nested operation that returns an absent result",
  "Failures of the nested operation (an unreadable file, a missing attribute) are mostly untested at the call sites.",
  ["hclparse/parser.go", "ext/include", "ext/transform", "cmd", "hcldec", "gohcl", "hclwrite"],
  [("nil checks after calls that may return nil", "all packages")]),

P("C26", "Element placeholders of splats are scoped to one evaluation",
  "While a splat expression evaluates its elements, the placeholder for the current element is visible only to that evaluation and is withdrawn on every way out, and access to it is serialised, so that the same parsed expression can be evaluated in any number of goroutines, each with its own evaluation context, and nested splats do not see each other's elements.",
  ["schedules", "histories"],
  "for every interleaving of evaluations of the same expression",
  "Tests evaluate sequentially.",
  ["hcl/hclsyntax/expression.go"],
  [("per-context values guarded by a lock", "hcl/hclsyntax/expression.go AnonSymbolExpr")]),

P("C27", "Command-line tools fail visibly and keep user files safe",
  "The command-line tools show every error they meet and then exit with a failure status, and the source formatter overwrites a file only when asked to, only with the formatted text of that same file, and never when reading or checking it failed.",
  ["inputs", "fault_sequences", "configurations"],
  "for every combination of options, input files and failing operations",
  "The tools' main functions have no unit tests of failures.",
  ["cmd/hclfmt/main.go", "cmd/hcldec/main.go", "cmd/hclspecsuite/main.go"],
  [("exit status handling", "cmd/*/main.go"), ("processFile", "cmd/hclfmt/main.go")]),

P("C28", "Placeholders stand for unknown inputs or reported errors",
  "Evaluating an expression or decoding a body gives an unknown placeholder value only if something it depends on is not known or an error is reported with it; definite input never silently becomes an unknown value. Where a value, element, key, condition or collection needed for a result is found not to be known, the result is unknown too, or stands for something unknown, and is never a definite value from which the unknown part was left out.",
  ["inputs", "configurations"],
  "for every expression, body and specification and every choice of which inputs are known",
  "Tests hold a few expressions over unknown values and seldom combine unknown values with the individual operations or their failures.",
  ["hcl/hclsyntax/expression.go", "hcl/hclsyntax/expression_ops.go", "hcl/hclsyntax/expression_template.go", "hcl/json/structure.go", "hcl/ops.go", "hcl/traversal.go", "hcldec/spec.go", "ext/dynblock", "ext/typeexpr", "hcltest/mock.go"],
  [("results for unknown inputs", "Value methods of expressions, Index and GetAttr"), ("placeholders on failure", "decode methods of specifications"), ("blocks for unknown collections", "ext/dynblock/expand_body.go")]),

P("C29", "Working through a collection does not stop early",
  "An operation that works through all the blocks, attributes, fields, elements, files or diagnostics it was given begins with the first and reaches the last of them. It ends before that only with an answer it has found or an error it reports; an element that needs nothing done does not keep the later ones from being dealt with, and what is obtained for an element is not left out of the result, which keeps the order of what it was made from.",
  ["inputs", "configurations"],
  "for every loop over a collection and every element in it",
  "Tests mostly use collections of one or two elements all of which are wanted.",
  ["hcl", "hcl/hclsyntax", "hcl/json", "hcldec", "gohcl", "hclpack", "hclwrite", "ext", "cmd", "hcltest"],
  [("loops over blocks, attributes and schemas", "each Body implementation"), ("loops over child blocks", "hcldec/spec.go"), ("loops over struct fields", "gohcl"), ("loops over files", "cmd/hclfmt/main.go")]),

# Properties that this family of methods cannot decide here.
P("N01", "Formatting is idempotent",
  "Formatting already formatted text gives the same text.",
  ["inputs"], "for every byte sequence",
  "Tests check it for the listed snippets only.",
  ["hclwrite/format.go"], [("spacing rules", "hclwrite/format.go")]),
P("N02", "Native and JSON forms of a configuration decode alike",
  "A configuration written in native syntax and its JSON equivalent give the same values for the same schema.",
  ["inputs"], "for every configuration expressible in both",
  "Tests hold a few pairs.",
  ["hcl/hclsyntax", "hcl/json"], [("parallel Body implementations", "hcl/hclsyntax/structure.go, hcl/json/structure.go")]),
P("N03", "Tokens tile the source with exact positions",
  "The scanner's tokens and skipped spaces cover the source without gap or overlap, with correct line, column and byte positions.",
  ["inputs"], "for every byte sequence",
  "Tests list token sequences for some inputs.",
  ["hcl/hclsyntax/scan_tokens.go", "hcl/json/scanner.go", "hcl/pos_scanner.go"], [("generated state machine", "hcl/hclsyntax/scan_tokens.go")]),
P("N04", "Expressions evaluate to the values the specification prescribes",
  "Arithmetic, comparison, conditionals, for expressions, splats, indexing and templates give the value and type the specification prescribes.",
  ["inputs"], "for every expression and every assignment of values",
  "Tests list a few hundred expressions.",
  ["hcl/hclsyntax/expression.go"], [("Value methods", "hcl/hclsyntax/expression.go")]),
P("N05", "Template whitespace control and heredoc trimming are exact",
  "Strip markers and indented heredocs remove exactly the whitespace the specification names.",
  ["inputs"], "for every template",
  "Tests list some templates.",
  ["hcl/hclsyntax/parser_template.go"], [("trim markers", "hcl/hclsyntax/parser_template.go")]),
]

def main():
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")

if __name__ == "__main__":
    main()
