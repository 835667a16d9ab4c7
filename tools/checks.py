CHECKS = [
 ("C01", "static analysis: path-sensitive SSA dataflow (lost-error analysis) over every function of the repository",
  "Decides for every path of every function that obtained diagnostics are handed on; values inside a diagnostic and muting by flags are out of reach (C02, C09)."),
 ("C02", "static analysis: typestate simulation of the parsers (token bookkeeping, bracket stack, evidence of errors) over SSA with value facts",
  "Decides for every way out of every parser function that giving up, unexpected tokens, unmatched brackets and unread input come with an error; which well-formed kinds are allowed where is taken from the parser's own comparisons."),
 ("C03", "static analysis: typestate simulation of the newline-rule stack over SSA with value facts",
  "Decides for every way out of every parser function that the stack of newline rules is as on entry, and that bracketed expressions are parsed under their own rule."),
 ("C04", "static analysis: loop analysis (progress on every way round, exit under the end-of-input hypothesis) and recursion analysis with must-consume summaries, by typestate simulation over SSA",
  "Decides for every loop of the repository that each round advances something an exit depends on, for every loop waiting for tokens that it is left at the end of input, and that no parser function recurs without consuming. Taken on trust: a computed step is not zero, linked structures are acyclic; the generated scanner is not covered."),
 ("C05", "static analysis: forward dataflow of value facts (known, non-null, type class, success of conversions) with interprocedural summaries over SSA",
  "Decides for every use of a partial value operation that its preconditions hold on all paths; preconditions of the value library are a table taken from its source."),
 ("C06", "static analysis: interprocedural side-effect and ownership analysis (summaries of written memory per function) over SSA",
  "Decides for every exported operation that nothing reachable from its inputs is written, apart from named destinations; writes made by dependencies follow a table of their methods."),
 ("C07", "static analysis: interprocedural side-effect analysis of package-level variables over SSA",
  "Decides that no function running after initialisation writes memory reachable from a package-level variable or process-wide settings."),
 ("C08", "static analysis: comparison of access paths evaluated with access paths reported (dominating conditions, loops, scopes) over SSA, plus rules for iterator scopes",
  "Decides per kind of expression and specification that each evaluated part is reported under no narrower condition; which single element of a sequence is picked is not told apart."),
 ("C09", "static analysis: construction-site dataflow (definite initialisation of diagnostics) over SSA",
  "Decides for every construction of a diagnostic that severity, summary and (with a context) subject are given on all paths; summaries computed from text at run time are taken as non-empty."),
 ("C10", "static analysis: loop-carried storage sharing (escape of overwritten storage) on the ownership graph over SSA",
  "Decides for every loop that storage overwritten by a later round is not referenced by results of earlier rounds; storage behind dependencies' types follows a table."),
 ("C11", "static analysis: for every kind of body, the places where items are returned, complained about, hidden or left over are found through its methods with the conditions they are under (membership in sets described by what is put in them), and compared with what the schema asks for and what was read before",
  "complete for the nine kinds of body; conditions are those of one round of a loop, values of items are not followed"),
 ("C12", "static analysis: side-effect summaries of the formatter, use of formatted token sequences, and conditional constant propagation of token types through the spacing decision",
  "Decides that only spacing is written, that sequences are converted and written whole, and for a table of token pairs that joining or separating them never changes how they are read; pairs outside the table are not covered."),
 ("C13", "static analysis: abstract interpretation of token sequences as intervals with symbolic ends through the writer's parser, plus rules on tree contents and visiting order",
  "Decides for every way through the parser and any number of rounds that all tokens given are attached once and in order, and that contents give them back; that valid input never reaches one of the parser's panics is not decided here."),
 ("C14", "static analysis: list operations followed on abstract heaps (shape analysis), pairing of links and records on all paths, edits under the assumption that a lookup finds something or nothing",
  "lists of up to three elements, every owner of a list and every edit of a body in the writer package"),
 ("C15", "static analysis: regular-expression dataflow over SSA: for each kind of value and of traversal step the token sequences a generating function can return are computed (append is concatenation, joins are alternatives, loops are repetitions, branches on the kind by conditional constant propagation) and matched with the grammar; what string escaping emits per class of character is propagated and decoded with the tables extracted from the reader",
  "Decides which parts are written, in which order, separated how and escaped how; digits of numbers and layout are not looked at beyond the formatting function used."),
 ("C16", "static analysis: comparison of the places parts of a body take in the two directions of its JSON form, of differences and sums, and guard analysis of decoded positions, over SSA",
  "Decides for every body that each part is encoded where it is decoded from and that positions from damaged data are checked; text that is not valid UTF-8 and expressions without a start range, which the form does not represent, are outside."),
 ("C17", "static analysis: comparison of access paths and symbolic type terms across the methods of every kind of specification, with guard and registration rules",
  "Decides for every kind of specification, hence for every tree of them, that schema, labels, nested bodies, limits, result types and source ranges agree; that values computed by caller-supplied functions have the type those functions promise is assumed."),
 ("C18", "static analysis: conditional constant propagation under assumed tag kinds, field types and states, with reflected types followed on the type checker's types; must-pass analysis over rounds",
  "Representative field types; conversion of values not followed."),
 ("C19", "static analysis: type-level comparison of optional interfaces with the methods of all expression types, data flow from reads of wrapped bodies to everything returned",
  "Every expression type, every conversion to an expression, every accessor of an optional ability and every read of a wrapping body in the repository is analysed; template interpolations are deliberately opaque and excepted."),
 ("C20", "static analysis: AST/SSA table and dataflow analysis: the operator, bracket, token-kind and escape tables are read from the initialisers and switches and compared with the specification's tables; the flow of operands through the level parser is followed",
  "Exact for the tables; the level parser is decided by the flow of the remaining levels and of the left operand, not by running it."),
 ("C21", "static analysis: interprocedural taint of map iteration order (collected sequences, callbacks, writes, side effects, choices) over SSA",
  "Decides for every loop over a map that nothing ordered is produced in its order without being sorted, following sequences through results, parameters, cells and further loops; sorting is trusted to be total for the keys used."),
 ("C22", "static analysis: reaching definitions of ranges, read order and containment of parts",
  "Ranges are followed through definitions, merges, parameters and results; order is that of the calls that read tokens."),
 ("C23", "static analysis: table extraction and comparison: the names the type readers accept (from dominating string tests and package tables) and the text the writer emits under each kind test are extracted from SSA and compared constructor by constructor; dataflow rules for the exactness flag, for element completeness and for key/value pairing",
  "tables are compared by constructor and name; the number of arguments and the quoting of attribute names that are not identifiers are not judged"),
 ("C24", "static analysis: forward dataflow of sequence length facts with interprocedural summaries and path-wise refinement over SSA",
  "Decides for every constant or end-relative position and bound that the sequence is long enough on all paths; computed positions are out of reach."),
 ("C25", "static analysis: forward nullness dataflow with interprocedural summaries and path-wise refinement over SSA",
  "Decides for every dereference of a value with a possible nil source that it is shown non-nil on all paths; nil handed in by callers of the API is out of scope."),
 ("C26", "static analysis: lock-state dataflow for every structure with a lock, and set/use/withdraw typestate of the placeholders kept by expression nodes",
  "Decides for every path that the lock is held in the right mode and released, and that a placeholder is set for the context used and withdrawn on every way out; values computed from the element are not judged."),
 ("C27", "static analysis: path-sensitive dataflow of errors through the programs to results, flags, counters and exit calls, with option guards and origin tracing of written files",
  "Decides for every path of the three programs; a few steps that may fail without consequence are listed as exceptions, errors inside dependencies are those they return."),
 ("C28", "static analysis: for every place an unknown placeholder is returned, a backward all-paths search for an error made or a test that found something unknown or failed (flags, boolean helpers and exhausted type switches resolved); for every test that finds a value not known, a forward check that results are not definite and that the finding is recorded or returned",
  "Placeholders made inside the value library and unknown values passed through operations of that library are taken to be right; whether the placeholder has the most precise type is not judged."),
 ("C29", "static analysis: every edge that leaves a loop over a list, map, value, chain or set of fields other than at its end is classified by what it tells: a value, flag or place that the end of the loop does not have, a result made of the element, or an error; a way out that joins the end with nothing but what was gathered so far is reported, as are ranges that cannot get to a second element and counts that start late",
  "Ending with an error reported is always accepted; text (bytes and tokens) is exempt because it is searched for a place; a way out after something was stored counts as found."),
]
NOT_APPLICABLE = [
 ("N01", "idempotence is a fixed-point equation of the whole formatter over all token sequences; static analysis has no handle on it short of running the formatter"),
 ("N02", "equivalence of two independent implementations over all inputs; needs execution of both"),
 ("N03", "the scanner is a generated table-driven automaton; its source carries no structure from which token boundaries could be derived without running it"),
 ("N04", "value semantics of every expression; needs evaluation, symbolic or concrete"),
 ("N05", "arithmetic on literal strings inside loops; needs execution"),
]
NOTES = "All checks are rule sets of one Go program (analyzer/) that loads and type-checks /repo, builds SSA and decides without running any of it."
