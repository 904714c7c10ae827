#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when a property changes)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P, V, I = "src/fcsql/parser.py", "src/fcsql/validation.py", "src/fcsql/__init__.py"
GP, GL = "src/fcsql/FCSParser.py", "src/fcsql/FCSLexer.py"
G4P, G4L = "src/fcsql/FCSParser.g4", "src/fcsql/FCSLexer.g4"


def p(id, title, statement, over, text, why, files, mech, tech, note, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    return d, tech, note


IN, HI, CO, SC = "inputs", "histories", "configurations", "schedules"
REF = "trusts pbt/ref.py (an independent recursive-descent model of FCS-QL, cross-checked in every case with the tree known by construction)"
ITEMS = [
    p("C01", "Exactly the FCS-QL language is accepted",
      "A query string is accepted by the parser if and only if it is a sentence of FCS-QL: token spellings (names, scope and flag words, numbers, quoted literals with exactly the documented escapes, the 25 white space characters), sentence structure, and the semantic rules for flags, repetition ranges and code points. "
      "Everything else is rejected, and the boolean parse test always gives the same verdict as parsing.",
      [IN], "all strings over Unicode", "The tests hold about 40 accepted and a dozen rejected queries; the language is infinite, and over-acceptance in particular is only visible on inputs nobody wrote down.",
      [P, GP, GL, I], [("lexer rules", GL), ("parser rules", GP), ("error check after parsing", P + ":QueryParser.parse"), ("semantic checks of the tree builder", P + ":ExpressionTreeBuilder"), ("can_parse", I)],
      "generated valid / near-valid / junk strings, verdict compared with a reference recogniser", REF),
    p("C02", "The tree has the query-level structure the text spells",
      "For every accepted query, alternatives, sequences, groups and segments of the tree are exactly those the text spells, in the same order and nesting, with nothing lost, duplicated, merged or re-associated: juxtaposition binds tighter than |, parentheses give group nodes, [] gives a wildcard segment, a bare literal a segment of its own. "
      "(A sequence of one element and that element count as the same structure.)",
      [IN], "all valid queries", "Tests compare a few shapes with up to three elements; order and nesting mistakes show for particular combinations of depth, arity and position.",
      [P, GP], [("visitQuery_disjunction/_sequence/_group/_simple/_segment", P + ":ExpressionTreeBuilder"), ("query_* rules", GP)],
      "trees of generated queries compared with the tree known by construction", REF, [("stack", "nodes under construction, partitioned by stack depth", P + ":ExpressionTreeBuilder.stack")]),
    p("C03", "Boolean expressions bind NOT over AND over OR",
      "Inside a segment, ! binds tighter than &, and & tighter than |, for every mixture of basic expressions, negations and parentheses; operands keep their order, chains of one operator are one flat node, and every pair of parentheses and every negation is a node of its own. "
      "The denoted boolean function of the tree is the one of the text under these precedences.",
      [IN], "all boolean expressions of any size", "Tests cover binary and a few mixed cases; the ambiguous mixtures (negations inside chains, chains inside chains) are combinatorial. The documented precedence did fail for !a | b & c before it was repaired.",
      [P, GP, G4P], [("visitExpression_or/_and/_not/_group", P + ":ExpressionTreeBuilder"), ("expression_* rules and their prediction tables", GP)],
      "generated expressions: tree compared with model, truth tables compared with an independent evaluator", REF),
    p("C04", "Repetition bounds are exactly those written",
      "Every segment and every group carries the minimum and maximum written after it: + is 1..unbounded, * is 0..unbounded, ? is 0..1, {n} is n..n, {n,} is n..unbounded, {,m} is 0..m, {n,m} is n..m, none is 1..1; values are exact integers of any size and leading zeros do not matter. "
      "A range whose minimum exceeds its maximum is rejected, equal bounds are accepted.",
      [IN], "all quantifiers on segments, literals and groups at any place of a query", "Tests try a handful of small numbers; magnitude, zero padding, white space and the place of the quantifier are unbounded.",
      [P, GP], [("processRepetition / getInteger / parseMinMax", P + ":ExpressionTreeBuilder"), ("quantifier rule", GP)],
      "generated quantifiers with bounds known by construction", REF),
    p("C05", "Literals decode to exactly the text they denote",
      "The pattern of an expression is the quoted text without its quotes, with \\\\, \\', \\\", \\n, \\t and the \\x, \\u, \\U code point escapes decoded, escaped regular expression operators kept with their backslash, all other characters untouched, and then brought into the configured Unicode normal form (NFC unless configured otherwise, none if disabled). "
      "Escapes above U+10FFFF are rejected with the documented error.",
      [IN, CO], "all literals of any length over all of Unicode; all normal forms", "Tests decode a few escapes; interactions (escape next to escape, before the closing quote, composition across an escape, quotes inside quotes) are unbounded. Two escapes of the grammar were not decodable before they were repaired.",
      [P], [("stripQuotes / unescapeString / unescapeUnicode", P + ":ExpressionTreeBuilder"), ("normalisation in visitRegexp", P + ":ExpressionTreeBuilder.visitRegexp")],
      "generated literals with known denotation, decode compared with an independent decoder", REF),
    p("C06", "Regular expression flags are the set written after the literal",
      "The flags of an expression are exactly the set spelled after its literal: i and c are case-insensitive, I and C case-sensitive, l literal, d ignore-diacritics; order and repetition do not matter, flags of one expression never appear on another, and no flags are reported as none. "
      "Contradicting flags (insensitive with sensitive, literal with any other) are rejected in every order and spelling.",
      [IN], "all flag words over the six letters, at any expression", "Tests check a few flag words; there are unboundedly many spellings and the combination rule must hold for all.",
      [P], [("flag loop and exclusion checks", P + ":ExpressionTreeBuilder.visitRegexp"), ("flag normalisation", P + ":Expression.__init__")],
      "generated flag words, all 6-letter combinations reachable, set oracle", REF),
    p("C07", "A within clause gives the scope written, for the whole query",
      "A query followed by within and a scope word yields a within node over the complete query and the scope the word means (sentence/s, utterance/u, paragraph/p, turn/t, text, session); the query part is the same as without the clause. "
      "Without the clause no within node appears, and no other word or place for a within clause is accepted.",
      [IN], "all valid queries times all scope words", "Tests use a few scope words on simple queries.",
      [P, GP], [("visitWithin_part_simple / visitQuery", P + ":ExpressionTreeBuilder"), ("query rule", GP)],
      "generated queries with and without clause: metamorphic comparison and model", REF),
    p("C08", "Attributes, operators and parser defaults are reported as written",
      "Each expression reports the qualifier, layer identifier and operator (= or !=) that were written, character for character, including names that are also keywords; a bare literal gets the parser's configured default identifier and operator, whatever text that is, and configured defaults affect nothing else. "
      "A missing qualifier is reported as none.",
      [IN, CO], "all names, all expressions of a query, all configured defaults", "Tests use fixed names and the default configuration.",
      [P], [("visitAttribute / visitExpression_basic / visitQuery_implicit", P + ":ExpressionTreeBuilder"), ("constructor options", P + ":QueryParser.__init__")],
      "generated names and configurations, comparison with the construction", REF),
    p("C09", "Source locations delimit exactly the text of each node",
      "With source locations on, every node's location is the half-open character range of exactly its own text - from its first to after its last token, without outer white space - so children lie in order inside their parent, and that text, taken on its own, parses to the same subtree. "
      "With locations off no node has one and the tree is otherwise identical. The location helpers give any token and context of the low-level parse its range, and nothing where a position is missing.",
      [IN, CO], "all valid queries with any white space and any Unicode content, locations on and off", "Tests check the locations of a few ASCII queries.",
      [P], [("SourceLocation.fromContext", P), ("enableSourceLocations switch in every visit method", P + ":ExpressionTreeBuilder")],
      "locations compared with the construction; slice-and-reparse metamorphic test", REF),
    p("C10", "Trees are well formed and their navigation is consistent",
      "In every tree - parsed or built by hand - each child's parent is the node that lists it, the root has none, node types match node kinds, and the navigation helpers (count, child by index, first, last, each optionally by type, operands, content, query, within, expression) answer exactly as the list of children dictates, with none for anything that does not exist. "
      "Node constructors keep the given children in order (a single child given last), make themselves their parent, and never share or keep the caller's list.",
      [IN, HI], "all parsed and hand-built trees, all indexes and types", "Tests navigate a few parsed trees; off-by-one and type-filter cases need generated trees. Three such defects were repaired.",
      [P], [("QueryNode constructor and get_child/get_first_child/get_last_child", P + ":QueryNode"), ("typed accessors", P)],
      "generated hand-built and parsed trees against a list model", "the model is the plain children list"),
    p("C11", "Every string is answered: a tree, a verdict or the documented error",
      "Whatever string is given - empty, binary, unbalanced, surrogates, very long, deeply nested - every entry point answers with its documented result or its documented exception only: parsing gives a tree or the query parser error, the boolean test and validation give booleans or lists, the low-level parse gives a tree or its syntax error. "
      "For queries nested too deeply for the interpreter's stack either answer is fine, but not another exception.",
      [IN], "all strings, all entry points", "Tests feed a dozen malformed inputs; crashes hide in unusual ones. Validation raised RecursionError for deep queries and \\U escapes raised ValueError before they were repaired.",
      [P, I, V], [("catch-all in QueryParser.parse", P), ("can_parse / validate / antlr_parse wrappers", I)],
      "fuzzing all entry points with valid, mutated, junk, huge and deeply nested strings", "documented exceptions are those of README and docstrings"),
    p("C12", "Rejected queries are diagnosed at the place where they are wrong",
      "For a query rejected for its syntax the first problem reported is at the first token at which no continuation could make the query valid: position is that token's character range in the query, fragment the query up to and including it, type syntax-error, and the message names it; input that ends too early is reported at its end, and unreadable text at the offset of its first character. "
      "This also holds for multi-line queries. Every problem has a non-empty message, and the list on the parser, the list from validation and the exception agree.",
      [IN], "all syntactically invalid strings", "Tests look at a few one-line errors; positions on later lines were wrong before they were repaired.",
      [P, I], [("ErrorListener.syntaxError", P + ":ErrorListener"), ("ErrorDetail", P), ("error collection in validate", I)],
      "generated invalid queries; first non-viable token computed by an independent viable-prefix oracle", REF),
    p("C13", "Parsing does not depend on what was parsed before",
      "The answer to a query depends only on its text and the parser's current configuration: a parser that has parsed any history of good and bad queries answers exactly (tree, error, error list) like a fresh one, changed options apply from the next query on, and parsing never changes the options. "
      "Trees and error lists handed out earlier are not changed by later parses, and a successful parse leaves no errors behind. All this holds also after calls that were ended in the middle (by an exception raised at any point of them), and texts that are alike in letter case, white space or Unicode form are still told apart.",
      [HI, CO], "all sequences of queries and option changes on one parser, including long ones", "Tests use a fresh parser per query.",
      [P], [("per-call lexer, parser, builder and error list", P + ":QueryParser.parse")],
      "stateful: generated histories, differential against a fresh parser", "", [("errors", "error list of the last parse", P + ":QueryParser.errors")]),
    p("C14", "Visitors see every node once, in order, in the right handler",
      "A visitor's handlers are called for every node of a tree exactly once, parent before children, children left to right, each by the handler for its own kind; kinds without a handler are traversed transparently, and a handler that does not descend hides exactly its subtree. The handler of a kind is looked up at the visit as any Python attribute: inherited, overridden in a subclass, or set on the class or the object between visits. "
      "Results are combined child by child from the default result with the visitor's aggregation, stop when the visitor says so, and by default are those of the last child.",
      [IN, CO], "all trees (parsed and hand-built), all subsets of handlers", "Tests have one small visitor. Handlers of five expression kinds were never called before the repair.",
      [P], [("QueryVisitor.visit dispatch and visitChildren", P + ":QueryVisitor"), ("QueryVisitorAdapter defaults", P)],
      "generated trees and handler sets, call log against model traversal", ""),
    p("C15", "Layer identifiers are judged by the rules of the specification",
      "Validation without a list of allowed identifiers accepts exactly text, lemma, pos, orth, norm and phonetic silently, warns about word and about custom x- layers, and reports every other identifier as an error; with a (non-empty) list it reports exactly the identifiers not in the list as errors. "
      "Every expression anywhere in the tree is judged, in order, each issue carries the expression's location and text and its message names the identifier.",
      [IN, CO], "all identifiers at all places of all queries; all lists of allowed identifiers", "Tests judge a few single-expression queries.",
      [V], [("identifier checks", V + ":FCSQLValidator.visit_Expression")],
      "generated queries and lists, issues compared with a rule model", "rule model in pbt/ref.py"),
    p("C16", "Layer qualifiers, POS tags and the regex guess follow their rules",
      "With allowed qualifiers configured, a qualified expression is an error exactly if its layer has no list (the first entry for the layer counts) or its qualifier is not on it, and the message names the qualifier; without configuration, and for unqualified expressions, qualifiers are never judged. "
      "An unqualified pos expression without flags whose pattern is neither a UD17 tag (exact spelling) nor looks like a regular expression gives a warning naming the pattern, and a string looks like a regular expression exactly if, blanks aside, re.escape would change it (the documented rule).",
      [IN, CO], "all qualifiers, patterns, flags and configurations", "Tests cover a few tags and one configuration.",
      [V], [("qualifier and POS checks", V + ":FCSQLValidator.visit_Expression"), ("is_likely_a_regex", V)],
      "generated queries and configurations, issues compared with a rule model", "rule model in pbt/ref.py"),
    p("C17", "Raising, collecting and boolean validation agree",
      "For every tree and configuration the collecting validator's result, the boolean test and the raising validator agree: the raising one raises exactly if there is a violation, for the first one in document order, with the same message, node and fragment as the first collected issue that counts. "
      "Warnings count exactly if warnings are treated as errors, in every mode, severities are never mixed up, and asking in one way changes nothing about later answers or the modes.",
      [IN, CO], "all queries and validator configurations", "Tests check each mode on single examples.",
      [V], [("validation_error / validation_warning / validate / is_valid", V + ":Validator")],
      "differential between the modes on generated queries", ""),
    p("C18", "Validators can be reused and handlers always know the parent",
      "A validator that has judged any history of trees - passing, failing, aborted by a raised violation or by a handler's exception - judges the next tree, or part of a tree, exactly like a fresh one, does not alter trees and does not alter lists handed out before; fragments come from the query it was last given. "
      "While a tree or a part of one is validated or visited, the parent available to a handler is the parent of the node being handled, and none is left over afterwards, also if parts of the tree are used in other trees.",
      [HI, CO], "all sequences of validations on one validator, including aborted and long ones", "Tests use each validator once. Reuse after a raised violation gave wrong parents before the repair.",
      [V], [("reset in validate, stack push/pop in the visit methods", V + ":Validator")],
      "stateful: generated histories, differential against a fresh validator", "", [("stack", "open ancestors during validation", V + ":Validator.stack"), ("errors, warnings", "issues of the last run", V + ":Validator")]),
    p("C19", "One-call validation is parsing plus specification checks",
      "The one-call validation is true exactly if the error list it would return is empty: the list holds the parse problems if the query cannot be parsed, and otherwise exactly the specification errors, plus the warnings if and only if warnings count as errors. "
      "Treating warnings as errors never makes an invalid query valid, and an unknown specification version is refused with ValueError whatever the query.",
      [IN, CO], "all strings times all options", "Tests check a few queries, mostly in one mode.",
      [I, V], [("validate", I), ("VALIDATORS", V)],
      "generated strings and options against parse verdict and rule model", REF),
    p("C20", "The low-level parse covers the text and agrees with the high-level one",
      "The low-level parse accepts exactly the syntactically correct queries and raises its syntax error otherwise; what the high-level parser accepts it accepts too. "
      "The leaves of its tree are exactly the tokens of the query, in order, with their text and offsets, followed by the end marker at the end of the text, and no error nodes.",
      [IN], "all strings", "There are two tests of the low-level parse. It returned trees for unreadable characters before the repair.",
      [I, GP, GL], [("antlr_parse with throwing listeners on lexer and parser", I)],
      "generated strings: verdict and token leaves compared with the reference lexer/parser", REF),
    p("C21", "The text form of a tree shows its content, faithfully",
      "The string form of a tree is a deterministic rendering that shows for every node its kind, children in order, qualifier, identifier, operator, pattern (tabs and line breaks escaped), flags in fixed order i I l d, bounds other than 1 (unbounded as *), scope and location if present. "
      "Equal trees render equally, trees differing in such content differ in their rendering wherever patterns are free of quotes and backslashes.",
      [IN], "all trees, parsed and hand-built", "Tests print a few trees.",
      [P], [("__str__ of the node classes", P)],
      "rendering of generated trees compared with an independent renderer", ""),
    p("C22", "Equivalent spellings give the same tree",
      "White space between tokens, the choice of quotes, the spelling of characters as escapes, synonymous flags and scope words, leading zeros and equivalent repetition notations never change the tree (source locations aside).",
      [IN], "all pairs of spellings of the same query", "Tests never compare spellings.",
      [P, GL], [("lexer white space rule", GL), ("decoding in the tree builder", P + ":ExpressionTreeBuilder")],
      "metamorphic: generated query pairs with equal meaning", ""),
    p("C23", "Questions to an expression are answered from its content",
      "For every expression node, the tests for identifier, qualifier, operator and flag are true exactly for the value the node has (case-sensitively, whole value), the emptiness tests are true exactly if there is no qualifier or no flag, blank qualifiers and empty flag sets count as none, and asking for none is a TypeError. "
      "The same holds for node type questions.",
      [IN], "all expression contents, all arguments", "Two of these questions were answered the wrong way round although the tests passed.",
      [P], [("Expression.has_* / is_*_empty, QueryNode.has_node_type", P)],
      "generated expressions and questions against a field model", ""),
    p("C24", "Concurrent, nested and edited uses do not influence each other",
      "Parsing and validating with separate parser and validator objects (or the module-level functions) gives the same results when several such calls are interleaved at any point, run in threads, or are made from inside a handler of a running validation, as when they run alone; threads may look at one and the same tree. "
      "Editing a returned tree or list never changes what later calls return or what was returned before.",
      [SC, HI, IN], "all interleavings of several calls, all nestings, all edits of results", "Tests are sequential and never edit results.",
      [P, V, I], [("no shared mutable state outside the call", P + ":QueryParser.parse"), ("per-instance stacks and lists", V + ":Validator.__init__")],
      "deterministic scheduler with generated interleavings; nested and edited histories, differential against isolated runs", "switch points are source lines of the package, not inside the ANTLR runtime"),
    p("C25", "The published grammar files describe what the parser implements",
      "For every text the shipped lexer produces exactly the tokens the published lexer grammar prescribes (longest match, first rule, white space skipped), and for every token sequence the shipped parser accepts exactly what the published parser grammar derives, also when started at any of its other rules, and its rule and token names are those of the grammar. "
      "The published token tables agree with both.",
      [IN], "all texts and token sequences", "No test reads the grammar files; generated code and grammar can drift apart.",
      [G4P, G4L, GP, GL, "src/fcsql/FCSLexer.tokens", "src/fcsql/FCSParser.tokens"], [("serialised automata and generated rule functions", GP + ", " + GL)],
      "sentences derived from the .g4 files and mutants, membership decided by an NFA lexer and a memoised recogniser built from the .g4 text", "trusts pbt/g4.py, the reader of the .g4 files"),
    p("C26", "Low-level trees can be walked, visited and queried consistently",
      "Walking a low-level parse tree with a listener enters and leaves every rule context exactly once, properly nested, in the callbacks for its rule; the visitor calls exactly the method for each context's rule; and the typed accessors of a context return exactly its children of that rule or token, in order. "
      "Listeners and visitors of any class need only have the callbacks they want. Rule contexts and high-level nodes correspond one to one in kind and text range.",
      [IN], "all valid queries", "No test touches listeners, visitors or accessors.",
      [GP, "src/fcsql/FCSParserListener.py", "src/fcsql/FCSParserVisitor.py"], [("generated contexts: enterRule/exitRule/accept/accessors", GP)],
      "generated queries: event logs and accessor results against the children lists", ""),
    p("C27", "Diagnostic logging changes nothing",
      "Turning on logging at any level for the package, with handlers that format every record, changes no result, raises nothing, and every record can be formatted.",
      [CO, IN], "all queries, entry points, logger names and levels", "Tests run with one logging configuration and never with formatted debug records for most queries.",
      [P, V], [("LOGGER.debug calls", P)],
      "differential: every entry point with and without logging", ""),
    p("C28", "The effort to answer a query stays proportionate to its size",
      "The work done by parsing, testing and validating grows at most quadratically (and for most queries linearly) with the length of the query, whatever mixture and nesting of operators, groups and repetitions it has and however large the numbers in it, valid or not; so does the work of rendering, visiting and validating a finished tree.",
      [IN], "all queries; explored to a few hundred characters", "Tests have short queries only. Chains mixing ! & | took exponential time before the grammar was repaired.",
      [GP, G4P, P], [("unambiguous expression rules", G4P), ("single pass tree builder", P + ":ExpressionTreeBuilder")],
      "pumped and repeated query shapes, deterministic call counting against a polynomial budget", "budget 400000 + 20000 n + 250 n^2 calls, five times above the worst shape measured"),
    p("C29", "A tree built with the node constructors is as good as a parsed one",
      "Building a query's tree node by node with the public constructors - positional or by keyword, flags as any collection, a missing qualifier as none or blank - gives a tree equal to the parsed one in content, rendering, links, navigation, what visitors see and every validation result; children, bounds and values are kept as given.",
      [IN], "all trees the parser can produce, all argument forms", "Tests build a handful of nodes and never compare them with parsed ones.",
      [P, V], [("node constructors", P + ":QueryNode.__init__ and subclasses")],
      "generated queries: parsed tree against its reconstruction, and against one built from the reference model", ""),
    p("C30", "Trees and diagnostics are plain values",
      "Trees can be deep-copied and pickled: the copy is equal in content, links and behaviour, shares no node with the original and is independent of it; copying disturbs nothing, and a shallow copy is a node of its own over the same children. Nodes are told apart by identity, never by content. Error details and source locations are immutable values: equal content means equal object, hash and text, and any difference makes them unequal. "
      "Operators, flags, scopes and node types are found by value, are that string, anything else is refused as their value, and every flag's letter spells that flag.",
      [IN], "all trees, parts of trees, reported problems, offsets, vocabulary members", "No test copies, stores or compares results.",
      [P, V], [("QueryNode and subclasses", P), ("ErrorDetail, SourceLocation", P), ("enums with values", P + ":RegexFlag")],
      "generated trees and diagnostics: round trips through copy and pickle, equality laws", ""),
    p("C31", "The calls of the package leave nothing behind in the process",
      "Importing the modules (in any order), parsing and validating print nothing and issue no warnings (apart from the ANTLR console listener during the low-level parse), and leave the process as it was: recursion limit, standard streams, environment, working directory, logging and warning configuration, signal handlers, locale, threads, and the package's own published tables and defaults. "
      "Results nobody keeps are not kept by the package: repeating calls does not make its objects or containers grow. This also holds for extreme texts and for calls that were ended in the middle by an exception.",
      [HI, IN], "all calls and repetitions of calls", "Tests do not look at the process around a call.",
      [P, V, I], [("QueryParser.parse / error listeners", P), ("validate", I)],
      "generated calls bracketed by snapshots of the process and by object censuses", "observes a fixed list of process settings"),
    p("C32", "Looking at a tree changes nothing and answers stay the same",
      "Any sequence of renderings, navigation, questions, visits and validations of a tree or its parts leaves every public property of every node as it was, and each question asked again gets the same answer, whatever was asked in between.",
      [HI, IN], "all sequences of read-only uses, on parsed and hand-built trees", "Tests ask once.",
      [P, V], [("__str__, get_*, has_*, accept", P), ("QueryVisitor.visit", P), ("Validator.validate", V)],
      "stateful: generated histories of questions, before/after fingerprints of the whole tree", ""),
    p("C33", "Queries compose",
      "The tree of a query composed from parts is composed of the parts' trees: joining with | or juxtaposition, grouping with repetition, adding a within clause, and inside segments joining with & or |, negating and parenthesising, each with the flattening that precedence prescribes; text shifted by leading white space has the same tree with all locations shifted.",
      [IN], "all pairs of queries or expressions and all ways to combine them", "Tests never relate the trees of two queries.",
      [GP, G4P, P], [("precedence of the grammar rules", G4P), ("tree builder", P + ":ExpressionTreeBuilder")],
      "metamorphic: trees of generated parts against the tree of their combination, no reference parser", ""),
    p("C34", "Every interpreter gives the same answers",
      "Trees, renderings, error lists, messages and validation results do not depend on the interpreter process: hash randomisation, optimisation (-O, -OO, so without assertions and docstrings), development mode, locale, text encoding and working directory make no difference.",
      [CO, IN], "all queries and entry points; explored with five differently started interpreters", "Tests run in one process with one configuration.",
      [P, V, I], [("flag sets and their rendering", P + ":Expression.__str__"), ("assertions in the tree builder", P)],
      "differential: each generated call answered by five interpreters started differently", "one Python version and platform"),
    p("C35", "Own validators: rules on the base class and registration by version",
      "A validator written on the base class records or raises every issue its handlers report - for any node, before or after the children, with any text - in the order reported, with the node's location and fragment and the severity rules of the modes; the one-call validation uses the class registered for the version asked for, "
      "only on queries that parse, other versions staying as they are, and a version that is not registered under exactly that name (any more) is refused. A validator that takes over visit() itself sees every node, the root first. Results its handlers return are folded as for any visitor. A subclass of the FCS validator may replace the lists of known and legacy layers.",
      [HI, IN], "all rule sets, queries, modes and version names", "Tests have no validator of their own and register none.",
      [V, I], [("Validator.validation_error / validation_warning / validate", V), ("VALIDATORS lookup", I + ":validate")],
      "generated rule-based validator classes against a predicted list of issues", ""),
    p("C36", "The ANTLR classes wired up by hand agree with the wrappers",
      "Lexer, token stream and parser set up as documented give, for every text, the verdict, tree, tokens with lines and columns, and first complaint of the low-level parse, and a tree from which the tree builder makes the high-level tree; a bailing error strategy changes only how failure is reported; lexer and parser objects can be used again for further texts without memory of earlier ones.",
      [HI, IN], "all texts and histories of texts", "Tests set up the classes for a few valid queries, once each.",
      [GL, GP, P, I], [("generated lexer and parser", GL + ", " + GP), ("antlr_parse", I)],
      "generated histories of texts: hand-wired fresh, bailing and reused recognisers against the wrappers and the reference lexer", ""),
]

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _, _ in ITEMS:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3-vt check.py --selftest",
        "checks": [
            {"property": d["id"], "quick_cmd": f"python3-vt check.py {d['id']} --tier quick", "thorough_cmd": f"python3-vt check.py {d['id']} --tier thorough",
             "technique": "property-based testing (Hypothesis): " + t, "level": "exploration",
             "level_note": "Random structured search, no exhaustiveness: violations outside the explored sizes can be missed." + (" " + n[0].upper() + n[1:] + "." if n else "")}
            for d, t, n in ITEMS
        ],
        "not_applicable": [],
        "notes": "No hooks: /repo is imported from its working tree (/repo/src) by every run. Replay a failure with: python3-vt check.py --replay FILE",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        f.write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
