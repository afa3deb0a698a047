#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON is always valid)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Generated parsers accept exactly the language of their grammar",
  "For every grammar the compiler accepts and every input text, the generated parser succeeds on the whole text if and only if the text is in the language the grammar denotes (concatenation, alternation, literals, empty string and least fixed points). This holds however often a sub-grammar occurs, wherever it occurs and in whatever context of enclosing fixed points. It always terminates.",
  ["programs", "inputs"], "all well-typed grammars, all input texts",
  "The tests only run the compiler on five grammars and never run a generated parser except the nibble front end on the same five files; neither other grammars nor rejecting inputs are tried.",
  ["src/lower/mod.rs", "chewed/src/parse.rs", "src/chomp/typed/infer.rs"],
  [("RustBackend code generation: branch selection by first set, default to the nullable branch, structural sharing maps", "src/lower/mod.rs"), ("Parse::parse = take + end-of-input test", "chewed/src/parse.rs")],
  state=[("cat_map/alt_map/fix_map/var_map", "structural sharing of generated types", "src/lower/mod.rs")],
  observe=["<Ast as chewed::Parse>::parse_str of the generated code"])

p("C02", "Printing a parse tree gives back the text that was parsed",
  "Whenever a generated parser (or a prefix parse) succeeds, displaying the resulting tree yields, character for character, the text that was consumed. Two different accepted texts therefore never produce trees that print alike, and parsing the printed text again yields an equal tree. As values, trees of the same text (copies too) are equal and hash alike, and trees of different texts are different.",
  ["programs", "inputs"], "all well-typed grammars, all accepted texts",
  "No test displays a parse tree; round-tripping is a statement about every grammar and every accepted text.",
  ["src/lower/mod.rs", "chewed/src/parse.rs"],
  [("generated Display impls for literals, sequences and alternatives", "src/lower/mod.rs"), ("Display for Epsilon", "chewed/src/parse.rs")],
  observe=["to_string() of the parse result", "PartialEq, Hash and Clone of the parse results"])

p("C03", "Parse trees mirror the grammar and expose parts under their names",
  "A parse tree has one node per grammar construct used in deriving the text: an alternation yields the variant of exactly the alternative that derives the text, a sequence yields all its parts in order. A part with a label (else the name of the definition it came from) appears under that name in CamelCase (variants) or snake_case (fields) followed by its occurrence number among its siblings; parts without a name are BranchN, partN (when a sibling is named) or positional. An alternation made only of single-character literals converts to the matched character.",
  ["programs", "inputs"], "all labelled well-typed grammars in which no two parts of a node get the same name, all accepted texts",
  "Tests compile one labelled grammar (through the macro) and look at a few of its variants; no test relates labels or positions to the tree for grammars in general.",
  ["src/lower/mod.rs", "src/chomp/name.rs", "src/nibble/convert.rs", "src/chomp/ast/substitute.rs"],
  [("name_parts_snake / name_parts_camel", "src/lower/mod.rs"), ("Name::merge: label over let over variable", "src/chomp/name.rs"), ("From<..> for char", "src/lower/mod.rs")],
  observe=["Debug output of the parse result"])

p("C04", "A prefix parse consumes exactly the longest viable prefix, with one look-ahead",
  "For every grammar whose every part can be completed, taking a value from a character stream consumes exactly the longest prefix that can still be extended to a sentence of the grammar, and succeeds if and only if that prefix is itself a sentence; all following characters remain available, in order, to the next reader. It never demands more than one character beyond those it consumed and never backtracks.",
  ["programs", "inputs"], "all well-typed grammars whose every part can be completed, all input streams and successive takes",
  "No test takes a value from a stream with trailing content, and none observes how far the stream has been read.",
  ["chewed/src/parse.rs", "src/lower/mod.rs"],
  [("single-character peek in IterWrapper", "chewed/src/parse.rs"), ("generated take methods", "src/lower/mod.rs")],
  observe=["remaining stream after Parse::take", "number of characters pulled from the source iterator"])

p("C05", "Parse errors point at the first offending character and name what was found",
  "For every grammar whose every part can be completed, when a generated parser rejects a text, the error is 'unexpected end' at the end of the text if the whole text is a proper prefix of some sentence, and otherwise an error at the line and column of the first character that cannot continue any sentence. The error reports the character found there, and every character or literal it says was expected there could indeed have continued the text, and when no alternative of a choice fits, every character with which one of them can start is named; it reports trailing input exactly when the text before it is a sentence that was completely parsed. The error message starts with that line and column, and quotes what was found and everything the error says was expected.",
  ["programs", "inputs"], "all well-typed grammars whose every part can be completed, all rejected texts",
  "No test parses an invalid text or looks at an error value.",
  ["chewed/src/error.rs", "chewed/src/parse.rs", "src/lower/mod.rs"],
  [("TakeError / ParseError construction", "chewed/src/parse.rs"), ("BadBranch arm of generated alternations", "src/lower/mod.rs")],
  observe=["ParseError value and its Display"])

p("C06", "The type checker accepts exactly the grammars its rules allow",
  "A closed, fully expanded grammar is accepted if and only if: in every sequence the first part does not match the empty string and each later part's first characters are disjoint from the characters that may follow inside the parts before it; in every alternation no two alternatives share a first character and at most one matches the empty string; and a recursive variable is only used after some input of the fixed point's body has been consumed. The nullability, first set and follow-last set it computes for every accepted sub-grammar are the least ones satisfying the rules.",
  ["programs"], "all closed grammars",
  "The unit tests type-check three two-element grammars; the rules quantify over all grammars, including nested fixed points and n-ary operators.",
  ["src/chomp/typed/infer.rs", "src/chomp/typed/mod.rs", "src/chomp/typed/context.rs", "src/chomp/set.rs"],
  [("TypeInfer folder and its fixed-point iteration", "src/chomp/typed/infer.rs"), ("guardedness through unguard points", "src/chomp/typed/context.rs"), ("Type::cat, Type::alt", "src/chomp/typed/mod.rs")],
  state=[("unguard_points", "depth up to which fixed-point variables may be used", "src/chomp/typed/context.rs")],
  observe=["result of folding TypeInfer over an expression", "Typed::get_type of every node"])

p("C07", "Accepted grammars are unambiguous, never left-recursive, soundly summarised",
  "In a grammar that the compiler accepts, every text has at most one derivation and no fixed point can recur without consuming input. The inferred nullability, first characters and follow-last characters of every part cover everything that part's language really contains.",
  ["programs", "inputs"], "all accepted grammars, all texts",
  "Soundness of the type system is a semantic statement over all grammars and words; no test derives words from a grammar.",
  ["src/chomp/typed/infer.rs", "src/chomp/typed/mod.rs", "src/chomp/typed/context.rs", "src/chomp/set.rs"],
  [("type rules of concatenation and alternation", "src/chomp/typed/infer.rs"), ("FirstSet / FlastSet", "src/chomp/set.rs")],
  observe=["accepted/rejected verdict", "Typed::get_type"])

p("C08", "Expanding functions and lets preserves the meaning of a grammar",
  "Expanding all let definitions and function applications of a grammar yields the grammar obtained by call-by-name evaluation with lexical scope: every parameter occurrence stands for its argument as written at the call site, no variable is ever captured, renamed to another binder or dropped, and fixed points in arguments and bodies are kept. The result no longer contains definitions or applications.",
  ["programs"], "all closed grammar programs whose applications terminate",
  "Unit tests reduce one identity application and shift one variable; capture, multi-argument and nested cases are not covered.",
  ["src/chomp/ast/substitute.rs", "src/chomp/visit.rs", "src/chomp/ast/mod.rs"],
  [("Reduce, Substitute, RenameVars over De Bruijn indices", "src/chomp/ast/substitute.rs")],
  observe=["result of folding Reduce over an expression"])

p("C09", "Ill-formed function use is always rejected, well-formed use never is",
  "A program is rejected if applying something that is not a function, applying a function to the wrong number of arguments, leaving a function where a grammar is needed, or taking the fixed point of anything but a one-parameter function occurs in the part of the program that is expanded. Such a program never produces a parser, and a program free of these mistakes is never rejected for one of them.",
  ["programs"], "all closed grammar programs whose applications terminate",
  "No test contains an ill-formed program.",
  ["src/chomp/ast/substitute.rs", "src/chomp/ast/error.rs", "src/chomp/typed/infer.rs", "src/chomp/typed/error.rs"],
  [("CallNotAFunction / WrongArgCount in Reduce", "src/chomp/ast/substitute.rs"), ("UnexpectedLambda / ExpectedLambda in TypeInfer", "src/chomp/typed/infer.rs")],
  observe=["Ok/Err and error class of expansion and type checking"])

p("C10", "Names resolve lexically to the innermost enclosing binder",
  "Every identifier used as a term refers to the nearest enclosing parameter or earlier let of that name: parameters are visible in their body only, a let is visible in the statements after it but not in its own definition, and inner binders shadow outer ones. A program mentioning an identifier that no enclosing binder declares is rejected with an error naming that identifier, and every other program resolves.",
  ["programs"], "all grammar programs",
  "The five sample grammars contain no shadowing and no undeclared name.",
  ["src/nibble/convert.rs", "src/chomp/name.rs"],
  [("Context bindings stack and lookup", "src/nibble/convert.rs"), ("Content equality", "src/chomp/name.rs")],
  state=[("bindings", "names in scope, innermost last", "src/nibble/convert.rs")],
  observe=["De Bruijn indices in the converted expression", "ConvertError::UndeclaredName"])

p("C11", "Grammar text is read with the documented structure and precedence",
  "Grammar text is accepted if and only if it is a sequence of let statements ended by one match statement, and is read with application binding tighter than '.', '.' tighter than a label, a label tighter than '|', and '!' applying to the single following term; operands keep their order and parentheses only group. Layout and comments between tokens never matter, string escapes denote the characters Rust gives them, and printing a parsed program as tokens and reading it again yields the same program.",
  ["inputs", "programs"], "all token sequences",
  "Tests parse five well-formed files and compare the two front ends with each other only.",
  ["src/nibble/mod.rs", "src/nibble/convert.rs"],
  [("syn Parse and ToTokens impls", "src/nibble/mod.rs"), ("Convert impls", "src/nibble/convert.rs")],
  observe=["syn::parse_str::<Statement> followed by Convert"])

p("C12", "Both grammar front ends read every grammar the same way",
  "For every grammar text written in the notation common to both, the self-hosted front end and the macro front end either both reject it or both accept it and produce the same expression, with the same names for binders, labels and variables. The self-hosted front end never panics on any text.",
  ["inputs", "programs"], "all texts in the common notation: non-empty ASCII literals, identifiers made of ASCII letters, digits and underscores starting with a letter, tokens separated by blanks (which may be left out around punctuation where no two terms and no keyword and what follows it would touch), no comments",
  "The comparison tests cover five accepted texts; rejected texts, escapes, labels and odd layouts are not compared.",
  ["autonibble/src/lib.rs", "src/nibble/mod.rs", "src/nibble/convert.rs", "chomp-macro/src/lib.rs"],
  [("nibble! grammar of nibble and its Convert impls", "autonibble/src/lib.rs"), ("syn based parser", "src/nibble/mod.rs")],
  observe=["NamedExpression from both front ends"])

p("C13", "Generated code always compiles",
  "For every grammar the compiler accepts, the generated Rust code compiles against the runtime crate and defines the root type Ast implementing parsing, display, copying, comparison, hashing and debug printing. This holds whatever names the grammar gives to definitions, parameters and labels, whatever characters its literals contain and however its parts are shared or nested.",
  ["programs", "inputs"], "all accepted grammars, all identifiers, all literals",
  "Tests generate code for five grammars and compile only the one used by the macro.",
  ["src/lower/mod.rs", "src/chomp/name.rs"],
  [("new_type_name, name_parts_*: fresh identifiers", "src/lower/mod.rs"), ("case conversion of names", "src/chomp/name.rs"), ("emit_code dependency traversal", "src/lower/mod.rs")],
  observe=["rustc on the emitted tokens"])

p("C14", "Compiling any text ends in a parser or a clean diagnostic",
  "For every input text the compiler terminates and either emits code or reports a non-empty diagnostic; it never panics, aborts or does both. The command line tools (chomp and autonibble) exit with status 0 and print only the code in the first case, and exit with status 1 with nothing on standard output and the diagnostic on standard error in the second. Reads and writes in pieces make no difference, and input that cannot be read or is not UTF-8 and code that cannot be written end with status 1 and a diagnostic too.",
  ["inputs", "fault_sequences"], "all texts given to the compiler (of a size and nesting that fits the stack), all read and write faults",
  "All test inputs are valid grammars; no test runs the command line tools.",
  ["src/main.rs", "src/nibble/mod.rs", "src/nibble/convert.rs", "src/chomp/name.rs", "src/lower/mod.rs", "autonibble/src/main.rs"],
  [("Result-threaded pipeline", "src/main.rs")],
  observe=["exit status, stdout, stderr of the chomp and autonibble binaries", "library pipeline under catch_unwind"])

p("C15", "Compilation is deterministic and independent of history",
  "The code emitted for a grammar depends on the grammar text alone: compiling it again, in the same process after any other compilations (successful or not), or in another process with different hash seeds yields the identical code or diagnostic.",
  ["histories", "programs"], "all grammars, all histories of previous compilations, all hash seeds",
  "Tests compile each grammar once; hidden state and hash iteration order only show over histories and seeds.",
  ["src/lower/mod.rs", "src/chomp/typed/infer.rs", "src/nibble/convert.rs"],
  [("per-run backend and contexts, ordered sets for anything emitted", "src/lower/mod.rs")],
  observe=["emitted token stream as text"])

p("C16", "The input cursor delivers each character once, in order",
  "For every source of characters and every interleaving of looking ahead, advancing and asking for the position, advancing returns the source's characters each exactly once and in order followed by end of input, looking ahead returns what the next advance will return and changes nothing observable, and the cursor never holds more than one character of look-ahead.",
  ["histories", "inputs"], "all operation sequences, all character sources that keep reporting their end once reached",
  "No test uses the cursor directly.",
  ["chewed/src/parse.rs"],
  [("IterWrapper next/peek with one buffered character", "chewed/src/parse.rs")],
  state=[("next", "buffered look-ahead character", "chewed/src/parse.rs")],
  observe=["Parser::next, Parser::peek, Parser::pos"])

p("C17", "Reported positions are the true line and column of the consumed text",
  "At every moment the reported position is the line and column of the next unread character: lines are counted from 1 and increase at each line feed, vertical tab, form feed, next-line, line separator, paragraph separator and carriage return, except that a carriage return directly followed by a line feed breaks the line only once, at the line feed; columns count characters since the last line break from 0. Looking ahead, failing to read, and reaching the end of input do not move it.",
  ["inputs", "histories"], "all texts over all line terminators, all operation sequences including past the end",
  "No test looks at a position.",
  ["chewed/src/parse.rs", "chewed/src/position.rs"],
  [("line/column bookkeeping in IterWrapper::next", "chewed/src/parse.rs")],
  observe=["Parser::pos"])

p("C18", "Matching a literal succeeds exactly when the input starts with it",
  "Matching a literal against any input succeeds if and only if the remaining input starts with the literal, and then consumes exactly the literal. Otherwise exactly the common prefix is consumed and the error is 'unexpected end' if the input ran out, or else a mismatch that reports the position of the offending character, the matched part followed by that character, and the literal. This holds for all Unicode text.",
  ["inputs"], "all literals, all inputs",
  "No test exercises literal matching on its own, none uses multi-byte characters or a mismatch.",
  ["chewed/src/parse.rs"],
  [("Parser::consume_str", "chewed/src/parse.rs")],
  observe=["result of consume_str and the cursor afterwards"])

p("C19", "Bulk reading helpers consume exactly what they promise",
  "Skipping while a condition holds consumes exactly the longest prefix of characters satisfying it. Reading a fixed number of characters from a set either fills the buffer with the next characters and consumes exactly those, or fails at the first character outside the set, leaving it unread and reporting it, its position and the allowed set, or fails with 'unexpected end' if the input runs out first.",
  ["inputs"], "all inputs, predicates, sets and buffer sizes",
  "The helpers are only used by an untested benchmark parser.",
  ["chewed/src/parse.rs"],
  [("Parser::skip_while, Parser::take_chars_from", "chewed/src/parse.rs")],
  observe=["results, buffers and cursor position"])

p("C20", "Separated lists yield exactly their items and reject malformed lists",
  "Reading a strictly separated list yields each item, in order, for input of the form item (separator item)* up to a stop character, which is left unread; an empty list yields nothing. A missing item, a missing or trailing separator, an unexpected character or the end of input after an item or separator is reported as an error, and an item that fails to parse is reported with that item's own error.",
  ["inputs"], "all inputs, item parsers and separator/stop choices",
  "Only an untested benchmark parser uses the list reader.",
  ["chewed/src/parse.rs"],
  [("Iter::next", "chewed/src/parse.rs")],
  observe=["items and errors yielded, cursor afterwards"])

p("C21", "Compiler diagnostics point at the construct that is at fault",
  "When a grammar is rejected, the source range of the diagnostic lies inside the text and covers a construct that really violates the rule named by the message: the undeclared identifier, the separator between parts of a sequence or alternation that clash, the guarded variable, or the application whose function or argument count is wrong. The message names the undeclared identifier, or the argument counts involved.",
  ["programs"], "all rejected grammars",
  "No test compiles an invalid grammar or looks at a span.",
  ["src/nibble/convert.rs", "src/chomp/typed/error.rs", "src/chomp/ast/error.rs", "src/chomp/typed/infer.rs"],
  [("spans threaded through conversion, reduction and type inference", "src/nibble/convert.rs"), ("conversion of errors into syn::Error", "src/chomp/typed/error.rs")],
  observe=["span and text of the syn::Error"])

p("C22", "The JSON parsers agree with the JSON standard and each other",
  "Every JSON document of printable ASCII characters and blanks is accepted by the generated, the hand-written and the LALR parser of the benchmark suite, and all three return the value the JSON standard assigns to it; the generated parser rejects every text that is not a JSON document. Displaying any value made of finite numbers yields a document that the hand-written and the LALR parser (and the generated one, if it is printable ASCII) read back as the same value.",
  ["inputs"], "all ASCII texts without lone surrogate escapes, all JSON values",
  "The benchmark crate has no tests; benches only run on large valid documents and never compare results.",
  ["chomp-bench/src/json/mod.rs", "chomp-bench/src/json/nibble.rs", "chomp-bench/src/json/lalr.lalrpop"],
  [("nibble! JSON grammar and conversions", "chomp-bench/src/json/nibble.rs"), ("hand-written Value::take and Display", "chomp-bench/src/json/mod.rs")],
  observe=["Value returned by each parser"])

p("C23", "The arithmetic parsers agree and compute the standard value",
  "For every text over digits, blanks, parentheses and the four operators, the generated, the hand-written and the LALR arithmetic parser agree on whether it is an expression, and for every expression all three return its value under the usual precedence and left associativity.",
  ["inputs"], "all texts over the arithmetic alphabet without overflow or division by zero in any part",
  "The benchmark crate has no tests; benches only unwrap results on large valid inputs.",
  ["chomp-bench/src/arith/mod.rs", "chomp-bench/src/arith/nibble.rs", "chomp-bench/src/arith/lalr.lalrpop"],
  [("nibble! arithmetic grammar and From impls", "chomp-bench/src/arith/nibble.rs"), ("take_expr and friends", "chomp-bench/src/arith/mod.rs")],
  observe=["i64 or error from each parser"])

p("C24", "Macro, command line and library produce the same parser or diagnostic",
  "For every grammar text, the procedural macro, the command line tool and the library pipeline all accept it or all reject it. When accepted, the parser made by the macro and the one printed by the command line tool behave like the library's on every input, trees and errors included; when rejected, the command line tool prints and the macro reports, as a compile error at the grammar, the library's message.",
  ["programs", "inputs"], "all grammar texts, all inputs",
  "Tests call the library pipeline or the macro on fixed grammars, never the command line tool, and never compare them.",
  ["chomp-macro/src/lib.rs", "src/main.rs", "tests/full/main.rs"],
  [("the three copies of the pipeline", "chomp-macro/src/lib.rs")],
  observe=["macro expansion behaviour, stdout of the binary, emit_code"])

p("C25", "Grammars as values compare, hash and copy by their structure",
  "Two resolved or expanded grammars compare equal exactly when they consist of the same constructs in the same places, with the same literals, references and binder names; labels, names of parts and positions in the text do not count. Two typed grammars compare equal exactly when moreover all their parts have the same names, from the same kind of source (label, definition, variable); positions do not count. Names compare equal when text and kind agree, type summaries when nullability, first and flast sets agree. Equal values hash alike, and copies are equal to their originals.",
  ["programs"], "all pairs of grammars",
  "The tests compare a handful of expressions that are meant to be equal; nothing checks that grammars which differ somewhere are told apart, on which the sharing of generated types rests.",
  ["src/chomp/ast/mod.rs", "src/chomp/typed/mod.rs", "src/chomp/name.rs", "src/chomp/set.rs"],
  [("PartialEq of Cat, Alt and NamedExpression", "src/chomp/ast/mod.rs"), ("PartialEq and Hash of TypedExpression", "src/chomp/typed/mod.rs"), ("PartialEq and Hash of Content", "src/chomp/name.rs")],
  state=[("fix_map", "typed bodies used as keys of shared types", "src/lower/mod.rs")],
  observe=["==, hash and clone of NamedExpression, TypedExpression, Type, FirstSet, FlastSet, Name"])


with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
