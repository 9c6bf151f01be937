#!/usr/bin/env python3
# Source of properties.jsonl: python3 tools/props.py > properties.jsonl
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","A compiled grammar recognises exactly its PEG language",
"For every grammar without left recursion and every input text, parsing succeeds exactly when the parsing-expression semantics of the operators (literal, character class, regular expression, sequence, ordered choice without backtracking into a chosen alternative, optional, greedy repetition with minimum, maximum and join, positive and negative lookahead, rule reference) matches the entire text. A repetition takes at most its maximum, fails below its minimum, never keeps a trailing join, and a repetition of something that can match nothing ends.",
["programs","inputs"],"all grammars without left recursion, all texts",
"The tests try a few dozen fixed grammars on a few inputs each; interactions of operators (a failing tail after a greedy repetition, join then failing value, lookahead inside repetition, backtracking into memoized rules) are unbounded.",
["parser_sequence.go","parser_choice.go","parser_rank.go","parser_pattern.go","parser_existential.go","parser_not.go","parser_lookahead.go","parser_str.go","parser_regex.go","parser_ref.go","packrat.go","grammar.go","codestream_rune.go"],
[("each parser restores the position of a failed attempt","parser_choice.go, parser_pattern.go, parser_existential.go, parser_not.go, parser_lookahead.go"),("memoization per rule and position","packrat.go loopify"),("whole-text requirement","grammar.go parse")],
["Grammar.ParseString result"])
p("C02","The result has the shape the rule text prescribes",
"The value of a successful parse without parse functions is the one the rule text prescribes: literals, lookaheads and references to rules named with a leading underscore are not captured inside a sequence; one captured element gives that element, several give an array in order, none gives the undefined value; repetitions give arrays, an absent optional gives the undefined value, and a choice gives the value of the alternative that matched. As soon as elements of a sequence are labelled it gives a map holding every label with its own value in order of first appearance, labels of an optional group and of an element labelled @ being merged into it. Alternatives that were tried and abandoned leave no trace in the result.",
["programs","inputs"],"all grammars (with labels only on elements, optional groups or @ references), all accepted texts",
"The tests print the result of a handful of rules; how captures, labels, groups, optionals and repetitions compose, and whether memoized values leak between alternatives, is a product space.",
["parser_sequence.go","parser_pattern.go","parser_existential.go","parser_choice.go","parser_ref.go","packrat.go","rule.go","native_map.go","native_array.go"],
[("captures and labels computed per parser","rule.go, parser_sequence.go calculateType"),("merge of maps","parser_sequence.go merge"),("labels of standalone nodes","packrat.go prepareResult")],
["Ast returned by ParseString, walked structurally"])
p("C03","Memoization: each rule is evaluated at most once per position",
"While parsing a text with a grammar without left recursion, each rule is evaluated at most once at each position, so its parse function runs at most once there and the total amount of parsing work is bounded by the number of rules times the number of positions. A directly left-recursive rule is evaluated once more for each round in which it grows and once to see that it grows no more. Turning memoization off for any rules changes neither the outcome nor the value; such a rule, however it is given, is evaluated, and its parse function called, each time it is tried.",
["programs","inputs"],"all grammars without left recursion or with direct left recursion, all texts; without left recursion, all subsets of rules with memoization off",
"No test counts evaluations; a lost or wrongly keyed memo entry still gives correct results on small inputs and only shows as exponential work on adversarial ones.",
["packrat.go","parsectx.go","grammar.go","rule.go"],
[("frames indexed by position and rule id","parsectx.go getFrame"),("cache hit at loop stage 0","packrat.go loopify"),("SkipCache","packrat.go loopify, parseoption.go")],
["parse function invocations with origin span","ParseContext.Counter","ParseContext.Code.Pos"],
[("frames","memo table","parsectx.go ParseContext.frames")])
p("C04","Direct left recursion parses like the equivalent iteration",
"A rule whose leading alternatives begin with a reference to itself and whose remaining alternatives do not, accepts exactly the texts that its base alternatives followed by any number of its recursive tails accept, and groups the operands to the left. This holds at every position where the rule is tried, for rules reached through lookahead, repetition or other left-recursive rules at other positions, and for several such rules stacked as precedence levels.",
["programs","inputs"],"all grammars with directly left-recursive rules in recursive-alternatives-first form, all texts",
"The tests contain a few fixed left-recursive grammars (arithmetic) on a few inputs; growth of the seed interacts with memoized inner rules, nested heads and failures at any depth.",
["packrat.go","parsectx.go"],
[("seed growing with stages 0 to 3","packrat.go loopify"),("wiping and restoring of frames","parsectx.go wipeWith, restoreWith")],
["Ast returned by ParseString"],
[("frame.loopstage","progress of left recursion at a rule and position","packrat.go"),("frame.wipemask","rules to re-evaluate while growing","packrat.go")])
p("C05","Mutual left recursion grows the longest match",
"When rules refer to each other through their leading element and every such cycle passes through the one rule by which the others are entered, wherever that rule is tried its recursive use at the same place yields first a failure and then the result of the previous round, the rule being read again from that place for as long as it consumes more; outcome and value are those of doing so with nothing memoized between rounds. In particular cycles of two or more rules with disjoint continuations accept exactly the corresponding iteration, grouped to the left.",
["programs","inputs"],"all grammars with left-recursive cycles of two or more rules which share the rule they are entered by, all texts",
"The tests have one small indirect recursive grammar at most; stale memo entries of rules inside the cycle show only for particular combinations of alternatives and inputs.",
["packrat.go","parsectx.go"],
[("collection of the wipemask from the rule stack","packrat.go loopify stage 1,2,3"),("wiping before each round, restoring the best round","parsectx.go wipeWith, restoreWith"),("results which depend on a wiped one are wiped as well","parsectx.go wipeDependents")],
["Ast returned by ParseString"])
p("C06","Vertical ranks are the same as horizontal choices",
"Writing the alternatives of a rule as a rank of lines, as nested ranks or as one horizontal choice gives the same outcome and value on every text; the alternatives are tried from top to bottom, named or anonymous alike. Inert lines never take part in an alternation, and moving an inert rule anywhere else in the tree of lines changes nothing, since rules are referenced by name from anywhere. The content of a line may as well be a line itself, or an expression compiled beforehand.",
["programs","inputs"],"all arrangements of a grammar into lines, ranks and inert rules; all texts",
"The tests use a few fixed layouts; equivalence of layouts is a relation over all grammars and is never tested.",
["parser_rank.go","parser_choice.go","line.go","line_o.go","line_i.go","line_a.go","line_named.go","grammar.go","walk.go"],
[("lines to ranks","parser_rank.go rankFromLines"),("naming and registration of rules","grammar.go postinit"),("optimisation of single-choice nodes","grammar.go walkOptimizeAwayMonochoice")],
["Ast returned by ParseString of both layouts"])
p("C07","Parse functions receive the production and decide the result",
"The parse function of a rule is called exactly when the rule's expression matches at a position that is really tried, with the value of that expression and (when asked for) the current parse context positioned at the end of the match; what it returns becomes the value of the rule, and returning nil makes the rule fail there so that parsing backtracks to the next possibility. That holds for rules given as text, as lines, within a line (whose function applies unless the outer one has its own) or compiled beforehand. The three accepted signatures behave alike, a parse function never runs for a match that did not happen, and a panic raised in it reaches the caller of the parse unchanged and leaves the grammar usable.",
["programs","inputs","fault_sequences"],"all grammars, texts, and assignments of parse functions which transform, refuse, or panic at any invocation",
"Tests attach a few well-behaved parse functions; refusal or panic at an arbitrary invocation, and what is backtracked into afterwards, is a space of fault points.",
["packrat.go","line.go","parsectx.go","parseerror.go","grammar.go"],
[("callback after a match","packrat.go prepareResult"),("three signatures","line.go lineInit")],
["recorded log of parse function invocations","value returned by ParseString","recovered panic"])
p("C08","A failed or partial parse is always reported, at a true place",
"A text which is not matched in full is never reported as a success: the result is a parse error (or nothing, when the text is empty). The reported offset lies inside the text or at its end, its line and column are those of that offset counted from zero, and it is the furthest position at which some rule had begun and matched, or the end of the matched part where that is further.",
["programs","inputs"],"all grammars, all texts not in the language, including multi-line and non-ASCII ones",
"Tests only check that some texts fail; the coordinates in the message are not verified and depend on the whole parse.",
["grammar.go","parseerror.go","codestream_rune.go","helpers/bisect.go"],
[("incomplete parse detection and error message","grammar.go parse"),("line starts and bisection","codestream_rune.go PosToLine, PosToCol")],
["ParseError.ErrorString"])
p("C09","Parsing ends and never crashes, whatever the text",
"Building a well-formed grammar and parsing any byte string with it, however deeply nested, long or malformed (invalid UTF-8, control characters, empty), ends after finite work and returns a value; it never crashes or loops. Ill-formed rule texts and references to rules that do not exist are refused with a panic that can be recovered, and do not damage anything else.",
["programs","inputs"],"all well-formed grammars including repetitions of things that match nothing and left recursion, all byte strings",
"Tests use short well-formed inputs; crashes and non-termination need depth, repetition of empty matches or malformed bytes.",
["packrat.go","parsectx.go","parser_pattern.go","grammar.go","codestream_rune.go","parser_regex.go","helpers/helpers.go"],
[("rule stack","parsectx.go stackPush"),("repetition ends without progress","parser_pattern.go parse"),("left recursion ends without progress","packrat.go loopify")],
["process outcome, CPU time and memory of each parse under a watchdog"])
p("C10","Parsing is a function of grammar and text: no history",
"Parsing the same text with the same grammar gives the same outcome, value and error each time, whatever was parsed before with it, succeeded, failed or panicked, and whatever other grammars were built or used in between. Building a grammar again from equal rules gives an equivalent grammar, and a result obtained earlier is not altered by later parses.",
["histories"],"all histories of building grammars and parsing texts in one process",
"Each test builds a fresh grammar and parses once or twice; state leaking from one parse or grammar to the next needs a history.",
["grammar.go","packrat.go","parsectx.go","joeson_handcompiled.go","helpers/lazy.go","parser_sequence.go"],
[("a fresh context per parse","grammar.go ParseString, parsectx.go newParseContext"),("lazy values computed once","helpers/lazy.go")],
["sequence of (outcome, value, error) per (grammar, text)"])
p("C11","Grammars can be built and used by concurrent goroutines",
"Goroutines that parse with one shared grammar, or that build and use grammars of their own, at the same time and in any interleaving each get the result a lone parse gives, and no data race occurs in the library.",
["schedules"],"all interleavings of building grammars, parsing strings, parsing tokens and tokenizing, from any number of goroutines, with shared or separate grammars and any trace options",
"No test starts a goroutine.",
["grammar.go","packrat.go","parsectx.go","helpers/lazy.go","parser_sequence.go","codestream_token.go","traceoptions.go"],
[("parse state kept in the context","parsectx.go"),("lazy values under a lock","helpers/lazy.go")],
["race detector reports","results compared with sequential ones"])
p("C12","Tracing observes and never influences",
"Trace options given to a grammar, the trace environment variable, and debug or log options given to a rule or to one parse, never change the outcome, value or error of a parse, nor the parse functions called; they also never cause a crash. A muted grammar prints nothing, nor does one without trace options; the parsing steps of its setup are traced if stack is asked for, unless skipsetup is. A debug option given to one parse traces that parse only (also after a panic), and the environment variable is read as documented.",
["configurations","programs","inputs"],"all combinations of trace options, environment values, rule options and parse options, on all grammars and texts",
"Traces are exercised by hand only; nothing compares traced with untraced runs, and trace code runs on failing branches that only some inputs reach.",
["traceoptions.go","parseoption.go","packrat.go","parsectx.go","grammar.go","line.go"],
[("log guarded by options","parsectx.go log, packrat.go loopify"),("per-parse options","grammar.go parse"),("environment","traceoptions.go checkEnvironmentForTraceOptions")],
["standard output of a traced and an untraced run","result of both"])
p("C13","The grammar of grammars describes itself",
"Rule texts mean the same whether they are compiled by the built-in grammar, by the grammar compiled from joeson's own rule texts, or by the grammar compiled by that one in turn: each accepts the same rule texts and yields grammars that behave identically. Whitespace, line breaks, redundant parentheses, leading or trailing bars and escapes in a rule text do not change its meaning, and an ill-formed rule text is refused at construction.",
["programs","inputs"],"all rule texts, through any number of bootstrap generations",
"One test bootstraps once and compares a few parses; equality of the generations over all rule texts is not tested.",
["joeson_handcompiled.go","joeson_intention.go","line.go","grammar.go","parser_pattern.go","parser_regex.go"],
[("hand compiled rules","joeson_handcompiled.go JoesonRules"),("self description","joeson_intention.go IntentionRules")],
["printed structure and behaviour of grammars compiled through each generation"])
p("C14","A text stream's cursor obeys the text",
"On a stream over any text, the position stays within 0 and its length and is set and read back exactly, with an out-of-range position refused; every match primitive succeeds exactly when the text at the position matches, returns what it matched and advances by exactly that many bytes, and leaves the position alone when it fails or only peeks. Lines and columns are counted from zero, are consistent with the line breaks of the text and identify each position uniquely; peeked runes and lines are the corresponding pieces of the text, and what is printed of the cursor tells its place.",
["histories","inputs"],"all texts and all sequences of cursor operations",
"Tests walk over two or three fixed strings.",
["codestream_rune.go","codestream.go","helpers/bisect.go","helpers/helpers.go"],
[("position bounds","codestream_rune.go SetPos"),("line starts","codestream_rune.go NewRuneStream"),("matching","codestream_rune.go MatchString, MatchRune, MatchRegexp")],
["return values and Pos after each operation, against a model"],
[("pos","cursor in bytes","codestream_rune.go RuneStream.pos")])
p("C15","Token streams parse the joined tokens and report original places",
"Parsing a token stream gives the same outcome and value as parsing the concatenated token texts as a plain text. Any position in the concatenation maps to the token containing it, hence to that token's offset in the original text plus the offset inside the token, and the line and column reported for it, also in parse errors, are those of that place in the original text; cursor operations obey the concatenated text, and what is printed of the cursor tells its place.",
["inputs","histories"],"all original texts, all tokenizations (with dropped, inserted or rewritten text), all positions and operations",
"Tests check a few positions of two fixed Go snippets.",
["codestream_token.go","codestream.go","grammar.go","helpers/bisect.go"],
[("coordinates","codestream_token.go coords"),("work text","codestream_token.go NewTokenStream")],
["PosToLine, PosToCol, Pos, match primitives, ParseTokens result"])
p("C16","Tokenizing Go source keeps its tokens and reports its errors",
"For every Go source free of lexical errors, the tokenized text lexes into the same sequence of tokens (comments aside), automatic semicolons being explicit, and each token keeps the offset it has in the source. A source with a lexical error yields an error which mentions that source's errors only, and neither a crash nor a stream.",
["inputs","histories"],"all Go sources, valid or not, and any history of previous calls",
"Tests tokenize about ten fixed snippets, none with a lexical error.",
["codestream_token.go"],
[("separator insertion","codestream_token.go TokenStreamFromGoCode"),("error collection","codestream_token.go TokenStreamFromGoCode")],
["work text as re-read by go/scanner","token coordinates","returned error"])
p("C17","Native values behave as ordered map, array, string and int",
"Native maps keep for every key the last value set, in order of first insertion, and report presence, emptiness, undefinedness and typed access accordingly; native arrays keep what was appended in order. Converting, concatenating and printing native values are total on the kinds they document, agree with their Go counterparts, and a conversion that is impossible is refused by a panic or a false flag rather than by a wrong value.",
["histories","inputs"],"all sequences of operations on native containers, all values",
"One small test sets two keys.",
["native_map.go","native_array.go","native_string.go","native_int.go","native_undefined.go"],
[("key order","native_map.go Set"),("concatenation","native_array.go Concat, native_map.go Concat")],
["return values against a model"])
p("C18","Every parsed node knows the text it came from",
"A node produced by the parse function of a rule carries the span of text that the rule matched, from where the rule was tried to where its match ended, with the source text, the line of its end and the name of that rule; a map made of labels carries the span of the rule, or of the labelled element, that made it; a node which a rule, or its parse function, merely passes on keeps the span it had, whatever is matched around it by alternatives which succeed or are abandoned later; spans of the nodes of a result are nested like the nodes and siblings come in order without overlap (nodes found by looking ahead apart). For a token stream spans are positions in the joined tokens, and the code is the original text.",
["programs","inputs"],"all grammars (left-recursive ones included) whose rules build fresh nodes, or maps of labels, or pass on what they got; all texts",
"No test looks at origins.",
["packrat.go","attr.go","ast.go","parsectx.go"],
[("SetOrigin after the parse function","packrat.go prepareResult"),("start taken from the rule stack","parsectx.go stackPeek")],
["GetOrigin of each node of the result"])
p("C20","A grammar reports its own rules truthfully",
"A grammar built from lines is ready, and counts one rule per line, whatever the level of nesting of the line. Its printed form names its entry lines in order. Its table of rules, printed on demand or while it is built, gives its name and number of rules and lists each rule once, by its given name or the one derived from its rank and place (rank[i]), numbered apart from the others, with the rank it was given in and its expression. Printing has no effect on parsing, nor parsing on what is printed; a destroyed grammar is not ready any more.",
["programs"],"all grammars and all layouts of their lines whose names differ",
"Tests compare the count for joeson's own grammar only.",
["grammar.go","parser.go","colors.go","helpers/stripansi.go","parser_pattern.go","parser_choice.go","parser_sequence.go","line_o.go"],
[("rule numbering","grammar.go postinit"),("printing","parser_*.go String, grammar.go PrintRules"),("derived names","line_o.go toRule")],
["CountRules, IsReady, String, PrintRules"])
p("C21","Helper functions agree with their definitions for all arguments",
"Sorted insertion and bisection keep a list sorted and place equal items on the documented side; string slicing follows the documented negative and out-of-range index rules; taking the last runes of a text (a byte which is not valid UTF-8 counting as one), padding to a number of bytes (PadLeft adds blanks after, PadRight before), escaping control characters and backslashes, adding colours and removing them, listing the keys of a map in order, minimum and maximum give what their documentation says, for every argument. A lazy value is computed once, when first asked for, and then kept, also when several goroutines ask at once; one that is set is not computed; an evaluation which panics leaves it to be computed again.",
["inputs","schedules"],"all arguments of the exported helpers; concurrent readers of a lazy value",
"Tests use a few fixed arguments each.",
["helpers/bisect.go","helpers/helpers.go","helpers/stripansi.go","helpers/mapsorter.go","helpers/lazy.go","colors.go"],
[("bisection","helpers/bisect.go"),("slicing","helpers/helpers.go SliceString"),("lazy","helpers/lazy.go")],
["return values against definitions"])
p("C22","Grammars evaluate expressions to the value their text denotes",
"A grammar whose parse functions evaluate what they match (a calculator with levels of precedence, left- and right-associative operators, unary and postfix operators, parentheses, calls and white space; the sample lisp interpreter) gives for every well-formed text the value that text denotes, by the precedence and associativity its rules express, for each text and independently of the texts before it; a text which is no expression is a parse error.",
["programs","histories"],"all operator tables in each style of writing; all expressions and layouts; all sequences of texts and of lines",
"Tests evaluate a few fixed expressions with one fixed table each, and never run the interpreter itself.",
["grammar.go","packrat.go","parser_sequence.go","parser_choice.go","parser_pattern.go","examples/calculator/calculator_test.go","examples/lisp-repl/main.go","examples/lisp-repl/grammar.go","examples/lisp-repl/machine.go"],
[("outcome of an evaluating parse","grammar.go Grammar.ParseString"),("left-recursive rules and memoization","packrat.go"),("read, parse, evaluate, print loop","examples/lisp-repl/main.go main")],
["ParseString result (NativeInt or ParseError)","standard output of the interpreter process"])
p("C23","Walking a grammar visits each part of it once, in order",
"Walking a compiled expression visits each of its parts once, as written from left to right and depth first, a part before (Pre) and after (Post) what it is made of, with the part it belongs to as its father; a part for which Pre answers __stop__ is not entered and not left, and nothing else is skipped. A walk of a grammar reaches every rule at whatever level it was given, and no other. Walking changes neither what is printed nor what is parsed; a compiled expression prints as what was written.",
["programs"],"all expressions in all writings, all layouts of grammars, all sets of nodes where a walk stops",
"No test walks anything; grammars are built, numbered and prepared by walks, whose order over choices, ranks, repetitions with joins and inert rules matters for each shape of expression.",
["walk.go","parser.go","grammar.go","parser_choice.go","parser_sequence.go","parser_pattern.go","parser_rank.go","parser_existential.go","parser_not.go","parser_lookahead.go"],
[("depth-first walk","walk.go Walk"),("children of each kind of parser","parser_*.go forEachChild"),("rules before other children","walk.go ForEachChildInRules")],
["calls of Pre and Post", "String of the nodes"])
for x in P: 
    assert len(x["title"])<=80,x["title"]
    print(json.dumps(x,ensure_ascii=False))
