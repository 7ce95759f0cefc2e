import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":", ".join(files)} for m in mech]}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
G=["ast/ast.go","ast/tokens.go","ast/y.go"]
p("C01","Parallel parses are isolated from each other",
"When any number of goroutines parse, print, serialise and walk different modules at the same time, every call returns exactly what the same call returns when nothing else runs, and for a well-formed module that is the tree its text denotes. This holds for every interleaving and without data races, also when some of the modules are malformed or a sibling parse is cut short by a panic.",
["schedules","inputs","fault_sequences"],"every interleaving, at statement granularity, of any number of parse/read jobs over any mix of well-formed, malformed and abandoned modules",
"The tests never start a goroutine: no interleaving of two parses is ever executed, and a shared buffer, cache, pool or parser state would pass all 155 of them.",
G+["ast/ast_struct.go","ast/ast_print.go"],
["All parse state lives in the node and in a parser value created per call; keyword tables and parser tables are package variables that are only read","lexer state is a token value copied inside the parser"],
[{"name":"node loop/try/function flags","meaning":"per-parse context counters","where":"ast/ast.go AstNode"},{"name":"tokens, directives","meaning":"read-only keyword tables","where":"ast/tokens.go"}])
p("C02","One parsed tree can be read by many goroutines at once",
"After a parse has returned, any number of goroutines may print the tree with any options, print single statements, serialise it, walk it with read-only callbacks and fetch its source at the same time. Every such call returns exactly what it returns when run alone, for every interleaving and without data races.",
["schedules","programs"],"every interleaving of any number of readers of the same tree, any printing options",
"No test reads a tree from two goroutines; a printer that keeps its buffer, options or indentation in the tree, or a lazily built cache, passes them all.",
["ast/ast_print.go","ast/ast_struct.go","ast/ast.go"],
["each print call builds its own printer and string builders","walking and serialising only read the tree"])
p("C03","Reading a tree never changes it, even when the read is cut short",
"Printing (whole or per statement, any options), serialising and walking with a read-only callback leave the tree exactly as parsing built it, so any later read returns the same bytes as if the earlier reads had not happened. This also holds when a read is cut short at an arbitrary point by a panic.",
["histories","crash_points"],"every sequence of reads, each optionally interrupted at any instant",
"Tests read a tree once and compare nothing afterwards; none interrupts a read half-way.",
["ast/ast_print.go","ast/ast_struct.go","ast/ast.go"],
["read paths take statements by value or only read through pointers","print options live in the per-call printer, not in the tree"])
p("C04","Parsing a node again gives the same result",
"Calling parse again on the same node, after a success, after an error, or after an attempt cut short by a panic, leaves the node with exactly the tree and the error that one parse of a fresh node with the same source gives, and with its source text unchanged. The outcome does not depend on how often it is retried, nor on which reads or edits of the tree came in between.",
["histories","crash_points"],"every sequence of parse attempts on one node, each attempt succeeding, failing or being abandoned at any instant, mixed with reads",
"Every test parses each node exactly once.",
["ast/ast.go","ast/ast_struct.go","ast/grammar.y","ast/y.go"],
["a parse attempt starts from the node's initial state: no declarations, no error, context flags cleared"],
[{"name":"module tree, error, context flags","meaning":"everything a parse attempt writes to the node","where":"ast/ast.go AstNode"}])
p("C05","Earlier parsing leaves no residue",
"What parsing a module returns depends only on its text, not on which other modules were parsed, printed, rejected or abandoned earlier in the same process. Within one module, likewise, each procedure or function yields the same tree, and is accepted or rejected, as if it stood alone, whatever declarations come before it.",
["histories","crash_points","inputs"],"every history of parses, reads, failures and abandoned parses in one process, and every sequence of declarations in one module",
"Each test parses one fresh module and asserts on it; no test relates a result to what was parsed before it, and within a module the tests look at single declarations.",
["ast/ast.go","ast/grammar.y","ast/y.go","ast/tokens.go"],
["no package-level mutable state","every grammar action builds its value only from its own operands","context counters are balanced on every path"],
[{"name":"parser value stack","meaning":"slots are reused; an action must not read what an earlier reduction left there","where":"ast/y.go"}])
p("C06","A finished tree is never altered by later activity",
"Once a parse has returned, its tree, error and everything printed from it stay the same for as long as the program holds them, whatever else is later parsed, printed, rejected or abandoned in the process and whenever memory is reclaimed. Names and literals in a tree never share storage that later work reuses.",
["histories","schedules","crash_points"],"every later history and interleaving of parses, reads, abandoned parses and garbage collections",
"Tests inspect a tree immediately after parsing it and then drop it; reuse of a buffer by a later parse cannot be seen that way.",
["ast/tokens.go","ast/ast.go","ast/y.go"],
["literals are freshly allocated strings","statement slices are built per parse and not recycled"])
p("C07","Damaged source never crashes or hangs the library",
"For any byte string, including a module that was truncated, bit-flipped, zero-filled, cut in the middle of a character, or had parts lost, repeated or swapped, parsing returns a result or an error within work proportional to the length of the text (statements executed, bytes searched through, bytes allocated), without panicking. Printing, serialising and walking whatever tree the parse left also complete without panicking, and the outcome is the same every time.",
["fault_sequences","inputs","crash_points"],"every sequence of storage faults applied to any module text",
"The tests hold about thirty hand-written erroneous texts and no truncated, corrupted or invalid UTF-8 text at all.",
["ast/tokens.go","ast/ast.go","ast/y.go","ast/ast_print.go","ast/ast_struct.go"],
["every scan loop stops at end of input","every token read advances","bounds are checked before indexing the source"])
p("C08","A torn module is never mistaken for a complete one",
"If a well-formed module's text is cut off (or zero-filled) at any byte after the opening keyword of a procedure, function, variable declaration or block statement and before the end of its closing token, inside a string or date literal (not between the halves of a doubled quote), or between an opening bracket and its closing one, parsing reports an error; if it is cut between two top-level parts, parsing succeeds with exactly the parts before the cut. Any loss, repetition, replacement or exchange of the tokens that open, divide or close a construct after which they no longer pair up is also reported as an error.",
["crash_points","fault_sequences"],"every cut or zero-fill position of every well-formed module, and every loss, repetition, replacement or exchange of structure tokens",
"The tests contain a few modules with one closing keyword missing or misspelt; no test cuts a module at every position or looks at what survives before the cut.",
["ast/tokens.go","ast/ast.go","ast/grammar.y","ast/y.go"],
["grammar requires the matching closing token of every construct","scanners report end of input inside a literal","a lexical error is kept until the parse returns"])
p("C09","Errors after damage point at a real place, not before the damage",
"When a well-formed module is damaged from some byte on and the reported error carries a line and a column, that place lies inside the text and the literal quoted by the error really stands there. It is never earlier than the last token that ends before the damage (a token the damage touches or continues does not count). Text that cannot be parsed is reported where it stands, no matter whether misplaced statements (a break outside a loop, a raise outside a handler) come before it.",
["fault_sequences","crash_points"],"every well-formed module and every storage fault (cut, corruption, loss, repetition) at any byte",
"Tests compare some thirty fixed messages, none next to a string, date, multi-line literal or truncated text.",
["ast/ast.go","ast/tokens.go"],
["the node remembers the last token handed to the parser and reports where it starts"],
[{"name":"current token","meaning":"last token handed to the parser, with its source offset","where":"ast/ast.go AstNode"}])
p("C10","Results depend only on the source and the options",
"For a given source and given options the parse error, the printed text (including the order of module variables), the serialised form and the order of a walk are byte-for-byte the same on every call and in every process. Hash-map iteration order, hash seeds, the process time zone, the wall clock, random numbers and the moment of garbage collection have no influence; in particular a date constant means the same date everywhere.",
["configurations","schedules","histories"],"every map iteration order, hash seed, time zone, clock value or jump, random stream and collection schedule",
"Each test runs once in one environment and compares no two runs; map iteration order is not under a test's control.",
["ast/ast_print.go","ast/ast.go","ast/tokens.go","ast/ast_struct.go"],
["maps are not iterated in an order that reaches the output","dates are parsed and formatted without reference to the local zone or clock"])
p("C11","The library never touches the process's standard streams",
"Parsing, printing, serialising, walking and tokenising write nothing to standard output or standard error and read nothing from standard input, for any input. Closed, full or broken standard streams therefore never change a result, block a call or end the process.",
["fault_sequences","inputs"],"every input and every state or failure of the three standard streams",
"Tests do not capture the process's streams; stray diagnostics pass unnoticed.",
["ast/tokens.go","ast/ast.go","ast/y.go","ast/ast_print.go"],
["results and errors are returned as values; parser debug output is off"])
p("C12","Walking is exact and survives misbehaving callbacks",
"A walk calls back exactly once for every statement in every body (module, procedure, branch, loop, try and catch), inner statements before the one that contains them, the statements of one body in source order, in the same order every time, and names the procedure or function that encloses the statement (none for module-level statements). A callback may panic, start further walks, print or serialise the tree: a panic reaches the caller and ends only that walk, later walks and reads are unaffected, and nested or concurrent walks each visit as if alone. When a callback replaces the body statement it was given, later output shows the replacement and everything else unchanged.",
["fault_sequences","histories","schedules","programs"],"every tree, every point at which a callback panics, re-enters or edits, and every interleaving of walks over different trees",
"No test calls the walk functions at all.",
["ast/ast_struct.go"],
["walk state is only on the call stack","callbacks receive a pointer to the element inside the body slice"])
p("C13","Token readers are independent and always make progress",
"Any number of token readers, interleaved over the same or different caller-supplied sources, each see the token sequence, positions and errors they would see alone. Every read either advances in the source or reports the end, and the end stays the end, so reading any byte string token by token finishes in as many reads as it has bytes plus one. A source that becomes shorter between two reads is treated as ended, one that grows after its end was reported is read on from there, one whose unread part changes between two reads is read as it then is, and none of this crashes or hangs the reader.",
["schedules","fault_sequences","inputs"],"every interleaving of readers, every byte string, every moment at which the source shrinks, grows or changes",
"The tests read a few fixed sources with one reader each; the source never changes and no two readers are interleaved.",
["ast/tokens.go"],
["all lexer state is in the token value; the source is read only through the caller's interface","offset bounds are checked against the source on each access"])
p("C14","The C lower-casing helper is safe for torn text and parallel callers",
"For any byte string the helper terminates and returns a string of the same length in which A-Z, А-Я and Ё are lower-cased and every other byte is unchanged, also when the text is cut in the middle of a character or is not valid UTF-8. It touches no memory outside its own copy, and concurrent callers each get the result they would get alone.",
["fault_sequences","schedules","inputs"],"every byte string, every cut or corruption of it, and every interleaving of callers",
"The package has no tests; nothing in the repository calls it.",
["ast/fast_tolower/gowrap.go"],
["the C loop is bounded by the length of its private copy of the string"])
p("C15","Damage to layout, letter case or one literal stays there",
"Comments, preprocessor lines and blank space may be damaged or added in any way that leaves them comments, lines and blanks, and keywords may change letter case: the tree of an accepted module, and the verdict and message (apart from the place) on a rejected one, stay the same. Damage inside a string, number or date literal or a name changes that literal or name and nothing else; characters of a date other than digits do not count, and an undecodable byte of a string reads as U+FFFD.",
["fault_sequences","inputs"],"every damage confined to layout, keyword case, literals and names, at any place of every module",
"Tests place a few comments and regions and use a few spellings and literals; none damages them.",
["ast/tokens.go"],
["layout is skipped before each token up to the line end only","keywords are compared in lower case","scanners copy literals character by character"])
p("C16","A statement torn out of its context is rejected",
"However the keywords of loops, exception handlers and functions are torn away or changed around their content, or a statement is written to a wrong place: a break or continue outside every loop, an exception raised again outside every handler and a value returned outside every function are reported as errors. As long as every statement still stands in its context, the module is accepted with exactly the statements that remain.",
["fault_sequences","programs"],"every set of loops and handlers torn away, functions turned into procedures and stray statements, in every nesting",
"Tests hold a dozen fixed nestings.",
["ast/ast.go","ast/grammar.y","ast/y.go"],
["context counters raised and lowered by grammar actions in the middle of rules"])
p("C17","Lost, repeated or reordered parts are noticed or parsed exactly",
"When whole top-level parts of a module are lost, written twice, put in another order or mixed with parts of another version of the module, or a name is repeated in the list of a declaration, parsing reports an error if a module variable is then declared twice or after a procedure, or a declaration follows module statements. Otherwise the tree holds exactly the parts that are there, in the order in which they stand (procedures of the same name may all be kept or be rejected).",
["fault_sequences","histories"],"every sequence of losses, repetitions and exchanges of the top-level parts of every module, also between two versions of it",
"Tests hold a few fixed arrangements.",
["ast/ast_struct.go","ast/grammar.y","ast/y.go"],
["checks when a part is appended to the tree"])
NA="A pure function of the source text: one call, one result, no schedule, clock, I/O, shared state or fault is involved."
p("C18","Work that is over is given back",
"However many modules are parsed (accepted or rejected), tokenised, printed, serialised and walked (also with callbacks that panic), and however many words are lower-cased, one after another or in parallel: once the program drops what it was given, the Go and C memory, goroutines and file descriptors behind it can be reclaimed, so that use does not grow with the number of such histories, even if no text occurs twice. Nor does a node the program keeps grow when it is parsed and read again and again.",
["histories","schedules","fault_sequences"],"every history of calls over ever new texts, good or damaged, repeated without end, serial or parallel",
"Each test parses a text or two and ends; no test repeats anything, and a registry, cache, missing free or waiting goroutine leaves all results as they were.",
["ast/ast.go","ast/tokens.go","ast/ast_print.go","ast/ast_struct.go","ast/fast_tolower/gowrap.go"],
["no package-level mutable state refers to nodes, names or texts","the C copy of a string is freed in the call that made it","no goroutine, file or finalizer outlives a call"])
p("C20","Printed code means the same as the code that was parsed",
"Parsing the printed form of a tree yields an equal tree, for every tree that parsing can produce and all printing options.",
["inputs"],"every well-formed module","Tests print one module and assert only that it parsed.",["ast/ast_print.go"],["printer emits every construct with its operands and grouping"])
p("C21","The tree mirrors the source's structure and operator precedence",
"Every statement of the source appears in the tree once, in source order and nesting, and expressions group by 1C operator precedence and associativity.",
["inputs"],"every well-formed module","Tests compare a handful of trees.",["ast/grammar.y","ast/y.go"],["grammar actions and precedence declarations"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import sys
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print('long',x['id'],n)
