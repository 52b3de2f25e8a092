import json
L=[]
def p(id,title,st,over,qt,why,files,mech):
    L.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}})
I=["inputs"]; PR=["programs"]
p("P01","A script with static errors, or one only being checked, never starts running",
 "If any lexical, syntax or semantic error is found in a script, none of it is executed and the process exits with the static-error status; an imported module with such errors makes the import fail as a whole, also without executing any of it. With --check nothing is executed either: the exit status is success when the script is free of static errors and the static-error status otherwise.",
 ["programs","configurations"],"every script and module source, every combination of command line flags","A test runs a few scripts; the guarantee is about every path from loading a source to evaluating it.",
 ["src/main.rs","src/runtime/lib/import.rs","src/semantic/mod.rs","src/syntax/mod.rs"],
 [("run","src/main.rs"),("Analyzer::analyze","src/semantic/mod.rs"),("Analysis::analyze","src/syntax/mod.rs"),("Import::call","src/runtime/lib/import.rs")])
p("P02","No lexical, syntax or semantic error is silently dropped",
 "Every error produced while scanning, parsing or semantically analysing a source ends up in the error list of that analysis; no path through the front end discards an error it has created or received (an attempt to parse something optional that consumed nothing is not an error).",
 PR,"every source text, every error produced at any point of the analysis","Tests look at the errors of a few sources; error recovery paths combine without bound.",
 ["src/syntax/lexer.rs","src/syntax/parser.rs","src/syntax/parser/command.rs","src/semantic/mod.rs"],
 [("Parser error recovery","src/syntax/parser.rs"),("Analyzer::report","src/semantic/mod.rs")])
p("P03","Process exit status contract",
 "The interpreter exits 0 when the script finished normally, 2 on static errors, 127 when the script panicked or could not be loaded and 1 for invalid command line arguments; std.exit ends the process with exactly the requested status and rejects numbers that are not valid statuses.",
 ["programs","configurations"],"every script, every way a run ends","Each ending is a different path out of the entry point; a test covers one.",
 ["src/main.rs","src/runtime/lib/exit.rs"],[("ExitStatus","src/main.rs"),("Exit::call","src/runtime/lib/exit.rs")])
p("P04","Misplaced return, break, self and try are static errors, and only those",
 "Semantic analysis rejects return, self and the ? operator outside a function, break outside a loop of the same function, and built-in commands in asynchronous or capturing blocks, in pipelines or with redirections; the same constructs inside a function (or loop) are accepted, whatever the nesting of blocks, conditionals, loops and functions in between.",
 PR,"every program, every nesting of functions, loops, blocks and conditionals","Nesting combinations are unbounded; tests check a handful.",
 ["src/semantic/mod.rs"],[("Analyzer in_function / in_loop context","src/semantic/mod.rs"),("enter_loop, enter_frame","src/semantic/mod.rs")])
p("P05","Lexical scoping of identifiers",
 "A name refers to the innermost enclosing declaration of it, declarations end with the block that contains them, names declared twice in one scope (including parameters) and undeclared names are static errors, and duplicate keys in one dictionary literal are static errors while equal keys of different (also nested) literals are not.",
 PR,"every program","Scope nesting is unbounded and an unbalanced scope only shows in code after it.",
 ["src/semantic/mod.rs","src/semantic/scope.rs"],[("scope::Stack, Frame, Scope","src/semantic/scope.rs"),("Analyzer::enter_block and its guard","src/semantic/mod.rs")])
p("P06","Operators accept exactly the documented operand types",
 "For every operator and every combination of operand types, evaluation either yields the documented result (arithmetic on two ints or two floats, ordering of two values of the same ordered type, equality and inequality of any values, concatenation of strings, and/or/not on bools, ...) computed from both operands in their written order, or raises a type error; no combination yields anything else.",
 ["inputs","programs"],"all operators, all pairs of value types and all values","Ten types squared times fifteen operators, for all values; the tests cover a few values.",
 ["src/runtime/mod.rs","src/runtime/value/mod.rs"],[("Runtime::binary_op, arithmetic_op, ord_op, unary_op","src/runtime/mod.rs")])
p("P07","Integer arithmetic of scripts never wraps, truncates or crashes the interpreter",
 "Arithmetic on script integers, including negation, ranges and the standard library's numeric functions, either gives the exact mathematical result or raises a panic of the script (a range ends where its next number cannot be represented); it never wraps around, loses bits in a conversion between integers, or aborts the interpreter.",
 I,"all integer operands, including the extreme values","Overflow occurs for a vanishing fraction of operand values.",
 ["src/runtime/mod.rs","src/runtime/lib/"],[("checked arithmetic in the integer operators","src/runtime/mod.rs"),("numeric library functions","src/runtime/lib")])
p("P08","Operands and sub-expressions are evaluated once, in order, with short-circuit",
 "Evaluating an expression or statement evaluates each of its sub-expressions at most once and in the documented order: left before right, object before key, condition before the branch, callee before arguments; the right operand of and/or is evaluated exactly when the left one does not decide the result, and exactly one branch of a conditional runs.",
 PR,"every expression and statement, with sub-expressions that have any effect or control flow","Order is only visible with effects in specific places; combinations are unbounded.",
 ["src/runtime/mod.rs"],[("Runtime::eval_expr, eval_statement","src/runtime/mod.rs")])
p("P09","Return, break and loop control reach exactly their target",
 "A return or break raised anywhere inside an expression, statement or block stops the evaluation of everything up to the enclosing function (or loop) and of nothing beyond it: nothing else of the construct is evaluated, a break ends exactly the innermost loop, a loop body falls through to the next round, and a return's value becomes the result of the call. Conditions that are not booleans raise a panic.",
 PR,"every program, every place a return or break can occur","A missed propagation only shows when a break/return occurs in one particular position.",
 ["src/runtime/mod.rs","src/runtime/flow.rs"],[("Flow handling in the evaluator","src/runtime/mod.rs"),("Flow","src/runtime/flow.rs")])
p("P10","A panic of the script is never swallowed",
 "A panic raised while evaluating any part of a script propagates to the caller, and so to the end of the process, unless it passes through std.catch; no other construct or library function discards a panic it received or replaces it by a normal value.",
 ["programs","fault_sequences"],"every panic raised anywhere","A swallowed panic needs a failing operation at one specific place.",
 ["src/runtime/mod.rs","src/runtime/lib/"],[("Result<_, Panic> propagation","src/runtime"),("Catch::call","src/runtime/lib/catch.rs")])
p("P11","Element access and assignment are bounds- and type-checked",
 "Reading or assigning an element succeeds only for a string/array with an integer index within bounds or a dictionary with any key that is present (assigning also creates it), or the fields of an error; everything else raises the corresponding panic (out of bounds, type error, assignment to a read-only field) and changes nothing.",
 I,"all containers, keys, indices including negative ones","Bounds and type combinations are unbounded.",
 ["src/runtime/mod.rs","src/runtime/value/"],[("Expr::Access and Statement::Assign evaluation","src/runtime/mod.rs"),("Array::index, Dict::get","src/runtime/value")])
p("P12","A call binds every argument, capture and self to its own slot",
 "Calling a function with exactly as many arguments as it has parameters evaluates its body with the i-th argument in the i-th parameter, each captured variable shared with its definition and self bound to the receiver; any other number of arguments raises a panic, calling something that is not a function raises a panic, and after the call the caller's variables and pending arguments are as they were.",
 ["programs","histories"],"every function value, argument list and history of calls","Slot layout mistakes show only for particular numbers of parameters, captures and nesting.",
 ["src/runtime/mod.rs","src/runtime/mem.rs","src/semantic/scope.rs"],[("Runtime::call","src/runtime/mod.rs"),("Stack::extend/shrink/store/place","src/runtime/mem.rs")])
p("P13","for loops follow the iterator protocol",
 "A for loop calls its iterator with no arguments once per round and once more to finish, stops at the first result marked finished, binds the result's value to the loop variable before the body otherwise, and raises a panic when the iterator or its result does not have the protocol's shape.",
 PR,"every iterator function and result","Malformed results and early exits combine without bound.",
 ["src/runtime/mod.rs"],[("Statement::For evaluation","src/runtime/mod.rs")])
p("P14","Standard library functions check argument count and types",
 "Every standard library function called with a wrong number of arguments, or with an argument of a type it does not support, raises a panic naming the number of arguments or an offending argument before doing anything else; it never ignores surplus arguments, reads a missing one or acts on a value of an unsupported type.",
 I,"every library function, every argument list","Functions x argument counts x types; the suite exercises a few good calls.",
 ["src/runtime/lib/"],[("NativeFun::call implementations","src/runtime/lib"),("CallContext::args","src/runtime/value/function.rs")])
p("P15","Type names are consistent everywhere",
 "std.type, std.typecheck's checks and the type name shown in type errors agree: each value type has exactly one name, distinct from all others, and a name accepted by the library stands for exactly the values whose std.type gives that name.",
 I,"all values and type names","Needs agreement of several tables for all types.",
 ["src/runtime/value/mod.rs","src/runtime/lib/"],[("Type","src/runtime/value/mod.rs"),("Type_::call","src/runtime/lib/type_.rs")])
p("P16","A module is evaluated at most once and resolved next to its importer",
 "Importing resolves the path relative to the importing file, evaluates a module at most once per process however it is spelled (again only after an import of it failed), returns the same value to every importer, raises a panic for a circular import, and keeps nothing of a module whose import failed.",
 ["programs","histories"],"every import graph and order of imports","Depends on the history of imports and spellings of paths.",
 ["src/runtime/lib/import.rs"],[("Import::call and the module cache","src/runtime/lib/import.rs")])
p("P17","Values interpolated into commands are never split or glob-expanded",
 "A value interpolated into a command becomes exactly one argument (an array: one argument per element), and its text, as any quoted text, is never treated as a pattern, split at white space or re-interpreted; glob characters written unquoted expand to matching paths only, each match is passed as one argument and can not be mistaken for an option (matches of a relative pattern start with ./), and a pattern without a match stands for no argument. A value which has no text (a dictionary, function, error or nested array) raises a panic, as does a program name or environment variable which is not exactly one item, and then nothing is run.",
 I,"all argument values and file names","Injection needs specific characters in specific positions.",
 ["src/runtime/command/arg.rs","src/runtime/command/mod.rs","src/runtime/command/exec/mod.rs","src/semantic/program/command.rs"],[("Args, build_argument","src/runtime/command"),("Argument::resolve","src/runtime/command/exec/mod.rs")])
p("P18","No command failure goes unreported",
 "A command that cannot be started or exits with a non-zero status or by a signal makes the command block yield an error that carries that status (128 plus the number of the signal, 127 when it could not be started) and the position of that command, for every command of a pipeline and every command of a block; a failing command without ? ends its block there, and one with ? lets the block go on while its error is still reported; when no command failed the block yields nil.",
 ["fault_sequences","programs"],"every combination of failing commands, pipelines, blocks and the ? operator","Failure combinations are unbounded.",
 ["src/runtime/command/exec/mod.rs","src/runtime/command/exec/error.rs"],[("ErrorStatus::wait_child, Command::exec, Block::_exec","src/runtime/command/exec/mod.rs"),("IntoValue for errors","src/runtime/command/exec/error.rs")])
p("P19","Pipelines connect each command to the next and every process is waited for",
 "In a pipeline the standard output of each command feeds the standard input of the next, the first reads and the last writes where the block does, all commands run concurrently and every started process is waited for before the pipeline's result is known.",
 ["schedules","fault_sequences"],"every pipeline length and every timing of its processes","Lost pipe ends and zombies depend on timing and length.",
 ["src/runtime/command/exec/mod.rs"],[("Command::exec","src/runtime/command/exec/mod.rs")])
p("P20","Redirections go to the file or descriptor written, in the order written",
 "> truncates, >> appends, < and << provide standard input, a descriptor number selects the stream redirected (only standard output and error can be), n>m duplicates the current target, and later redirections override earlier ones; any other descriptor raises a panic and the command is not run.",
 PR,"every list of redirections","Redirection lists combine without bound.",
 ["src/runtime/command/exec/mod.rs","src/runtime/command/mod.rs"],[("Redirection handling","src/runtime/command/exec/mod.rs")])
p("P21","Captured output is complete and capturing does not deadlock",
 "A capture block yields the standard output and standard error of its commands, each stream under its own name and in full, whatever their size: both are read concurrently with the commands, and no copy of the write ends survives the commands.",
 ["schedules","inputs"],"every amount and interleaving of output on both streams","Deadlocks need more output than a pipe buffers on one specific stream.",
 ["src/runtime/command/exec/mod.rs","src/runtime/command/mod.rs"],[("capture","src/runtime/command/exec/mod.rs")])
p("P22","An asynchronous block is joined at most once",
 "An asynchronous block returns at once with a handle whose join waits for the block and yields its result; joining a handle a second time raises a panic and never waits or returns a stale result.",
 ["schedules","histories"],"every order of joins and completion","Depends on the history of joins.",
 ["src/runtime/command/join.rs"],[("Join::call","src/runtime/command/join.rs")])
p("P23","Equality, hashing and ordering of values agree",
 "Values that compare equal have equal hashes and order as equal; values are equal only if they have the same type and all of their content is equal (two functions: the same literal with equal captured values, or the same native function), and NaN equals nothing; ordering goes by content in the order of the two operands, orders NaN below every number, and values of different types by one fixed order of the types; so that dictionary lookup, sorting and == agree. A recursive function can be compared with itself.",
 I,"all pairs of values","Quantifies over all pairs of values.",
 ["src/runtime/value/"],[("PartialEq, Ord, Hash of Value and its parts","src/runtime/value")])
p("P24","Everything a live value refers to stays alive, and nothing else does",
 "The garbage collector's traversals (mark, root, unroot) of every collected type visit every field through which another collected value can be reached, exactly once and in step with each other, so that no reachable value is ever freed and none is kept for ever.",
 ["histories","programs"],"every heap shape and every collection point","A missing edge only shows if a collection happens while that edge is the only one.",
 ["src/runtime/value/","src/runtime/mem.rs"],[("Trace/Finalize implementations","src/runtime/value")])
p("P25","Scanning: every source text becomes exactly the tokens the lexical rules give it",
 "Each source text is split into the tokens of the language by longest match: reserved words only as whole words and everything else of that shape an identifier, the one and two character operators, numbers (integers, and floats with a fraction or an exponent), bytes and strings with their escape sequences standing for the documented bytes, comments up to the end of the line, and inside command blocks arguments with their unquoted, single quoted and double quoted parts, variables, home and glob expansions and environment assignments, redirections, pipes and separators. Each token carries the position at which it starts. Everything else (unknown characters and escapes, empty byte literals, malformed numbers or variable names, literals cut off by the end of the file) is reported as an error at its position, and scanning goes on after it.",
 I,"every source text, byte by byte, of any length","Tests scan a few sources; what a byte means depends on the state reached by all the bytes before it.",
 ["src/syntax/lexer/automata/","src/syntax/lexer/cursor.rs"],[("Automata::next, State::visit","src/syntax/lexer/automata/mod.rs"),("Argument, Word, Dollar, Expansion","src/syntax/lexer/automata/argument.rs"),("to_token","src/syntax/lexer/automata/word.rs"),("Cursor::step","src/syntax/lexer/cursor.rs")])
p("P26","Operator precedence, associativity and identity survive all stages",
 "Binary operators group by the documented precedence levels and to the left within a level, unary operators bind tighter, postfix operators tighter still, and each operator of the source is, after parsing and static analysis, the operator of the program that is executed, with its operands in written order.",
 PR,"every expression","Pairs and triples of operators; a swapped mapping shows for one of them only.",
 ["src/syntax/parser/mod.rs","src/syntax/lexer/token/mod.rs","src/syntax/ast/mod.rs","src/semantic/program/mod.rs"],[("parse_expression, parse_binop, parse_prefix, parse_postfix","src/syntax/parser/mod.rs"),("Operator::is_factor .. is_prefix","src/syntax/lexer/token/mod.rs"),("From<ast::BinaryOp>, From<ast::UnaryOp>","src/semantic/program/mod.rs")])
p("P27","Scanning and parsing always make progress",
 "Scanning and parsing terminate on every input: every loop of the scanner and parser consumes input in each round, or leaves the loop, also on malformed input.",
 I,"every source text, however malformed","Hangs need a specific malformed input.",
 ["src/syntax/lexer/mod.rs","src/syntax/lexer/automata/","src/syntax/parser/mod.rs","src/syntax/parser/command.rs","src/syntax/parser/sync.rs"],[("Automata::visit, Cursor::step","src/syntax/lexer"),("parse, parse_block, sep_by, synchronize, force_sync_skip","src/syntax/parser/mod.rs"),("parse_operators, parse_redirection","src/syntax/parser/command.rs")])
p("P28","Static analysis neither drops nor rearranges parts of a program",
 "Every statement, expression, operator, operand, argument, redirection, environment variable and literal of a source that static analysis accepts appears in the program that is executed exactly once, with its own meaning, in its own place and in the written order.",
 PR,"every accepted source, whatever its length and nesting","A dropped or swapped part shows only for the construct and position concerned.",
 ["src/semantic/mod.rs","src/semantic/program/","src/syntax/parser/mod.rs"],[("Analyzer::analyze_*","src/semantic/mod.rs"),("From/TryFrom conversions","src/semantic/program")])
p("P29","The syntax tree is exactly what was written",
 "For every sequence of tokens that the parser accepts without an error, the nodes of the syntax tree are exactly the constructs written, each with its own parts in the written order, with the payload and the source position of its own token, and nothing written is left out or added; and every program of the documented grammar is accepted, each construct reading as far as it can: lists of any length with or without trailing separator, every expression wherever an expression may stand, every kind of command, argument, environment assignment and redirection.",
 PR,"every sequence of tokens","The tests parse a handful of files; a construct dropped, duplicated, misplaced or refused shows only for that construct in that place.",
 ["src/syntax/parser/mod.rs","src/syntax/parser/command.rs","src/syntax/ast/mod.rs","src/syntax/ast/command.rs","src/syntax/lexer/token/mod.rs"],[("Parser::parse, parse_block, parse_statement, parse_primary, parse_postfix, parse_function, parse_condblock, sep_by, eat","src/syntax/parser/mod.rs"),("parse_command_block, parse_basic_command, parse_operators, parse_redirection, build_arg","src/syntax/parser/command.rs")])
p("P30","Library functions do to their arguments what is documented, and nothing else",
 "For every supported argument, each function of the standard library gives the result its documentation names and has just the effect it names: queries (len, is_empty, contains, has_error at any depth) answer for the whole content, push and pop work at the end of the array itself, sort puts the array itself in the order of its elements, iterators give every element once, in order, and then stay finished, text functions (split, replace, trim, substr, bytes, hex, base64, glob, regex) apply the documented operation to the arguments in their documented roles and give every piece, conversions to text keep strings unchanged, std.bind hands object and arguments on unchanged, environment functions act on exactly the variable, value or path given, print and println write every value in full, separated by tabs, and read flushes its prompt first and gives the line. Each way the operation can fail becomes the documented error, panic or nil and never a wrong result or an abort of the interpreter.",
 I,"all argument values: strings, arrays, dictionaries and nestings of any content","A wrong role, a dropped element or an ignored failure shows only for particular arguments.",
 ["src/runtime/lib/","src/runtime/value/array.rs","src/runtime/value/dict.rs","src/runtime/value/string.rs"],[("NativeFun::call implementations","src/runtime/lib"),("Array, Dict, Str operations","src/runtime/value")])
p("P31","Built-in commands act on exactly their arguments, and patterns see what earlier commands did",
 "cd changes the working directory to its single argument, and raises a panic without changing it when its arguments expand to none or several; exec replaces the interpreter by the program of its first argument with the other ones as arguments; exec0 and spawn0 give the program its second argument as its name, and spawn0 starts it as a process and waits for it. Arguments expand as for any other command, too few raise a panic, and a built-in does nothing else. Patterns in a command are matched only when its turn in the block comes, so they see the directory and files as the commands before it left them.",
 ["inputs","programs"],"every list of arguments, arrays and patterns, and every block order","Existing tests do not run built-ins; which argument plays which role shows only with several, distinct ones.",
 ["src/runtime/command/exec/mod.rs","src/runtime/command/mod.rs"],[("Builtin::exec, Builtin::resolve_args","src/runtime/command/exec/mod.rs"),("Block::_exec, Argument::resolve","src/runtime/command/exec/mod.rs"),("build_command","src/runtime/command/mod.rs")])
p("P32","No operation uses a container which an enclosing operation holds",
 "Arrays, dictionaries, error contexts, captured variables and iterators can be used with any aliasing: a container inserted in itself, used as its own key, sorted while it contains itself, captured by several functions. No function keeps such a cell borrowed while it runs code - hashing, comparing, printing, calling, iterating - that may use the same cell in a conflicting way, so the interpreter is never aborted by a borrow conflict.",
 ["inputs","histories","programs"],"every aliasing of containers and every operation on them","A conflict shows only when the same container occurs twice in one operation.",
 ["src/runtime/value/","src/runtime/mem.rs","src/runtime/lib/","src/runtime/command/"],[("Array, Dict, Error borrow and borrow_mut","src/runtime/value"),("Slot::fetch, Slot::store, Slot::capture","src/runtime/mem.rs"),("IterImpl::call, HasError::has_error","src/runtime/lib"),("Join::call","src/runtime/command/exec/join.rs")])
p("P33","Panics and static errors point at the construct concerned",
 "Every panic carries the source position of the construct at fault: the position of the very operand, field or condition whose value the message names, of the call for a call with wrong arguments, stack overflow or a failure inside a native function, of the command for a fault in a command, of the block for a fault of the block; functions remember where they were written, command errors where their command is. Every static error carries the position of the name or construct it is about. Positions pass through every stage unchanged - path, line and column all of the same place - and every panic and static error is printed with its own position and the value or name it is about.",
 PR,"every program and every fault, at any nesting","Each fault has its own position, chosen by hand at the place it is raised; the tests look at none of them.",
 ["src/runtime/mod.rs","src/runtime/source.rs","src/runtime/panic.rs","src/runtime/lib/","src/runtime/command/","src/semantic/mod.rs","src/semantic/error/"],[("eval_expr, binary_op, arithmetic_op, ord_op, call","src/runtime/mod.rs"),("SourcePos","src/runtime/source.rs"),("Panic","src/runtime/panic.rs"),("NativeFun::call implementations","src/runtime/lib"),("Analyzer","src/semantic/mod.rs")])
p("P34","Values, panics and names are printed as what they are",
 "What print, println, to_string and the message of a panic show of a value is its whole content and nothing else: nil, the truth value, the number - a float in the form which reads back as the same float -, the byte as a character, the escaped text of a string between quotes, every element of an array once and in order between brackets, every entry of a dictionary once with its key before its value between @[ and ], a native function by its name and another one by where it was written, an error with its description and its context - at any nesting. A panic shows every value and number it carries, in its role; a name is shown as its escaped text.",
 I,"every value, of any size and nesting","Tests print a few values; a dropped separator, element or escape shows only for particular contents.",
 ["src/runtime/value/fmt.rs","src/runtime/panic.rs","src/symbol/fmt.rs","src/fmt.rs"],[("Display of Value, Array, Dict, Str, Float, Error, Function","src/runtime/value/fmt.rs"),("Display of Panic","src/runtime/panic.rs"),("Display of Symbol","src/symbol/fmt.rs"),("Show","src/fmt.rs")])
p("P35","JSON conversion keeps the whole value",
 "std.json.encode gives JSON text for exactly its argument: nil as null, truth values, integers and floats with the same value, strings and bytes as texts, every element of an array once and in order and every entry of a dictionary under its own key - and raises a panic, instead of text, for anything which contains a function, an error or a key that is no string. std.json.decode gives the value the whole of its argument describes: null as nil, integers as int and refused when they do not fit, other numbers as float, texts, every element in order and every entry, the last one where keys repeat - and an error with the reason when the text is not JSON. Failures at any depth reach the result.",
 I,"every value and every text, of any size and nesting","Tests convert none; a wrapped integer, a dropped entry or a swallowed failure shows only for particular documents.",
 ["src/runtime/lib/json.rs"],[("Serialize for Value","src/runtime/lib/json.rs"),("Deserialize for Value, ValueVisitor","src/runtime/lib/json.rs"),("Encode, Decode","src/runtime/lib/json.rs")])
p("P36","The command line selects the script, and its arguments reach std.args",
 "The first word after the interpreter's own flags is the script when it names a file; a single - means standard input, and with no word, or a first word which is no file, the source is read from standard input. All the other words - in the last case the first one too - are the arguments of the script: std.args gives an array of exactly these words, as strings with the same bytes, in their order, also when they look like flags. Each flag --check, --lex, --ast and --program switches its own function on and nothing else. The source which is run is the whole content of the named file, or of standard input, and a source which cannot be read is an error.",
 I,"every command line, with any number of words of any bytes","Tests never start the interpreter; a dropped, reordered or re-encoded word shows only for particular command lines.",
 ["src/args.rs","src/main.rs","src/runtime/mod.rs","src/runtime/lib/args.rs","src/syntax/source.rs"],[("args::parse","src/args.rs"),("run","src/main.rs"),("Runtime::new","src/runtime/mod.rs"),("Args::call","src/runtime/lib/args.rs"),("Source::from_path, Source::from_reader","src/syntax/source.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
