SOUND = ("All paths of the named functions are covered by a fixpoint; loops are widened, recursion is bounded or replaced by the "
         "contract that the same check establishes (induction). ")

P("C01", "Operators accept exactly the operand types the language allows",
  "An expression is accepted only if every operator in it is applied to operand types the language defines for that operator "
  "(same type on both sides; numbers for arithmetic and ordering, Int for shifts, Bool for logic, any value but not Void for is and isnt, identifiers for references), "
  "and every such well-typed expression is accepted. Dividing or taking the remainder by the literal zero is rejected.",
  ["inputs", "programs"], "every operator, every pair of operand types, every syntactic form of the operands, at any nesting depth",
  "Tests sample a few dozen operator/type combinations of several hundred; an operator whose check is loosened for one type pair passes all of them.",
  ["semantic/expr.c"], [("expression validation", "semantic/expr.c")], ["compile success or a type error"],
  note=SOUND + "Operands obey the same contract; two reference types stand for all.")

P("C02", "Every accepted expression carries the type the language gives it",
  "The type of an accepted expression is determined by the language: arithmetic and shifts keep the operand type, comparisons and "
  "logic give Bool, a reference to T is &T (one type for each T, however often it is asked for) and a dereference of &T is T, a literal has the type of its notation, a name the type of "
  "its variable and a call the return type of the function.",
  ["inputs", "programs"], "every operator and operand type, every literal kind, every variable and function type",
  "Result types surface only when an expression of that shape is stored, returned or passed; tests cover a handful of shapes.",
  ["semantic/expr.c", "semantic/types.c"], [("expression typing", "semantic/expr.c")], ["type errors", "generated code"],
  note=SOUND)

P("C03", "A program is never rejected without a diagnostic",
  "Whenever semantic analysis rejects a program, at least one error has been reported to the user, or a warning was reported while "
  "warnings are treated as errors.",
  ["inputs", "programs", "configurations"], "every statement, expression, lookup, declaration and import, in every context, with and without --werror",
  "A missing message on one rare path makes the compiler exit with failure and say nothing; tests look only at known messages.",
  ["semantic/entry.c", "semantic/expr.c", "semantic/flow.c", "semantic/func.c", "semantic/scope.c", "semantic/assign.c", "semantic/import.c", "semantic/unused.c"],
  [("diagnostic sink", "common/errors.c")], ["stderr", "exit status"], note=SOUND)

P("C04", "A reported error always fails the compilation",
  "If any error is reported while a program is analysed, the program is rejected; every statement of every block is analysed, and a "
  "failure inside any part of a statement fails the whole.",
  ["inputs", "programs"], "every error path in every statement and expression kind, every position in a statement list",
  "A dropped return value on one path lets an erroneous program through to code generation; tests exercise each error in one context.",
  ["semantic/entry.c", "semantic/expr.c", "semantic/flow.c", "semantic/func.c", "semantic/assign.c"],
  [("tree validation", "semantic/entry.c")], ["exit status", "absence of output"], note=SOUND)

P("C05", "Warnings fail the compilation exactly when --werror is given",
  "A program whose analysis reports only warnings is accepted without --werror and rejected with it, whichever warning it is and "
  "wherever in the program it arises.",
  ["inputs", "programs", "configurations"], "every warning, every place it can arise, both settings of --werror",
  "The flag has to be consulted at every warning and carried through every caller; tests combine it with two or three warnings at top level.",
  ["semantic/unused.c", "semantic/flow.c", "semantic/assign.c", "parse/token.c"], [("warning macro", "common/errors.h")],
  ["exit status"], note=SOUND)

P("C07", "Definitions and assignments follow the variable rules",
  "A definition is accepted exactly when its value is valid, of the declared type if one is given, not a Void call, and its name is free; an "
  "assignment exactly when the variable exists, is mutable, is not assigned to itself and the types agree. An accepted definition makes "
  "exactly that name visible with that type, mutability and export status, and not to its own initialiser; a type alias stands for the type it names.",
  ["inputs", "programs"], "every value type, declared type, modifier and symbol table content",
  "The combinations of modifier, explicit type, value form and existing symbols are far more than the tests sample.",
  ["semantic/assign.c", "semantic/variable.c", "semantic/symbol.c"], [("definition and assignment validation", "semantic/assign.c")],
  ["compile success or error"], note=SOUND)

P("C08", "Control flow statements are accepted exactly where they make sense",
  "Conditions must be Bool and have a block; elif and else must follow an if or elif (comments aside); break and continue are accepted "
  "exactly inside a loop; nothing but comments and markers may follow a break, continue, return or unreachable in its block.",
  ["inputs", "programs"], "every control-flow statement in every surrounding",
  "Surroundings (loop depth, preceding and following statements) are unbounded; tests sample a few.",
  ["semantic/flow.c", "semantic/entry.c"], [("flow validation", "semantic/flow.c")], ["compile success or error"], note=SOUND)

P("C09", "Functions, returns and calls agree on arity and types",
  "A call is accepted exactly when the function is declared and the number and types of the arguments match its declaration; a return exactly when "
  "its value has the enclosing function's return type (Int in main). A function that declares a return type ends in a return, its parameters are "
  "constants of their declared types (never Void) visible in its body, and external or exported functions are not nested.",
  ["inputs", "programs"], "every declaration, return and call, any parameter count and type, any nesting",
  "Mismatches in rarely used positions (second argument, nested block, nested function) are not sampled by tests.",
  ["semantic/func.c", "semantic/flow.c"], [("function validation", "semantic/func.c")], ["compile success or error"], note=SOUND +
  "Parameter counts 0-2 are analysed; larger counts run the same loop.")

P("C10", "Names resolve to the nearest visible declaration, and none is shadowed",
  "A name refers to the declaration found first going outwards through the enclosing blocks, and only to a symbol of the kind the context asks for; a qualified "
  "name goes through the namespace it names. Declaring a name that is visible or built in is an error, and a block's declarations are not visible after it.",
  ["inputs", "programs", "histories"], "every nesting of blocks, every order of declarations and uses",
  "Scope chains are unbounded and order dependent; tests use one or two levels.",
  ["semantic/scope.c", "semantic/symbol.c", "semantic/types.c"], [("scope chain", "semantic/scope.c")], ["compile success or error"],
  note=SOUND + "Scope chains up to three links are enumerated; the lookup is a loop/recursion over links.")

P("C11", "A statement leaves the analysis context as it found it",
  "After a statement has been analysed, the statements that follow it see the same loop nesting and the same enclosing function as "
  "before it, whatever blocks, loops, functions or namespaces it contained.",
  ["programs", "histories"], "every accepted statement, in every surrounding",
  "A context left behind shows up only in the statement after a rare nested construct.",
  ["semantic/flow.c", "semantic/func.c", "semantic/scope.c"], [("context save and restore", "semantic/flow.c")],
  ["verdict on the following statement"], note=SOUND)

GEN = ("The LLVM C API is replaced by a recording model, so what is judged is the code the generator asks LLVM to build; "
       "LLVM itself is trusted. ")

P("C12", "Generated code computes each expression with the operator's own meaning",
  "For every accepted expression the LLVM back end emits an operation that computes exactly what the operator means for the operand "
  "type (signed integers, ordered float comparison, logical right shift, string equality by content, identity of references), on the operands in source order, "
  "evaluated once each from left to right; literals become constants of their value and type, and calls pass the arguments in order.",
  ["inputs", "programs"], "every operator, operand type, constant or computed operand, literal kind, argument count",
  "A wrong predicate, swapped operands or a stray poison flag changes results for particular values only; tests compare generated text for a few programs.",
  ["codegen/llvm/expr.c"], [("expression lowering", "codegen/llvm/expr.c")], ["generated LLVM IR", "results of the compiled program"],
  note=GEN + "The meaning of the runtime helpers in shim.ll is not covered.")

P("C13", "Generated control flow follows the source statements",
  "Conditions are tested in order and select exactly the block the program names; loops re-test their condition before every iteration; break and "
  "continue act on the innermost enclosing loop; return leaves the function with its value; statements after an if chain, loop or namespace run exactly when control reaches them; "
  "no emitted block is left without, or given a second, terminator.",
  ["programs", "inputs"], "every if chain, loop, namespace and jump, in any nesting and any order, whatever the conditions evaluate to",
  "Which blocks end early and what follows them combine without bound; tests fix the text of about thirty programs.",
  ["codegen/llvm/flow.c", "codegen/llvm/core.c"], [("statement lowering", "codegen/llvm/flow.c")],
  ["generated LLVM IR", "behaviour of the compiled program"], note=GEN +
  "Induction over nesting; if chains up to four arms; traces with up to three condition tests.")

P("C14", "A variable always reads as the value last given to it",
  "In generated code, reading a constant, variable, parameter or reference yields the value its definition or the latest assignment gave it, in every "
  "loop iteration and every call, from the defining function or another, directly or through a reference.",
  ["programs", "histories"], "every kind of variable, every type, every order of definition, assignment, reference and read, inside and outside loops and functions",
  "Values cached across iterations or functions show only in particular sequences of operations; tests compare text of straight-line programs.",
  ["codegen/llvm/assign.c", "codegen/llvm/expr.c", "codegen/llvm/shared.c"], [("variable storage", "codegen/llvm/assign.c")],
  ["generated LLVM IR", "behaviour of the compiled program"], note=GEN +
  "Fixed operation sequences, each interpreted for two rounds over an abstract memory.")

P("C15", "Functions are generated with their declared signature, linkage and ending",
  "Every function is emitted with its declared parameters and return type under its linkage name, exported and external functions with external "
  "linkage and all others private to the module; parameters name the arguments in order; a void function, and the program itself with status 0, returns when its end is "
  "reached; and generation resumes where the declaration stood.",
  ["programs"], "every signature, linkage kind, nesting and way the body can end",
  "Signatures and endings combine; tests have a handful of functions.",
  ["codegen/llvm/func.c", "codegen/llvm/core.c", "codegen/llvm/types.c"], [("function lowering", "codegen/llvm/func.c")],
  ["generated LLVM IR", "linking with C"], note=GEN + "Parameter counts 0-3.")

DRV = ("Library calls (stdio, fork, exec, wait, LLVM) may succeed or fail at every call; what they do when they succeed is trusted. ")

P("C06", "Exit status zero exactly when everything asked for was produced",
  "The compiler exits with 0 only if the source was read, every stage accepted it, and the requested output was written (and linked when an executable is asked for); when any stage or "
  "file or linker operation fails it exits non-zero and no later stage runs.",
  ["inputs", "crash points"], "every stage, every call that can fail, every option combination",
  "Failures of files, the linker and the module verifier are not provoked by tests; every call can fail independently.",
  ["pipeline.c", "real_main.c", "codegen/llvm/write.c", "codegen/c/write.c"],
  [("pipeline staging", "pipeline.c"), ("output writing", "codegen/llvm/write.c")],
  ["exit status", "files written", "messages on stderr"], note=DRV)

P("C16", "The options select the product, its file and how it is made",
  "The product is exactly what the options name: LLVM IR with -E, assembly with -S, an object with -c, C text with the C back end, otherwise a linked executable; it goes "
  "to the file given with -o, to the terminal for -o -, or else to the source's own name with the product's extension (an executable always takes the source's name without extension); the optimisation level, verification and extra linker arguments are those requested.",
  ["inputs"], "every combination of options",
  "Option combinations are many; tests run a handful.",
  ["codegen/llvm/write.c", "codegen/c/write.c", "pipeline.c"], [("output selection", "codegen/llvm/write.c")],
  ["files written", "linker command line"], note=DRV + "The text of generated file names is compared by parts, not by character.")

P("C22", "The command line sets exactly what it says, and refuses what makes no sense",
  "Each documented option sets its own setting and nothing else; -o takes the next argument; the last file named is the one compiled; arguments after -- go to the linker; unknown options, a missing source, "
  "a repeated option, a missing operand and contradictory options are refused with a message and a non-zero status before anything is compiled.",
  ["inputs"], "every argument after any accepted prefix of options",
  "Option strings and their combinations are unbounded; tests run a handful.",
  ["cli.c"], [("option parsing", "cli.c")], ["exit status", "resulting build"],
  note=DRV + "One argument (with its operand) is analysed from every combination of at most two settings made before it, with unknown text; longer command lines repeat the same step.")

PAR = ("Token kinds are left open, so every combination of kinds the parser can tell apart is decided; the bound is the length of the token list. ")

P("C21", "Expressions group by the documented precedence",
  "Every expression is parsed into the tree its operators' precedence, left-to-right association, unary operators, parentheses and call arguments give it, with each "
  "operator token standing for its own operator and each operand in source order; an expression with a missing operand, a doubled unary operator or an unclosed parenthesis is rejected.",
  ["inputs", "programs"], "every sequence of operands, unary and binary operators, parentheses and calls",
  "Operator combinations grow exponentially; tests sample a few pairs.",
  ["parse/ast_node.c"], [("expression parser", "parse/ast_node.c")], ["generated code", "compile error"], note=PAR +
  "Up to four operands; every pair of operators in every arrangement, one operator of each precedence level in triples.")

P("C23", "Statements are parsed as what they say, or rejected",
  "Every statement form (definitions with their modifiers and types, assignments, declarations with parameters and return type, calls, conditions, loops, jumps, imports, namespaces, comments) becomes exactly one tree node "
  "of its kind, with its names, types, modifiers, value, parameters and block, in source order; no token is dropped or attached to another statement; anything that is not a statement is rejected.",
  ["inputs", "programs"], "every token in every position of every statement form, statements in any order, in and outside blocks",
  "A token swallowed or a block attached to the wrong statement shows only for particular neighbours.",
  ["parse/ast_node.c"], [("statement parser", "parse/ast_node.c")], ["generated code", "compile error"], note=PAR +
  "Statement templates with one or two open tokens, alone, in pairs and in nested blocks.")

P("C25", "No token sequence crashes the parser, hangs it or fails without a message",
  "Whatever tokens a file consists of and wherever it ends, the parser ends, touches only live memory, frees nothing twice, and either returns a well-formed tree without "
  "having reported an error, or reports at least one error and returns nothing.",
  ["inputs"], "every token sequence, cut off at any point",
  "Truncated and malformed programs are unbounded in number; tests have a few dozen.",
  ["parse/ast_node.c"], [("parser error handling", "parse/ast_node.c")], ["exit status", "messages"], note=PAR +
  "All lists of up to three tokens; thirteen long statements with every prefix, deletion, and open token.")

LEX = ("Characters are left open, so every combination the code can tell apart is decided; the bound is the length of the text. ")

P("C19", "Every word is the kind of token the language says it is",
  "A word is a keyword, operator, integer, float, bool, rune, string, name, dotted name or new name exactly when it has that documented form; nothing else is accepted as one, names that "
  "clash with keywords, literals or built-in types cannot be defined, and classification depends on nothing but the word's own characters.",
  ["inputs"], "every word, whatever surrounds it",
  "Words are unbounded; a wrong character range or length limit shows only for particular spellings.",
  ["parse/classify.c", "common/str.c", "parse/token.c"], [("token classification", "parse/classify.c")], ["compile errors", "generated code"], note=LEX +
  "Words of up to three arbitrary characters; every keyword, operator, type name and literal form with any one character replaced, added or removed. Unspecified: 0_1, -0x1, a..b, a.1, underscores in fractions.")

P("C20", "Source text is cut into tokens at the right places and positions",
  "Every source text is split into exactly the words, delimiters, quoted literals, comments and line breaks it contains, in order and losing nothing, each with its exact extent, line and column; "
  "unclosed quotes and comments, nested block comments and malformed comment starts are rejected with an error at their position; a byte order mark is skipped with a warning.",
  ["inputs"], "every text",
  "Tests cover a few dozen texts; touching tokens, comments, escapes and line breaks combine without bound.",
  ["parse/token.c"], [("tokenizer", "parse/token.c")], ["positions in messages", "generated code", "compile errors"], note=LEX +
  "All texts of up to three characters, and templates around words, quotes, escapes, comments, line breaks and delimiters. A quote touching a word, and the column of a line break, are unspecified.")

P("C28", "Every literal stands for its documented value",
  "An integer literal has the value of its digits in the base of its prefix, underscores ignored; a float that of its text; a bool, rune or string that of its characters with each documented escape replaced by "
  "its character, encoded in UTF-8; whatever text follows the literal does not matter; values out of range, unknown escapes, control characters and impossible code points are rejected with their own error.",
  ["inputs"], "every literal and what follows it",
  "Literals are unbounded; tests have a handful of each.",
  ["semantic/types.c", "semantic/expr.c", "common/str.c"], [("literal evaluation", "semantic/types.c")], ["generated code", "compile errors"], note=LEX +
  "The C library's conversions (strtoll, strtod, c32rtomb) are trusted; what they are given and what becomes of their result and errors is decided. Characters after a NUL in a string are unspecified.")

P("C24", "Every message names the right cause, names, types and place",
  "Every reported error and warning prints its severity, the file, the line and column of the construct that caused it (when it reports a position at all), and its own documented text with each placeholder filled by the name, type or count it is about, in the documented order; "
  "queued messages come out in the order they were reported, each exactly once.",
  ["inputs", "programs"], "every error and warning, for every program that causes it",
  "Tests see one instance of each message; a wrong operand or position shows only when the two differ.",
  ["common/errors.c", "semantic/*.c", "parse/ast_node.c"], [("message table and formatting", "common/errors.c"), ("reports", "semantic/")], ["messages"],
  note="Message arguments are tracked as text terms with their origin (name, type, or token of which construct). The C library's number and string formatting is trusted.")

CB = ("Operands stand for arbitrary C operands, names and types for arbitrary ones. ")

P("C17", "The C back end writes each expression as C that means the same",
  "With --c-backend every operator, name, call and constant becomes one C operand that, by C's own grammar and precedence, applies the same operation to the same operands in the same order whatever surrounds it; "
  "constants keep their exact value (every string byte, every float including NaN and infinities, runes, booleans, 64-bit integers), every type has its C type, and each runtime helper a program calls is included.",
  ["inputs", "programs"], "every operator with operands of every type and shape, every constant",
  "Unit tests compare a dozen fixed texts; a missing parenthesis or escape shows only for particular operands.",
  ["codegen/c/expr.c", "codegen/c/types.c"], [("expression text", "codegen/c/expr.c")], ["generated C", "program result"],
  note=CB + "Strings: every byte value between two others; floats: zeros, subnormals, ordinary, largest, infinite and NaN values; at most four call arguments.")

P("C18", "The C back end writes each program as C that does the same",
  "With --c-backend every statement becomes its C counterpart at the same place: conditions with their own branches, loops, jumps, calls and returns in order; a module's variables at file scope with their initial value or an "
  "assignment in order, local ones in their block; functions at file scope with their parameters, return type and linkage, nested ones before their parent; declarations precede uses; the entry function runs the "
  "statements and returns 0, main returns its result, -g marks every statement with its own line, and the helpers the program uses, and nothing else, are included.",
  ["inputs", "programs"], "every arrangement of statements and blocks",
  "One stored output covers each statement kind once; where a statement lands depends on its surroundings.",
  ["codegen/c/core.c", "codegen/c/flow.c", "codegen/c/assign.c", "codegen/c/func.c", "codegen/c/write.c", "codegen/c/debug.c"], [("statement text", "codegen/c/core.c")], ["generated C", "program result"],
  note=CB + "Every statement kind alone, in pairs, and inside eleven kinds of blocks; functions with up to four parameters; six nested levels.")

P("C26", "The runtime helpers compute string equality and powers",
  "Strings compare equal exactly when they have the same bytes, an integer raised to a non-negative power is the product of that many factors (1 for none), and a float power is that of the C library, "
  "in programs of both back ends.",
  ["inputs"], "every pair of strings, every base and exponent whose power fits",
  "No test of the repository runs the helpers.",
  ["shim.ll", "codegen/c/write.c"], [("runtime helpers", "shim.ll"), ("C helper texts", "codegen/c/write.c")], ["program result"],
  note="The helpers of both back ends are translated to IR and interpreted abstractly on strings of up to three bytes and on bases and exponents at and around the limits.")

P("C27", "Unused and needlessly mutable declarations are warned about, and only those",
  "After a program is analysed, every variable defined at the top level or in a block of any kind at any depth that is never read and not exported is reported as unused, every mutable one that is never assigned again as "
  "one that should be constant, and every function nothing calls as unused, each exactly once and at its declaration; nothing else is reported, a read, an assignment and a call anywhere in the program count, and --quiet silences all of it.",
  ["inputs", "programs"], "every combination of reads, assignments, calls and exports, every nesting of blocks",
  "Tests sample three programs; a use that is not counted or a block that is not searched shows only in a program with that shape.",
  ["semantic/unused.c", "semantic/expr.c", "semantic/assign.c", "semantic/variable.c"], [("report", "semantic/unused.c"), ("marks", "semantic/expr.c")], ["warnings", "exit status with --werror"],
  note=SOUND + "Statements and blocks up to three levels deep. Variables local to a function body are not reported by the compiler and are left unspecified.")

P("C29", "Symbol tables and lists keep every entry they are given",
  "However many names a program declares and however they are spelled, looking up a name yields exactly the first entry stored under that spelling, and nothing if there is none; lists (parameters, messages, colliding names) "
  "keep all their entries in order at any length; storing, looking up and releasing stay inside the memory they own and release it once; running out of memory stops the compiler with a message and a failing status.",
  ["inputs", "histories"], "every number and spelling of names, every length of a list",
  "Tests store one or two entries: growth, collisions and near-identical spellings are never reached together.",
  ["common/hashtable.c", "common/vector.c", "common/malloc.c"], [("tables", "common/hashtable.c"), ("lists", "common/vector.c")], ["name resolution", "calls", "messages"],
  note="Histories of up to 130 names and lists of up to 100 entries are interpreted abstractly; spellings are representatives of the ways two names can differ.")

P("C30", "Source files are found, read whole and decoded exactly, or rejected",
  "A source file is compiled only as the complete sequence of characters it contains: a file that cannot be opened, read to its end or decoded as UTF-8 (reported with the place) fails the compilation with a message and is never taken for an empty or shorter one; "
  "text written out is encoded the same way; `import m` looks for m.sk in the directory of the importing file; intermediate files, the entry function and linkage names are derived from the file's base name as documented.",
  ["inputs", "faults"], "every file content and length, every failing system call, every file name ending in .sk",
  "Tests read small valid files that never fail.",
  ["common/io.c", "common/str.c", "common/local.c", "semantic/import.c", "semantic/mangle.c", "codegen/abi.c"], [("file input", "common/io.c"), ("decoding", "common/str.c")], ["messages", "exit status", "generated code", "file names"],
  note="Texts of up to three characters of every encoded length with open values, and a few longer ones; the C library's UTF-8 decoder and encoder are trusted.")

P("C31", "Debug information describes the program it comes with",
  "With -g, the code generated for every call, assignment, return and condition carries the line and column of its own source construct and belongs to the innermost block and function containing it; every variable, parameter and "
  "function is described once with its name, declaration line, type and the place its value is kept (a constant without a place by its value); the enclosing description is in force again after each block and function; the module says "
  "that it has debug information. Without -g none is produced.",
  ["inputs", "programs"], "every arrangement of statements, variables and functions",
  "Three stored outputs cover mutable locals and straight code: wrong places show only for constants, assignments far from their definition and nested blocks.",
  ["codegen/llvm/debug.c", "codegen/llvm/flow.c", "codegen/llvm/func.c", "codegen/llvm/assign.c"], [("descriptions", "codegen/llvm/debug.c"), ("places", "codegen/llvm/assign.c")], ["generated code", "debugger view"],
  note="LLVM's debug information API is a recording model; statement lists of up to three statements with nested blocks left to the contract; the position of a condition that is just the name of an earlier value is not specified. -g of the C back end is in C18.")

P("C32", "Loops do not use up the stack",
  "A call of a compiled function takes its stack space once: however often the loops in it run, the memory for mutable variables, references to constants and debug markers inside them is reserved once per call, not once per iteration.",
  ["inputs", "programs", "iteration counts"], "every construct that needs stack space, at every position inside a loop",
  "The stored programs loop a few times; a loop that takes 16 bytes per iteration crashes only after a few hundred thousand.",
  ["codegen/llvm/assign.c", "codegen/llvm/expr.c", "codegen/llvm/flow.c", "codegen/llvm/types.c"], [("stack space", "codegen/llvm/types.c")], ["crash of long running programs"],
  note="Loops containing each construct, directly or in branches, namespaces and other loops, up to two levels deep. Recursion of the program itself is its own affair.")

P("N01", "Machine code behaves as the generated module says",
  "An executable produced by the compiler behaves as the LLVM module the compiler generated for it.",
  ["inputs", "programs", "optimisation levels"], "every module and target", "Tests run few executables.",
  ["codegen/llvm/write.c"], [("object code", "codegen/llvm/write.c")], ["behaviour of the executable"],
  na="The optimiser, instruction selection and linker are LLVM's and the system's; their source is not in /repo, so there is nothing to analyse. What skull asks of them (options, PIC, module contents, exit status) is decided in C12-C16, C32 and C06.")

P("N02", "Compile time and memory grow with the size of the source",
  "Compiling takes time and memory proportional to the size of the program.",
  ["inputs", "program sizes"], "every program size", "Tests compile only small files.",
  ["parse", "semantic"], [("whole compiler", "semantic/entry.c")], ["compile time"],
  na="A cost bound is a quantity over run time that this analysis does not track: tables chain on collisions, lookups walk the scopes, and LLVM's share is not visible. No sound static bound is in reach; termination of the parser and tokenizer is in C25 and C20.")

P("N03", "Deeply nested programs do not exhaust the compiler's own stack",
  "A program nested arbitrarily deep is compiled or rejected with a message.",
  ["inputs", "nesting depth"], "every nesting depth", "Tests nest a few levels.",
  ["parse/ast_node.c", "semantic/entry.c", "codegen"], [("recursive descent", "parse/ast_node.c")], ["crash"],
  na="The parser, validator and both back ends recurse once per nesting level by design, so the property is false beyond a depth set by the operating system's stack limit, a run-time quantity; no depth limit exists in the language to check against.")
