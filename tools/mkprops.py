#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the text of both is kept here)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
C, S, P, L = "internals/compiler/compiler.go", "internals/semantic/semantic.go", "internals/parser/parser.go", "internals/lexer/lexer.go"
CC, CT, CF = "internals/compiler/compiler_constant.go", "internals/compiler/compiler_types.go", "internals/compiler/compiler_constant_fold.go"
CV, CP = "internals/compiler/compiler_conversions.go", "internals/compiler/compiler_comparisons.go"
RUN = ["verdict of the compiler (accepted, or refused with an error)", "standard output and exit status of the compiled program"]
props, checks, na = [], [], []
DECIDE = {}
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=RUN, note="", technique=None, reason=None, level="model_checking"):
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                              "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism], "observe_at": list(observe), "hook_needed": None}})
    if reason: na.append({"property": id, "reason": reason}); return
    checks.append({"property": id, "quick_cmd": "python3 check.py %s quick" % id, "thorough_cmd": "python3 check.py %s thorough" % id,
                   "evidence_file": "evidence/%s.json" % id,
                   "technique": technique or "TLA+ machine of candice run by TLC on each program; its verdict and behaviour replayed against the compiler",
                   "level": level, "level_note": note + NOTE})
NOTE = (" Bounded: programs are drawn from exhaustive small families and a seeded generator; the specification alone says what each of them means. "
        "Programs it leaves undefined or open are not compared. Trusted: TLC, clang, the C library, the renderer from syntax trees to source text.")
TESTS = "The existing tests compile a few dozen fixed programs and mostly look at whether they compile; "

prop("P01", "Integer arithmetic, comparison and bit operations are exact",
     "For every integer type i8..i64, u8..u64 and every pair of operand values, + - * / % & | ^ << >> and the six comparisons give the two's complement result of that width and signedness (wrapping, truncating division, unsigned order for unsigned types, >> filling with zeros). This holds whether operands are literals, constants, variables, fields, elements, dereferences or results of calls.",
     ["inputs", "programs"], "every operator x every integer type x every pair of values (boundary values and random ones) x every way to write the operands",
     TESTS + "they use few values of i32 and i64, never unsigned or narrow types at their boundaries.", [C, CF, CP, "internals/ops/operations.go"],
     [("binary operators on loaded values", C + ":compileBinaryExpression"), ("signedness of comparisons", CP + ":getIPredComparison"), ("constant folding", CF + ":foldIntegers")],
     note="Every operator on every integer type, boundary and random values, run-time and folded operands.")
prop("P02", "Conversions keep or truncate values as the types say",
     "Casting between integer types truncates when narrowing and, when widening, sign-extends signed and zero-extends unsigned and boolean values; casting a float to an integer truncates towards zero, and an integer to a float gives the same number when the float type can hold it. A conversion does not depend on whether the operand is a constant or computed, and 'as' and '@cast' mean the same.",
     ["inputs", "programs"], "every ordered pair of numeric types x boundary values x constant or computed operands x global and local places",
     TESTS + "a handful of casts appear in them, none checked against its value at a boundary.", [CV, CC, CF, C],
     [("casts of values", C + ":handleCast"), ("integer casts", CV + ":handleIntegerCast"), ("casts of constants", CC + ":handleConstantCast"), ("folding of casts", CF + ":foldCast")],
     note="All pairs of numeric types.")
prop("P03", "Expressions without parentheses group as the fixed precedence says",
     "From loosest to tightest, operators bind as: && and || (one level), comparisons, + and -, the bit operators & | ^ << >> (one level), * / %, 'as', prefix operators, calls, indexing, field access; operators of one level group from the left. The meaning of an expression written without parentheses is that of the expression with the parentheses this order adds.",
     ["programs"], "every expression over all operators without redundant parentheses",
     TESTS + "parser tests print the grouping of about twenty expressions.", [P, "internals/parser/parser_precedence.go"],
     [("precedence climbing", P + ":parseExpression"), ("table of precedences", "internals/parser/parser_precedence.go:precedences"), ("prefix operators", P + ":parsePrefixExpression"), ("as", P + ":parseAs")],
     note="All pairs and triples of adjacent operators of every level in rows, random expressions without parentheses as text, and whole token sequences.",
     technique="TLA+ lexer, grammar and machine of candice run by TLC on the text of each program; verdict and behaviour replayed against the compiler")
prop("P04", "Control flow follows the structured semantics",
     "if/else-if/else, for in its three forms, switch, break, continue, return and nested blocks, in any nesting, execute exactly the statements their conditions select, in order, with break and continue acting on the innermost loop and switch never falling through. Code after a return, break or continue is never executed and never changes what the rest of the program does.",
     ["programs", "inputs"], "every nesting of control statements up to a bounded size, with every combination of conditions taken",
     TESTS + "they nest control statements two deep in a few fixed shapes.", [C],
     [("if chains", C + ":compileIf"), ("loops", C + ":compileFor"), ("switch", C + ":compileSwitchStatement"), ("end of blocks", C + ":compileBlock"), ("return", C + ":compileReturn")],
     state=[("blocks", "stack of basic blocks under construction", C + ":pushBlock")],
     note="Pairs of control statements are enumerated exhaustively, deeper nestings drawn at random.")
prop("P05", "Evaluation order is left to right and && and || short-circuit",
     "Operands, call arguments, literal elements, printed values and the two sides of an assignment are evaluated once each, from left to right (the assigned place before the value), and the right operand of && and || is evaluated only if the left one does not decide. Multiple assignment evaluates all its values before it stores any.",
     ["programs"], "every expression and statement form over operands with visible side effects",
     TESTS + "none of them observes in which order operands are evaluated.", [C],
     [("operands", C + ":compileBinaryExpression"), ("short circuit", C + ":compileAnd, compileOr"), ("calls", C + ":compileFunctionCall"), ("assignment", C + ":compileAssignment"), ("lists", C + ":compileCommaExpression")],
     note="Operands print when they are evaluated and change variables that others read.")
prop("P06", "A name means its innermost visible declaration",
     "Wherever a name is used it means the declaration of the innermost enclosing scope that declared it before that point: shadowing hides outer variables only inside its block, and leaving any kind of block (if, else, for, switch case, function, anonymous function, block expression) restores them with their values. A name that is not visible is reported as an error, also after the block that declared it.",
     ["programs", "histories"], "every nesting of scopes with declarations, shadowing, assignments and uses of a small set of names, valid and invalid",
     TESTS + "shadowing appears in one or two of them.", [S, C, "internals/undomap/undomap.go"],
     [("frames of the analysis", S + ":enterFrame, leaveFrame"), ("lookup", S + ":analyzeIdentifier"), ("lookup in code generation", C + ":retrieveVariable"), ("restoring", "internals/undomap/undomap.go")],
     state=[("variables", "stack of what each name means now", S + ":Semantic.variables"), ("stacked variables", "frames of code generation", C + ":declare")],
     note="Nestings of scopes, and programs of every family in which two different things (functions, variables, parameters, fields, types, modules) are given the same name; the specification says which of them stay valid and what they do.")
prop("P07", "Calls pass values, recurse, and return every result",
     "A call binds parameters to copies of its arguments, runs the function that its callee denotes (a name, a variable, parameter, field or element of function type, or a method-style x.f(..) with x as first argument), and yields its returned value, or all of them for functions that return several. Recursion, mutual recursion and re-entrance keep every activation's variables apart.",
     ["programs", "histories"], "every call form x parameter and result types x depth of recursion",
     TESTS + "they call functions with scalar arguments and check few results.", [C, S],
     [("calls", C + ":compileFunctionCall"), ("function values", C + ":retrieveVariable"), ("methods", S + ":findFunctionInAllModules, analyzeFieldAccess"), ("method code", C + ":compileStructAccess"), ("multiple results", C + ":compileMultipleDeclarationStatement")])
prop("P08", "Anonymous functions capture values when they are created",
     "An anonymous function sees the values that the enclosing function's variables had when it was evaluated, whatever happens to those variables later and however deep it is nested; captured values can not be changed from inside. Globals are not captured: they are seen as they are when the function runs.",
     ["programs", "histories"], "every set of captured variables and types x nesting x changes between creation and call",
     TESTS + "they create two or three closures over one integer.", [C, S],
     [("capture analysis", S + ":captureVariable"), ("code of anonymous functions", C + ":compileAnonymousFunction")],
     note="One storage per anonymous function (the last evaluation counts) is part of the specification.")
prop("P09", "Structs and arrays are values",
     "Assigning, passing, returning, storing in a field or element, and capturing a struct or array copies all of it, nested members included: later changes to one never show in another. Literals set every member given to its value, and reading a field or element at any path gives what was last stored at that path and nothing else's.",
     ["programs", "histories"], "every nesting of structs and arrays x every sequence of copies and updates along access paths",
     TESTS + "they read back one or two fields of small structs.", [C, CT],
     [("literals", C + ":compileStructLiteral, compileArrayLiteral"), ("fields", C + ":compileStructAccess"), ("elements", C + ":compileIndexAccess"), ("stores", C + ":compileAssignment")])
prop("P10", "Pointers and heap blocks refer to the places they denote",
     "A pointer obtained with & , @alloc, @realloc or pointer arithmetic reads and writes exactly the object or element it points to: p + n is n elements further, p[n] is *(p + n), p.f is the field of the struct pointed to, and pointers may be stored, passed and returned. @alloc gives a block for n elements of the type, @realloc keeps the old elements, and no write through a pointer changes another object.",
     ["programs", "histories"], "every chain of address-of, dereference, indexing, arithmetic and field access on variables, members and heap blocks, with every element type",
     TESTS + "they dereference pointers to i32 and build a linked list.", [C, "internals/compiler/compiler_utils.go"],
     [("address and dereference", C + ":compilePrefixExpression"), ("pointer arithmetic", C + ":compileAdd, compileSubtract"), ("elements", C + ":calculatePointerOffset"), ("heap", "internals/compiler: alloc, realloc, free")])
prop("P11", "Sizes and layouts are consistent",
     "@sizeof of a type is the C size of that type (natural alignment, padding included; a union is as large as its largest member, rounded up to the strictest alignment), and arrays, heap blocks and copies use the same size. Neighbouring members, elements and variables never overlap, whatever their types.",
     ["programs"], "every struct, union and array type up to a bounded nesting, every member written and all neighbours read back",
     TESTS + "they print @sizeof of two or three types.", ["internals/ctypes/types.go", CT, C],
     [("sizes", "internals/ctypes: SizeOf, Alignment"), ("types in memory", CT + ":ToLLVMType")])
prop("P12", "Union members share one storage and nothing more",
     "All members of a union start at its first byte: reading a member gives the bytes last stored through any member, reinterpreted in the member's type. Storing a member never changes memory outside the union, and unions are copied, passed and nested whole, like other values.",
     ["programs", "histories"], "every set of member types x every sequence of stores and reads through different members",
     TESTS + "one program uses a union of two integers.", [C, S, "internals/ctypes/types.go"],
     [("storage", CT + ":ToLLVMType"), ("member access", C + ":compileStructAccess"), ("initialisation", C + ":bitcastIfUnion")])
prop("P13", "Strings and printing show exactly the bytes they should",
     "String and character literals denote exactly the bytes written; + gives a new string of both parts and leaves the parts alone; == != < <= > >= order strings by their bytes. @print writes each value in its type's format (signed or unsigned decimal, three decimals for floats, text for strings, 0 or 1 for booleans) separated by single spaces, and nothing else.",
     ["inputs", "programs"], "every sequence of string operations over arbitrary bytes; every combination of printed types",
     TESTS + "they never look at what is printed.", [C, "internals/compiler/compiler_utils.go", "internals/compiler/compiler_format.go", L],
     [("literals", L + ":readString"), ("concatenation", "internals/compiler/compiler_utils.go:concatenateMemoryI8"), ("comparison", "internals/compiler/compiler_utils.go:compareMemoryI8"), ("formats", "internals/compiler/compiler_format.go:getFormatString")])
prop("P14", "Globals start with their constant's value and constants never change",
     "A global has, before main runs, the value its initialiser denotes, computed as at run time, for every type and form of constant expression, and keeps what functions store in it. A constant, global or local, can be used but never assigned, incremented or changed through its members, and initialisers that are not constant are refused.",
     ["programs"], "every constant expression over literals, other constants, operators, casts, struct and array literals; every attempt to change a constant",
     TESTS + "they declare a few integer globals.", [C, CC, CF, S],
     [("constant expressions", CC + ":compileConstantExpression"), ("folding", CF), ("global declarations", C + ":compileDeclaration"), ("constness", S + ":analyzeAssigmentStatement, analyzeDeclarationStatement")])
prop("P15", "Block expressions yield the returned value and resume in place",
     "A block expression runs its statements in a scope of its own and yields the value of the first return it executes, which leaves this block expression only; evaluation of the surrounding expression then continues. This holds at any place where an expression may stand and for any control flow or nesting inside.",
     ["programs"], "every expression context x every body of bounded nesting with returns at any depth",
     TESTS + "three programs use one, all with a single return at the end.", [C, S],
     [("code", C + ":compileBlockExpression"), ("return", C + ":compileReturn"), ("analysis", S + ":analyzeExpressionBlock")],
     state=[("return storage", "where the innermost block expression's value goes", C + ":compileReturn")])
prop("P16", "Modules keep their names apart and generic modules are independent",
     "Names declared in different files never interfere, however equal they are; an imported module's types, functions and globals are reached through the import's name only, and all importers of one file with the same type arguments share one instance. A file with type parameters behaves, for each list of types it is imported with, as if the types were written in place of the parameters.",
     ["programs", "configurations"], "import graphs of bounded size (chains, diamonds, repeated imports) with equal names, and instantiations with every kind of type",
     TESTS + "they import one or two files.", [S, C, P],
     [("imports", S + ":analyzeImport"), ("identity of instances", S + ":typeIdentity"), ("access", S + ":analyzeModuleAccess"), ("code", C + ":compileModuleAccess"), ("type parameters", P + ":parseGenericTypeDefinition")])
prop("P17", "Programs with type errors are refused, others are accepted",
     "A program in which an operand, argument, returned value, assigned value, condition, initialiser or literal member has a type that its place does not allow is refused with an error, and the compiler itself never crashes on it. A program without such an error is not refused, and runs without undefined results of the compiler's making.",
     ["programs"], "well typed programs of all families, and the same with one type, operator, argument or name changed",
     TESTS + "about ten ill typed programs are checked to be refused.", [S, "internals/semantic/semantic_builtin.go"],
     [("types of expressions", S + ":analyzeExpression"), ("equality of types", S + ":areTypesEqual"), ("calls", S + ":analyzeFunctionCall"), ("builtins", "internals/semantic/semantic_builtin.go")])
prop("P18", "Static rules on returns, loops, constants and names are enforced",
     "A function with results that may reach its end without return, a return of the wrong kind, break or continue outside a loop, an assignment to a constant, a use of an undeclared name, a field or type that does not exist, and a wrong number of arguments are refused with an error. Programs that respect these rules are never refused because of them.",
     ["programs"], "programs of all families with one statement removed, moved, duplicated or replaced",
     TESTS + "a few fixed programs with missing returns.", [S],
     [("returns on all paths", S + ":analyzeFunctionType, analyzeIfStatement, analyzeSwitchStatement"), ("constness", S + ":analyzeAssigmentStatement"), ("loops", S + ":analyzeForStatement")])
prop("P19", "The compiler ends in a result or an error on any input",
     "On any text, however broken (cut off, with tokens removed, doubled, exchanged or replaced, or with arbitrary bytes), the compiler stops after accepting it or after reporting an error; it never crashes, runs forever or produces code that the back end refuses. A text that the grammar does not allow is never accepted.",
     ["inputs"], "arbitrary byte strings and mutations of valid programs",
     TESTS + "no test feeds broken text.", [L, P, "internals/parser/parser_assignment.go", S, C],
     [("error reporting", P + ":addErrorMessage, retrieveCurrentLineMessage"), ("lines of errors", L + ":RetrieveLine")],
     note="Small programs that use every construct of the grammar, with every token deleted and a sample of other one-token changes; texts of every family with one to three changes each; no text at all may crash the compiler, keep it running or make it write invalid LLVM IR, and the verdict has to be that of the TLA+ grammar and static semantics.",
     technique="TLA+ lexer, grammar, static semantics and machine run by TLC on each changed text; the verdict and behaviour compared with the compiler's")
prop("P20", "The order of type and function declarations does not matter",
     "Types may be used before they are declared, in the same file, in fields, parameters, literals and @sizeof, and functions may call functions that are declared later; permuting type and function declarations never changes whether a program is accepted nor what it does.",
     ["programs"], "every permutation of the declarations of generated programs with mutually referring types and functions",
     TESTS + "each declares things in one order.", ["internals/semantic/semantic_steps.go", "internals/compiler/compiler_steps.go"],
     [("types first", "internals/semantic/semantic_steps.go:predefineTypes, fillTypes"), ("functions first", "internals/semantic/semantic_steps.go:predefineFunctions"), ("code", "internals/compiler/compiler_steps.go")])
prop("P21", "The lexer splits any text into the tokens the language defines",
     "For every byte string, the sequence of tokens is the one obtained by repeatedly taking the longest token of the language after skipping white space and comments (from // to the end of the line): names, keywords, numbers in three bases, floats, strings and characters with their escapes, and one and two character operators, each with its exact text and line. Reading ends with an end token after the last byte.",
     ["inputs"], "all short byte strings over an alphabet of token fragments, and random longer ones",
     "The lexer's only test looks at one input.", [L, "internals/token/tokens.go"],
     [("tokens", L + ":NextToken"), ("strings", L + ":readString"), ("numbers", L + ":readNumber")],
     note="Every text of up to two (thorough: three) letters of an alphabet of 29, every byte inside of every kind of token, all pairs of printable characters and of token fragments, and random longer texts.",
     technique="TLA+ lexer (CdLex) run by TLC on each text; its tokens (type, text, line) compared with those of the real lexer")
prop("P22", "What a program does does not depend on optimisation or on the run",
     "A valid program has the same output and exit status at every optimisation level of the back end, and compiling it again gives the same verdict and a program with the same behaviour. The code handed to the back end is always well formed.",
     ["programs", "configurations"], "programs of all families x optimisation levels x repeated compilations",
     TESTS + "each compiles once, without optimisation.", [C, "internals/compiler/compiler_rest.go"],
     [("generated code", C), ("back end", "internals/compiler/compiler_rest.go:GenerateObjectLLVM")],
     note="-O0, -O1, -O2 and -O3 of clang; LLVM's verifier on every module.")
prop("P23", "#if selects exactly the code of the platform",
     "The statements or declarations of a #if are part of the program exactly if its condition is a non-zero number or the name of the platform that the compiler runs on, wherever it stands and however it is nested; what is left out is not analysed. An unknown platform name is refused.",
     ["programs", "configurations"], "nestings of #if at top level and in functions x conditions",
     TESTS + "one program uses it.", [P, "internals/eval"],
     [("conditions", P + ":parseMacroIf"), ("evaluation", "internals/eval")])
prop("P24", "A project is built from its configuration and nothing else",
     "Building a project compiles the configured entry and its imports, each resolved relative to the importing file, and links them once, with the configured compiler, flags (and those that the program asks for with @add_compiler_flag) and optimisation, into the configured output; every path of a configuration is relative to its project, wherever the command runs. It either leaves a working executable (or object) there, or reports an error and leaves none of the new build and runs nothing. 'run' builds the same and runs what it built with the standard input and output of the command; 'init' makes a project that builds and runs; no intermediate file is left by the 'cxx' kind. The single file compiler follows the same rules for its file and output.",
     ["configurations"], "project layouts (nested directories, shared and cyclic imports, files with every kind of error) x configurations (entry, output, kind, binary, compiler, flags; missing or broken) x command lines (mode, path, --release, working directory) x earlier outputs",
     "No test runs the command line.", ["cmd", "internals/build", "internals/program", C],
     [("build", "internals/build/builder.go:ExecuteProject"), ("flags", "internals/build/flags.go"), ("configuration", "internals/build/config.go"), ("linking", C + ":GenerateExecutableCXX, GenerateExecutableExperimental"), ("single files", "internals/program/program.go:Init"), ("paths of imports", S + ":analyzeImport")],
     technique="TLA+ specification of the build (CdBuild) checked with TLC; every case that TLC decides is replayed with the real command line in a scratch directory, and the tree, the linker's command lines, the output and the program's output are compared",
     note="CdBuild: states args, config, entry, front, write, link, run/make; its invariants (an error leaves no new output, a success works, nothing is left) are checked on every case. Stand-ins for the linker record their command lines and call clang. Open: unknown modes and kinds of binary, absolute outputs; exit status of the command after an error.")
prop("P26", "External C functions are called with the C conventions",
     "A declared extern function whose parameters and result are numbers, pointers or functions receives its arguments, in order and with the values that they have in the declared types, and its result is the one of the C function; a variadic one takes any further arguments, which are promoted as C does. Several files may declare the same function. C code can call back a candice function that was passed to it, and functions marked 'pub' can be called from C by their name.",
     ["programs"], "extern declarations over every scalar type, up to twelve parameters, pointers to scalars and structs, callbacks, public functions, libc and printf",
     TESTS + "they declare printf and malloc.", [C, P], [("declarations", C + ":compileExternFunc"), ("calls", C + ":compileFunctionCall"), ("pub", P + ":parsePublicFunction")],
     note="What the C side of a program does is written in the specification's language in a file of its own (CdTypes.ExtOf); its C text is compiled by clang -O2 and linked. Structs passed by value to C are not claimed.")
prop("P27", "Float operations give the IEEE 754 result of their type",
     "Operations on f32 and f64 values give the result that IEEE 754 defines for that type, rounded to nearest: + - * / %, negation, comparisons (unordered ones included), ++ and --, and conversions between both float types and to and from integers that can hold the value. A literal is the value nearest to its digits. This holds for literals, constants, variables, parameters and results alike, and a float used as a condition is true exactly if it is not zero. Values are printed with three decimals, rounded from the exact value.",
     ["inputs", "programs"], "operators and conversions over boundary values of both types (zeros, subnormal numbers, infinities, NaN, largest values, neighbours of powers of two, halfway cases), literals of up to sixty digits, expressions of them",
     TESTS + "they add two floats.", [C, CV, CP, CF],
     [("operators", C + ":compileBinaryExpression"), ("comparisons", CP + ":getFPredComparison"), ("conversions", CV), ("folding", CF), ("literals", L + ":readNumber")],
     note="CdFloat computes sums, products, quotients and remainders of significands exactly on byte sequences and rounds once.")

json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC. See DESIGN.md. Findings: known_findings.json."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")

# DESIGN.md: its text is tools/DESIGN.head.md
t = open(os.path.join(V, "tools", "DESIGN.head.md")).read()
naid = {x["property"]: x["reason"] for x in na}
ls = []
for p in props:
    c = next((c for c in checks if c["property"] == p["id"]), None)
    ls.append("**%s %s.** %s  \n*Decided by* %s." % (p["id"], p["title"], p["quantifier"]["text"][0].upper() + p["quantifier"]["text"][1:] + ".",
              (DECIDE.get(p["id"]) or c["technique"]) if c else "nothing yet: " + naid[p["id"]]))
t = t.replace("%PROPS%", "\n\n".join(ls))
kf = json.load(open(os.path.join(V, "known_findings.json")))
t = t.replace("%FIXED%", "\n".join("* " + x for x in kf["known"] and ["known: %s %s" % (k["property"], k["what"]) for k in kf["known"]] or []) + "\n".join("* " + x for x in kf["fixed"]))
sd = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    f = os.path.join(V, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f)); sd.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|"), m.get("caught_by", "")))
t = t.replace("%SEEDED%", "| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(sd))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
