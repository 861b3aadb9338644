#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development tool; the outputs are committed)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "tiny/src/tiny.c"
P = []
def p(id, title, st, over, qt, why, files, mech, level="proof", note="", tech=None, na=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), level=level, note=note, tech=tech, na=na))
TECH = "function contracts on the real C sources, every obligation discharged by CBMC (SAT / SMT back ends)"

p("P01", "Operators compute the documented 64-bit and IEEE results",
  "Every arithmetic, bitwise, shift, comparison, equality and logical operator of a running script produces exactly the result of 64-bit two's-complement integers and IEEE doubles (an int mixed with a float is converted to float), for all operand values. Operands are evaluated left to right, each exactly once, and 'and', 'or' and the conditional expression evaluate only the operands they need. Evaluating an operator changes nothing but the expression's own result: other temporaries, variables and pending calls keep their values.",
  ["inputs", "programs"], "all 64-bit operand values and IEEE doubles, all stack heights and machine states, every operator and operand kind the type checker accepts",
  "the tests evaluate about a dozen small constants; a wrong result for one operand pattern, stack height or operand kind passes them",
  [T], [("one virtual-machine step per operator", T + ": ExecuteCycle"), ("code generation for operators", T + ": CompileExpr"), ("operand stack", T + ": DoPush, DoPop")])
p("P02", "Literals, constants, variables and fields denote their values",
  "A literal or constant evaluates to exactly the value written, for every value the language can express; reading a variable, parameter or struct field yields the value last stored in that variable, parameter or field. Storing to one changes no other, whatever the number of variables, fields and constants and wherever the code happens to be placed.",
  ["inputs", "programs"], "all 64-bit literals and doubles, all indexes of strings, globals, locals and fields, all code placements",
  "the tests use small values and few variables; widths, padding and index encodings only matter at sizes and alignments the tests do not reach",
  [T], [("load and store instructions", T + ": ExecuteCycle"), ("operand encoding", T + ": GeneratePushInt, GeneratePushString, GenerateConstantIndex, CompileGetId"), ("compile-time constants", T + ": CompileExpr")])
p("P03", "Control flow follows the source structure",
  "Conditionals, while and for loops, break, continue and return transfer control exactly as the source says: a branch's body runs if and only if its condition is true, a loop repeats while its condition holds with the step run after every iteration including one ended by continue, and break and continue affect exactly the innermost enclosing loop. This holds for arbitrary nesting and wherever the code is placed, and every statement leaves the operand stack at the height it had.",
  ["programs", "inputs"], "all statement forms, all outcomes of every condition, all code placements; nested statements enter only through the contract every statement is checked against",
  "the tests run a few loops with fixed counts; a wrong jump target shows only for a particular nesting, placement or condition outcome",
  [T], [("jump generation and patching", T + ": CompileStatement, GenerateJump, PatchBreakContinue"), ("jump instructions", T + ": ExecuteCycle")])
p("P04", "A call binds arguments, runs the callee, returns its value, and restores",
  "Calling a script function or a host function evaluates the arguments left to right, makes each available under its parameter, and yields the value returned (null if none); afterwards the caller's locals, temporaries and position are what they were. This holds for every number of arguments and locals, every call depth up to the limit, and a call beyond the limit stops the program with an error instead of corrupting memory.",
  ["programs", "histories"], "all argument counts and values, all stack heights and call depths, all return paths",
  "the tests make a few shallow calls; frame arithmetic errors appear only for particular argument counts, local counts and depths",
  [T], [("frames", T + ": DoPushIndir, ExecuteCycle (call and return instructions)"), ("call generation", T + ": CompileCall, CompileExpr"), ("parameter and local layout", T + ": DeclareArg, DeclareVar")])
p("P05", "The host can call script functions without disturbing the thread",
  "A host call of a script function, made while a thread is idle or from inside a host function that the thread itself is running, passes the given arguments, yields the function's return value, and leaves the thread's position, frames, operand stack and pending return value exactly as they were. This holds for any argument count, any depth of nesting of host and script calls, and whatever the called function does.",
  ["histories", "inputs"], "all thread states, argument counts and values; the called function's effect is arbitrary above the height it was entered at",
  "the tests make a call from an idle thread and one nested call; state that survives by luck at depth one is lost deeper",
  [T], [("nested execution", T + ": Tiny_CallFunction")])
p("P06", "Garbage collection frees exactly the unreachable objects",
  "A collection frees no object that a running script or the host can still reach - through the operand stack, global variables, the pending return value, struct fields, or containers - and frees every other object exactly once, running its finalizer exactly once. It terminates for every object graph, including cyclic and self-referencing ones, and leaves the contents of the surviving objects unchanged.",
  ["histories", "inputs"], "all object graphs, all roots, all heap sizes; collections at any point where one can start",
  "the tests allocate a few objects and hardly collect; a missed root or edge shows only if a collection falls into the right moment",
  [T, "tiny/src/array.c", "tiny/src/dict.c"], [("mark", T + ": Tiny_ProtectFromGC, MarkAll"), ("sweep", T + ": Sweep, GarbageCollect"), ("containers", "tiny/src/std.c: ArrayProtectFromGC, DictProtectFromGC")])
p("P07", "Equality is an equivalence and agrees with dictionary keys",
  "The equality operator and the host's equality function agree, and equality is reflexive (except for NaN), symmetric and transitive over all values; strings are equal exactly when their lengths and bytes are, wherever they came from, structs exactly when they are the same object, and native objects exactly when they wrap the same host address. Two values that are equal are the same key of a dictionary.",
  ["inputs"], "all pairs and triples of values of every kind, strings of every length and content",
  "the tests compare a handful of constants; relations between all pairs and triples are not sampled",
  [T, "tiny/src/dict.c"], [("equality", T + ": Tiny_AreValuesEqual"), ("key hashing", "tiny/src/dict.c: HashValue")])
p("P08", "A dictionary behaves as a finite map",
  "After any sequence of insertions, replacements, removals and clears, a lookup yields exactly the value last stored under an equal key, or reports absence if there is none; the number of entries and the enumeration of keys agree with that. Colliding keys, wrap-around, growth and removal inside a run of colliding keys do not change this.",
  ["histories", "inputs"], "all sequences of operations seen one at a time from any well-formed table, all keys and hash values",
  "the tests insert a few keys; probing errors need particular collisions, table fill and removal orders",
  ["tiny/src/dict.c"], [("open addressing", "tiny/src/dict.c: SetInternal, DictSet, DictGet, DictRemove, DictClear")])
p("P09", "An array behaves as a sequence with checked bounds",
  "Pushing, popping, inserting, removing, reading, writing, resizing and clearing an array behave as the same operations on a mathematical sequence: every other element keeps its value and order, and the length changes by exactly what the operation adds or removes. An operation outside the bounds stops the program before touching memory, and no operation reads or writes outside the storage the array owns.",
  ["histories", "inputs"], "all lengths, capacities, indexes and values; one operation from any well-formed array",
  "the tests push a few elements; growth boundaries, removal in the middle and out-of-range indexes are not covered",
  ["tiny/src/array.c"], [("growable array", "tiny/src/array.c: ArrayResize, ArrayPush, ArrayPop, ArrayInsert, ArrayRemove, ArrayGet, ArraySet, ArrayClear")])
p("P10", "Arena memory is aligned, in bounds, disjoint and released once",
  "Every block the compile-time arena hands out has the requested size and alignment, lies inside memory obtained from the host, and overlaps no block handed out earlier, for every sequence of requests including ones larger than a page. Destroying the arena gives every page back to the host exactly once.",
  ["histories", "inputs"], "all request sizes up to 1 MiB and power-of-two alignments up to 16, from every well-formed page list; destruction of lists of any length",
  "the tests allocate a few small nodes; page-boundary, oversize and alignment combinations are not reached",
  ["tiny/src/arena.c"], [("bump allocation", "tiny/src/arena.c: Tiny_ArenaAlloc"), ("release", "tiny/src/arena.c: Tiny_DestroyArena")],
  note="Tiny_ArenaAlloc and Tiny_InitArena for every page list (pages behind the first are opaque) and request; the release loop by a loop invariant; the host allocator is assumed to return fresh 16-aligned memory.")
p("P11", "The type checker only lets values flow where their type allows",
  "A program is accepted only if every assignment, initialization, argument, field value, return value, index operand and operator operand has a type that may stand where it is used: the same type, any non-void type where any is expected, or T where the nullable type T? is expected (any itself flows only into any; a cast is allowed from or to any only); conditions are bool and operators get operand types they are defined for. Every expression gets the type the language defines for it, and a construct in which these rules hold is not rejected for a type mismatch.",
  ["programs", "inputs"], "all pairs of types in every position where a value flows, and all operators on all operand types",
  "the tests try about ten mismatches; the acceptance relation over all type pairs and positions is not sampled",
  [T], [("assignability", T + ": IsTagAssignableTo"), ("resolution", T + ": ResolveTypes, CheckIndexArguments")])
p("P12", "Names resolve to the innermost visible declaration",
  "Inside a function a variable's name refers to the function's local of that name whose block has not ended, else to the parameter of that name, else to the global variable or constant; outside functions to the global variable or constant. Nothing declared in a block of a function that has ended, or in another function, is visible. Declaring a local whose name is a live local's of the function, a parameter whose name is another parameter's, or a global or constant whose name is a global's or constant's, is rejected; a declaration whose name is free is accepted, so locals may shadow parameters and globals. A function's name refers to the first function declared or bound under it. Two variables that are in scope together never share storage.",
  ["programs"], "all symbol tables: any number of declarations, scopes and functions",
  "the tests declare a few names; resolution errors need particular combinations of scopes and functions",
  [T], [("lookup", T + ": ReferenceVariable, ReferenceFunction"), ("declaration", T + ": DeclareGlobalVar, DeclareLocal, DeclareArgument, DeclareConst, OpenScope, CloseScope")])
p("P13", "A failed compilation leaves the program as it was",
  "If compiling a piece of source fails, with whatever error and at whatever point, the state afterwards behaves as if the attempt had not been made: the code compiled before still runs unchanged, the names that existed still exist with their meaning, none of the failed source's names do, and further source can be compiled and run. The result reports the error and its position.",
  ["fault_sequences", "programs", "histories"], "every point at which compilation can fail, from every state reached by earlier successful or failed compilations",
  "the tests compile a few broken programs and mostly throw the state away; what a later compilation sees is not checked",
  [T], [("error recovery", T + ": Tiny_CompileString, CompileProgram")],
  na="A failing compilation leaves by longjmp and cbmc gives setjmp and longjmp no meaning, so no verified path reaches the recovery code of Tiny_CompileString. Giving setjmp a contract (it returns again after any part of a compilation) needs a proved frame condition for every function of the compiler, which the contracts here do not have yet.")
p("P14", "The lexer is total: it terminates, stays in bounds, loses nothing",
  "For every input text the lexer terminates, reads nothing beyond the terminating NUL, and yields the tokens of the text: every token is the longest one possible at its position, whitespace and comments separate tokens and are otherwise ignored, and literals carry exactly the value written. Line numbers count every newline passed, and text that is no token is reported as an error, never skipped.",
  ["inputs"], "all NUL-terminated texts",
  "the tests lex about fifty well-formed lines; unterminated, oversized and odd inputs are not sampled",
  ["tiny/src/lexer.c"], [("tokenizer", "tiny/src/lexer.c: Tiny_GetToken")])
p("P15", "Source positions map to the right lines and columns",
  "Converting a position in a text to a line and a column yields the number of newlines before it and the distance from the last of them, for every text and every position in it. Every statement of a compiled program, before its code, records the file being compiled and the statement's line under the address of its next instruction; for every address, the run-time position lookup yields the file and line of the last record at or before it (the first record if there is none), and none if there are no records.",
  ["inputs", "programs"], "all texts and positions; all position tables",
  "the tests check one or two positions",
  ["tiny/src/pos.c", "tiny/src/util.c", T], [("friendly positions", "tiny/src/pos.c: Tiny_PosToFriendlyPos"), ("line numbers", "tiny/src/util.c: Tiny_TranslatePosToLineNumber"), ("run-time positions", T + ": RecordFileLine, GetExecutingFileLine")])
p("P16", "Diagnostics never overflow their buffer and are always terminated",
  "Formatting a compile error into its fixed buffer never writes outside the buffer and always leaves a NUL-terminated text, for every source, position, file name and message, however long. The text shows the source lines within three lines of the error, each complete, and then the message, as far as the buffer holds them; it goes into the result of the compilation that failed, and that compilation ends with an error.",
  ["inputs"], "all buffer sizes, sources, positions and message lengths",
  "the tests produce a few short messages",
  ["tiny/src/util.c", T], [("error formatting", "tiny/src/util.c: Tiny_FormatErrorV"), ("reporting", T + ": ReportErrorV")])
p("P17", "The disassembler agrees with the interpreter",
  "For every instruction the disassembler consumes exactly the bytes the interpreter consumes, names that instruction, and prints the operands it would use; disassembling a compiled program visits exactly the instructions that execution can reach in sequence. It never reads outside the program.",
  ["programs"], "all instructions, operands and alignments",
  "the tests do not use the disassembler",
  [T], [("disassembly", T + ": DisasmOne, Tiny_DisasmAll")])
p("P18", "String functions stay in bounds and return what they say",
  "Every string function of the standard library reads and writes only memory it owns and returns the documented result, for all string contents and lengths - including empty strings and strings containing NUL - and all indexes and counts. An argument outside the documented range yields the documented result or stops the program, never a read or write outside the string.",
  ["inputs"], "all string contents, lengths, indexes and counts",
  "the tests call a few of them with short literals",
  ["tiny/src/std.c", T], [("string library", "tiny/src/std.c: StringLen, Strcat, Lib_Substr and others")])
p("P19", "Sorting and container functions of the standard library act on exactly the elements they are given",
  "Every array and dictionary function of the standard library performs the operation it is named after on the container it is given, with the script's values and full 64 bit indexes, and returns that operation's result: creating a container holds exactly the values given, sorting orders the integers of an array ascending and keeps exactly the same elements, the lists of a dictionary's keys and values hold every key, respectively value, exactly once and in the same order, and 'use array' binds each of its function names to that function. A length no array can have stops the program. Rounding and widening of numbers keep the documented value, and the macros' text buffers are never written outside.",
  ["inputs"], "all container contents, indexes, lengths and values",
  "the tests sort one short array and use a few small dictionaries",
  ["tiny/src/std.c"], [("array library", "tiny/src/std.c: Lib_Array*, CreateArrayEx, CompareInts, ArrayMacroFunction"), ("dictionary library", "tiny/src/std.c: CreateDict, Lib_Dict*"), ("macro text", "tiny/src/std.c: AppendFormat")])
p("P20", "Running threads do not write shared program state",
  "Executing code, calling functions and collecting garbage in one thread changes only that thread: the compiled program and every other thread of the same state keep all their contents. So threads of one state may run side by side without coordination, each behaving as if alone.",
  ["schedules", "histories"], "all instructions and thread states, hence all interleavings",
  "the tests run one thread at a time",
  [T], [("execution", T + ": ExecuteCycle, Tiny_CallFunction, GarbageCollect, Tiny_InitThread")],
  na="The property is a frame condition over everything the interpreter does not own. The units of the interpreter check what they name (stack, frames, globals, heap objects), not that all other memory stays. That frame condition has not been written for ExecuteCycle and the functions it calls, so nothing here decides the property yet.")
p("P21", "Source parses into the tree the grammar gives, or is rejected",
  "Every sequence of tokens either parses into exactly the tree the language's grammar gives it or is rejected with an error; every token of an accepted program is part of exactly one construct. In expressions * / % & | bind tightest, then << >> + -, then the comparisons, then && and ||, and operators of one level group to the left; unary - and ! bind tighter than every binary operator, and the suffixes .field, [index] and ->f() bind tightest. Statements (if/else, while, for, blocks, return, assignments and declarations, use), functions, structs, calls, casts, conditional expressions and 'new' keep all their parts, in the order written. Lists may end in a comma and the commas between the strings of 'use' may be left out.",
  ["programs"], "all token sequences of any length: each parsing function against the production it stands for and the contracts of the ones it calls",
  "the tests parse short programs with one or two operators per expression and hardly any program that is wrong",
  [T], [("expressions", T + ": ParseBinRhs, GetTokenPrec, ParseValue, ParseSuffix, ParseCall"), ("statements", T + ": ParseStatement, ParseBlock, ParseIf, ParseFunc, ParseStruct, ParseProgram, ParseTypeL")])

def main():
    built = json.load(open(os.path.join(V, "vc", "built.json")))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({k: q[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.split("\n")
    hooks = [l.split()[0] for l in hooks if " verify: " in " " + l.partition(" ")[0] + " " + l.partition(" ")[2] or l.partition(" ")[2].startswith("verify:")]
    checks, na = [], []
    for q in P:
        if q["id"] in built:
            checks.append(dict(property=q["id"], quick_cmd="python3 /verif/vc/driver.py check %s --tier quick" % q["id"],
                               thorough_cmd="python3 /verif/vc/driver.py check %s --tier thorough" % q["id"],
                               evidence_file="evidence/%s.json" % q["id"], technique=q["tech"] or TECH, level=q["level"],
                               level_note=q["note"] or "see DESIGN.md"))
        else:
            na.append(dict(property=q["id"], reason=q["na"] or "the contracts for this property are not finished yet"))
    m = dict(version=1, setup_cmd="sh /verif/vc/setup.sh",
             hooks=dict(guard="TINY_VERIFY", enable="goto-cc -DTINY_VERIFY with /verif/vc on the include path (vc/driver.py does this); native replays build without it", source_commits=hooks),
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
