#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/mkprops.py). Statements live here so they are easy to edit.
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=("standard output (the call graph)",),state=()):
    P.append(dict(id=id,title=title,statement=" ".join(statement.split()),
      quantifier=dict(over=over,text=qtext),why_tests_cant=" ".join(why.split()),
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
M="src/main.rs"; T="src/thumb.rs"; I="src/ir.rs"; D="src/ir/define.rs"; IT="src/ir/item.rs"; TY="src/ir/ty.rs"; W="src/wrapper.rs"
FW="the firmware tests build seven example programs per target and look only for a few edges and numbers in them"

p("C01","Acyclic worst-case stack is the heaviest path",
"""In a call graph without recursion, the `max` printed for every function equals its own `local` stack plus the largest `max` among the functions it calls, i.e. the heaviest call path that starts at it, counting functions of unknown stack usage as 0.
It is printed as exact (`max = n`) if and only if every function that may be reached from that function, itself included, has a known `local`; otherwise it is printed as a lower bound (`max >= n`).""",
["programs"],"every directed acyclic call graph and every assignment of known/unknown local stack sizes to its functions, on every kind of target",
FW+"; which of several paths is heaviest, and how an unknown propagates through joins, is a property of all graph shapes and weights",
[M],[("post-order accumulation of max","src/main.rs run(): Topo over the reversed graph, max_of"),("Exact/LowerBound algebra","src/main.rs: impl Add for Max, fn max")])

p("C02","Recursion: cycles are found, bounded soundly and displayed",
"""In a call graph with recursion, every set of mutually recursive functions (and every self-recursive function) is printed as one cluster holding exactly these functions, and no cluster holds anything else.
Every function of such a cycle gets the same `max`: the largest `local` of the cycle plus the largest `max` among the functions called from the cycle; it is printed as exact only when all functions of the cycle use 0 bytes and everything they may reach is known, and as `>=` otherwise, so that a printed exact value is never exceeded by any call sequence and a lower bound can always be attained.
Functions outside cycles get own `local` plus the largest `max` of their callees, being exact only if that callee set and the function itself are all exact.""",
["programs"],"every directed call graph (any number, size and nesting of cycles) and every assignment of known/unknown/zero/non-zero local stack sizes",
"one example program has one cycle; the claim is about all cycle topologies, their order of processing and all weight assignments",
[M],[("SCC condensation","src/main.rs run(): kosaraju_scc loop"),("cluster output","src/main.rs dot()")])

p("C03","Direct calls: the edges of the graph are exactly the calls of the program",
"""For every function present in the linked program that has LLVM IR, the graph has an edge to another (or the same) function if and only if its IR contains a direct `call` or `invoke` of that function (however often), apart from indirect calls, machine-code calls on Thumb and compiler intrinsics, and it has never more than one edge between the same pair.
Calls resolve by symbol name to the linked function, a call of a symbol that is only declared and left undefined by the linker leads to a node of that name with unknown stack usage (one node however many callers), and functions removed by the linker contribute neither nodes nor edges.""",
["programs"],"every set of IR definitions/declarations, every call relation between them (multiplicity, self calls, calls from several functions) and every subset of them removed by the linker",
FW+"; completeness and exactness of the edge set quantifies over all programs",
[M,D,I],[("edge construction","src/main.rs run(): loop over defines / Stmt::DirectCall"),("liveness by linked symbols","src/main.rs: aliases lookup")])

p("C04","No call statement in the IR is silently lost",
"""Whatever syntactic form a `call` or `invoke` instruction takes in the LLVM IR of a linked function (tail markers, result assignment, attributes, return and argument types, quoted or numeric names, constant expressions as arguments, explicit function types, trailing attributes and metadata, casts of the callee, inline assembly), the analysis either represents the callee with an edge or fails loudly without printing a graph.
The usual forms (direct calls and calls through local values, with arguments that are local values or any LLVM constants: integers, floating-point numbers, aggregates, constant expressions) are understood, not refused.
Statements that are not calls, comments, labels and names or string contents that merely look like calls never produce an edge and never make the analysis fail.""",
["inputs"],"every sentence of a grammar of call/invoke statements, bounded in the number of departures from the plainest form, in every statement position",
"the unit tests parse a few dozen literal lines; forms are combinatorial and a form that is not understood may fall into the `other statement` case, which no test looks at",
[D,I,TY,IT],[("statement parser","src/ir/define.rs stmt/assign/direct_call/indirect_call/bitcast_call/asm/other")])

p("C05","Indirect calls are bounded by exactly the signature-compatible functions",
"""For every function-pointer signature that is called in a linked function, the graph has one dashed node, labelled with the signature followed by `*` and using 0 bytes, with an edge from every function that performs such a call and from no other, and an edge to every linked function whose IR signature (definition or declaration) is compatible and to no other typed function; a function that has several names in the executable (identical code folded by the linker) counts with the signatures of all of them.
Signatures are compatible when they have the same number of parameters, the same return type and parameter types, where `ptr` is compatible with any pointer type; a call through the erased signature of `core::fmt` (`i1 (%fmt::Void*, %core::fmt::Formatter*)`, typed pointers) leads to every linked function that formats, whatever its first parameter points to; signatures that nobody calls have no node.""",
["programs"],"every assignment of signatures to functions and of indirect calls to callers, over a type alphabet with scalars, pointers, aggregates, vectors and void",
"one example per target has a handful of signatures; over- and under-approximation of the callee sets needs all pairs",
[M,I,TY],[("signature index","src/main.rs run(): indirects"),("compatibility","src/ir.rs FnSig::loosely_equal, src/ir/ty.rs Type::loosely_equal")])

p("C06","Unknown code is never reported as bounded",
"""Whenever part of what a function may execute is not known to the analysis, its `max` is a lower bound (`>=`), never exact: calls to undefined symbols, calls to functions without stack usage information, function-pointer calls in a program that links functions without type information, function-pointer calls of a signature that no linked function has, and, on Thumb, register-indirect branches in machine code of functions without IR.
Conversely such an uncertainty only affects functions from which it can be reached.""",
["programs"],"every way of combining unknown sources (undefined symbol, missing stack size, untyped symbol, untyped machine code with BLX/BX) with call paths leading to them",
"tests never link untyped or undefined symbols on more than one path; soundness of every printed `=` quantifies over all programs",
[M],[("injection of ? nodes","src/main.rs run(): has_untyped_symbols, Node(\"?\"), undefined symbols")])

p("C07","Memory intrinsics lead to the memory routines they lower to",
"""On targets whose machine code is not analyzed, a function whose IR uses an `llvm.memcpy`, `llvm.memmove` or `llvm.memset` intrinsic has an edge to each linked routine that this intrinsic may be lowered to (`memcpy`, `memmove`, `memset` and their AEABI counterparts including `memclr` for `memset`), and none to routines of the other intrinsics; a routine that the linker left undefined (dynamic linking) counts as linked, with unknown stack usage, and routines that are not linked get no edge.
Intrinsics that never become calls (debug information, lifetime markers, assumptions, arithmetic with overflow or saturation, min/max, bit counting and byte swapping) add no edge and no node; on Thumb targets IR intrinsics add no edge by themselves.""",
["programs"],"every subset of linked memory routines times every intrinsic and overload suffix, on every kind of target",
FW+"; which routines are linked and which intrinsic is used varies per program",
[M],[("intrinsic handling","src/main.rs run(): Stmt::DirectCall arms")])

p("C08","Thumb branch targets are decoded exactly",
"""On ARMv6-M and ARMv7-M targets every BL instruction in the machine code of a linked function, and every B instruction of any encoding (16-bit and 32-bit, conditional and unconditional) that leaves the function, gives an edge (one, however often and in whatever ways it is branched to) to precisely the function at the branch target address, for all offsets the encodings can express in either direction.
Branches within the function give no edge, and no other instruction does.""",
["inputs"],"all values of every immediate field of the BL and B encodings, at all instruction positions, in both architecture variants",
"three encodings are unit-tested; the offset fields have up to 25 bits with sign and XOR-ed bits",
[T,M],[("BL/B decoding","src/thumb.rs analyze()"),("address to function","src/main.rs run(): bls/bs loops")])

p("C09","Thumb decoding stays in sync and never takes data for code",
"""For every sequence of Thumb instructions, 16-bit and 32-bit, the analysis finds each call instruction at its true position: an instruction is never skipped, split or merged with its neighbour because of what precedes it.
Bytes that mapping symbols mark as data are never interpreted as instructions and code that follows them is analyzed again, wherever data lies in the function (start, middle, end) and in whatever section the next mapping symbol is.""",
["inputs"],"all 65536 first halfwords and all 32-bit instruction prefixes placed before a call, and all placements of data regions up to a bound",
"unit tests decode single instructions; firmware tests contain only compiler-generated sequences",
[T,M],[("instruction length table","src/thumb.rs analyze()"),("mapping symbols","src/main.rs run(): tags")])

p("C10","Stack usage of straight-line machine code is exact or unknown, never wrong",
"""For a Thumb function without stack size information from the compiler, the printed `local` is either `?` (only if it branches inside itself or puts a value the analysis cannot know into the stack pointer) or a number that is never lower than the deepest stack it really uses and never higher than the sum of everything its instructions push.
With branches inside itself, whether unconditional, conditional or by table, it is `?`, or 0 if nothing in the function moves the stack pointer downwards.
A function none of whose instructions lower the stack pointer is reported as using 0 bytes.""",
["inputs"],"all encodings of the instructions that lower the stack pointer (PUSH, SUB SP, STMDB/PUSH.W, VPUSH, SUB.W/SUBW, STR pre-indexed), all register lists and immediates, and all short sequences of them mixed with POP/ADD SP and branches",
"unit tests decode one example of each instruction",
[T,M],[("SP tracking","src/thumb.rs analyze(): stack, modifies_sp")])

p("C11","Compiler and machine-code stack sizes are reconciled soundly",
"""On Thumb targets, a function's `local` is the size reported by the compiler when machine code agrees or cannot be judged; for functions with inline assembly and for outlined functions reported as 0, the machine-code value is used when the function is straight-line code.
Any other contradiction between both sources makes the analysis fail instead of printing a graph; on other targets the compiler's size is used as is and its absence is shown as `?`.""",
["programs"],"all combinations of (compiler size: absent, equal, lower, higher, zero) x (code: straight or branching, with or without stack use) x (inline assembly or not) x (ordinary or outlined name) x target",
"firmware tests contain only agreeing values and at most one asm function",
[M],[("override logic","src/main.rs run(): Local::Exact vs our_stack")])

p("C12","Aliases: one node per function address, whatever it is called",
"""Symbols that share an address in the linked program are one function: the graph has exactly one node per function address, under one of its names (the one with stack size information, if any), and calls, IR bodies, declarations and stack sizes given under any of the names all belong to that node.
Mapping symbols are never functions or names of functions, on Thumb the lowest address bit does not distinguish functions, and equal names at different addresses stay different functions.""",
["programs"],"every grouping of names onto addresses, every symbol type and order in the symbol table, and every choice of which name carries the IR, the stack size and the call",
"no test links aliases on purpose",
[M],[("canonical names","src/main.rs run(): aliases, addr2name, indices")])

p("C13","A start point filters the graph and changes nothing else",
"""With a start point, the printed graph consists of exactly the functions reachable from it in the unfiltered graph, with the same edges, `local` and `max` values and cycle clusters as without filter.
A start point is found by its exact symbol name (or alias) or by its path without hash, and only by that; when no function or several functions match, the graph is printed unfiltered.""",
["programs"],"every call graph up to a bound times every start function, given as symbol, as path without hash, as ambiguous or unknown name",
"one start point is never exercised by the tests on graphs with joins, cycles or indirect calls",
[M],[("filtering","src/main.rs run(): args.start")])

p("C14","Function labels: demangled, shortened only when unambiguous",
"""Every function is labelled with its demangled name (as the Rust demangler prints it); the trailing hash of a legacy-mangled Rust name is left out if and only if no other function of the linked program has the same path, so that two different functions of the linked program never get the same label because of shortening.
Names that are not Rust-mangled or have no hash are printed unchanged, and no name makes the analysis fail.""",
["inputs"],"every multiset of symbol names up to a bound from an alphabet of mangled, nearly-mangled, v0 and plain names (live, undefined, only declared), in both output formats",
"tests look up a few labels of one program",
[M],[("dehash/ambiguous","src/main.rs dehash(), run(): ambiguous")])

p("C15","The printed graph is well-formed DOT for every symbol name",
"""The output is a single syntactically valid DOT digraph in which every node is declared once, every edge and cluster member refers to a declared node, and every label read back by a DOT reader is the function name followed by a `max` line (when known) and a `local` line.
This holds for whatever characters symbol names contain (quotes, backslashes, braces, spaces, non-ASCII).""",
["inputs"],"all names up to a length bound over an alphabet of special characters, in function names and signature labels, with and without cycles",
"no test has a special character in a name",
[M],[("escaping","src/main.rs Escaper, dot()")])

p("C16","The top format reports the same numbers",
"""With `--format top`, the first line shows the largest `max` of all functions as `<n> MAX`, the second line is the column header, and then every node of the graph appears on exactly one line with its `local` stack usage (0 if unknown) and its name, in non-increasing order of that number.
The numbers and names are those the DOT format shows for the same program and start point.""",
["programs"],"every call graph and weight assignment up to a bound, with cycles, unknowns, equal weights and start points",
"no test uses --format top",
[M],[("top()","src/main.rs top()")])

p("C17","A graph is printed only when every stage succeeded",
"""If anything the analysis needs fails - the toolchain query, an unsupported toolchain, wrong command line, the project file, the build, or a missing, truncated or malformed artifact - the process exits with a non-zero status and prints no graph, and when the build fails with an exit code it exits with this same code.
When it succeeds, it exits with 0 and has printed the whole graph of the artifacts produced by this very build, whatever warnings it printed.""",
["fault_sequences","inputs"],"every single fault and every pair of faults over the stages of a run, every truncation point of every artifact, and every build exit code",
"tests only run successful builds",
[M,I],[("error propagation","src/main.rs main()/run()")])

p("C18","The newest artifacts of the requested target are analyzed",
"""The analyzed program is the requested example or binary: its executable is taken from the release directory of the effective target directory and target, and its IR and object file from the most recently modified `.ll` file among those named after the requested artifact (dashes replaced by underscores) followed by `-`, together with the object file of the same name.
Stale files of earlier builds, other artifacts with a common name prefix, and other directories never influence the result.""",
["histories","configurations"],"every history of builds leaving stale artifacts (all orders of modification times and of names), every artifact kind, project layout and target configuration up to a bound",
"tests run in a fixed layout; stale files differ per machine and are listed in directory order",
[M],[("artifact lookup","src/main.rs run(): read_dir loop")])

p("C19","The build is invoked exactly as requested",
"""The program is built exactly once, with `cargo rustc` in release mode with the requested artifact, the requested features (`--all-features` taking precedence) and `--target` if and only if it was given, with flags that produce one LLVM IR and one object file with fat LTO and rebuild the standard library (only core, alloc and compiler_builtins for bare-metal targets), with this tool as compiler wrapper, and with a source file that the requested artifact is built from touched beforehand so that a rebuild happens.
This is so whether the tool is started directly or as the subcommand `cargo call-stack`. The target used for analysis is the one given on the command line, else the one in the project configuration, else the host.""",
["configurations"],"every combination of command line options, project configuration (target, target directory, workspace) and target properties",
"tests use one command line per target",
[M],[("cargo command","src/main.rs run(): Command::new(\"cargo\")")],observe=("arguments, environment and number of child processes","analysis mode visible in the graph"))

p("C20","The compiler wrapper is transparent",
"""When it acts as compiler wrapper, the process runs the given compiler exactly once with all given arguments in their original order and unmodified, adding only the flag that emits stack sizes and, for the compiler_builtins crate, LLVM IR output, and it exits with the compiler's exit code, passing standard streams through.
It reports on standard error the rlib of every compiler_builtins dependency given with a path, and the path at which compiler_builtins' LLVM IR will be written, and nothing for other crates; invocations that compile no crate (queries such as `-vV` or `--print`) are forwarded as well.""",
["inputs"],"every compiler command line up to a bound over the argument forms Cargo produces (spellings of --extern, --crate-name, --out-dir, -C extra-filename, unrelated arguments) and every exit code",
"the tests run the wrapper only through real builds and do not look at what is forwarded",
[W],[("wrapper()","src/wrapper.rs")],observe=("arguments seen by the compiler","exit status","standard error markers"))

p("C21","The result is a function of the program alone",
"""Analyzing the same program twice gives the same call graph, stack values and cycles, independent of hash seeds; and it does not depend on the order of symbols, of IR functions, of stack size records, or of the functions in memory.""",
["schedules","inputs"],"every hash seed class (iteration order) and every permutation of symbols, IR items, stack size records and functions in memory of a set of programs",
"tests run once per program and cannot control hash iteration order",
[M],[("hash maps iterated while building the graph","src/main.rs run(): defines, indirects, stack_sizes")])

p("C22","Function-pointer signatures are parsed and printed faithfully",
"""Every LLVM type that may occur in a function signature (integers, floating point, opaque and typed pointers, arrays, vectors, structs, packed structs, named types, function types) is parsed whole and shown in the signature label of an indirect call in LLVM syntax that denotes the same type.
Signatures that differ in any type, however nested, are kept apart, and parameter attributes and names do not influence the signature.""",
["inputs"],"all types up to a nesting depth over every type constructor, as return and parameter types",
"unit tests parse a dozen types and print three",
[TY,I],[("type parser and printer","src/ir/ty.rs")])

p("C23","compiler_builtins is analyzed like the program itself",
"""Functions that come from compiler_builtins are analyzed like the program's own: their IR (calls and signatures) is taken from its LLVM IR file and their stack sizes from all object files in its library that belong to compiler_builtins, in any order and number, and other archive members are ignored.
The files used are those that the compiler wrapper reported during this build, and a build that reported none does not produce a graph.""",
["programs","configurations"],"every distribution of functions over application IR, compiler_builtins IR and archive members, member naming, and every sequence of reports in the build's output",
"real builds have one layout of the archive",
[M,W],[("archive walk","src/main.rs run(): ar::Archive loop"),("marker lines","src/main.rs run(): stderr loop")])

p("C24","Whatever else stands in the IR module does not disturb the analysis",
"""Besides calls, the LLVM IR of a program contains comments, target lines, type definitions, global variables and constants, aliases, declarations (also of intrinsics), attribute groups, metadata and module-level assembly, and its function definitions carry linkage, visibility, calling conventions, attributes, sections, personality functions and metadata.
In any order, number and combination these are read without making the analysis fail, whatever text their names, strings and initializers contain, and none of them adds, removes or changes a function, an edge or a signature in the graph.""",
["inputs"],"every pair (thorough: triples) of module items at every position between functions, and every definition within a deviation budget over linkage, result, name, parameters, trailing attributes, first block and neighbouring item",
"unit tests read seven items in isolation; what an item leaves unread swallows or breaks the function after it",
[IT,D,I],[("items","src/ir/item.rs item/alias/global/type_/declare/attributes/metadata/module_asm"),("definitions","src/ir/define.rs parse"),("attributes, names","src/ir.rs attribute/function")])

p("C25","Build messages reach the user and never the graph",
"""Every line that the build prints on standard error, other than the compiler wrapper's reports, appears on the tool's standard error unchanged, once and in order, whatever its text, however many there are, and whether or not the build succeeds.
Standard output contains the call graph and nothing else; neither the verbosity option nor the logging settings in the environment change the graph or the exit status.""",
["inputs","configurations","schedules"],"every sequence of build messages up to a length over an alphabet that contains near-reports, escape sequences and DOT text, every volume around the capacity of a pipe, and every combination of verbosity, logging variables and output options",
"tests build with one setting and look at the graph only",
[M],[("stderr loop","src/main.rs run(): for line in stderr.lines()"),("logger","src/main.rs main(): env_logger")],observe=("standard output","standard error lines of the build","exit status"))

p("C26","The user's files are left as they are",
"""The tool reads: whether the run succeeds or fails at any stage, no file or directory in the project, its target directory, the home directory or the temporary directory is created, removed, replaced, or has its contents or permissions changed by it.
The only thing it changes is the modification time of Rust sources of the analyzed package (to trigger the rebuild), never of other files or of other packages' sources. As compiler wrapper it changes nothing at all.""",
["configurations","fault_sequences"],"every set of source files the package may consist of (absent, read-only, links, empty, large...), every fault at every stage, every pair of options and environment settings, workspaces, and wrapper invocations",
"tests never look at the file system after a run",
[M,W],[("touching of sources","src/main.rs run(): filetime::set_file_times"),("wrapper()","src/wrapper.rs")],observe=("the file tree before and after",))

p("C27","Size is no limit",
"""Programs are analyzed alike whatever their size: the numbers of functions, calls, callers, candidates, signatures, names, stack size records, undefined functions, cycles, statements and blocks, the depth of calls and of types, the lengths of names, lines, signatures and machine code, and the amounts of stack (up to 64 bits) neither make the analysis fail nor get cut off, saturate or wrap around in the graph or the values.""",
["inputs"],"every size of a grid around all powers of two up to a bound, along each of 27 dimensions in which a program grows, with and without a start point",
"tests and sampled programs are small; a limit shows only beyond it",
[M,I,T],[("whole pipeline","src/main.rs run()"),("IR parser","src/ir.rs parse"),("machine code","src/thumb.rs analyze")])

p("C28","Features combine",
"""The call graph of a program that combines any of the features is the one that each feature prescribes on its own: recursion, indirect calls, unknown stack sizes, several names for one address, identical code folded, compiler_builtins, code without IR, undefined functions, memory routines, removed functions, inline assembly, outlined functions, any symbol order, symbols without size, hints, shortened names, a start point, and either output format.
All of them together determine exactly the nodes, edges, local sizes, maxima, cycles and warning marks, on every supported architecture.""",
["programs","configurations"],"every combination within a deviation budget of some twenty features of a program, against a reference analysis of the abstract program",
"tests cover few features each and never their interactions, where a change to one feature breaks another",
[M,W],[("whole pipeline","src/main.rs run()")],observe=("the complete graph","maxima","cycles"))

p("C29","What else is in the files is no function",
"""Executables and object files contain much beside functions: symbols of data, sections, source files, thread-local and absolute values, labels, linker-script symbols, undefined weak symbols and objects, symbols of other types, dynamic symbol tables, debug and note sections, groups, relocations, retained stack size sections, sections of other code, records of functions that are not in the executable.
None of it adds or removes a node, an edge or a value of the call graph, marks a value as uncertain, or makes the analysis fail; only function symbols of the executable are functions.""",
["programs","inputs"],"every set of up to two (three, four) of some fifty kinds of contents, in either file, on every architecture, against the graph of the plain program",
"tests use files written by one linker for a few programs",
[M,T],[("symbol tables","src/main.rs object_stack_sizes, run()"),("sections of code","src/main.rs run()")],observe=("the complete graph",))

if __name__=="__main__":
    here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here,"properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    print(len(P))
