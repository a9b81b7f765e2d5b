#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)
S = "src/compiler/"
L = "lib/std/"

p("C01", "Integer operators compute exact two's-complement results at run time",
  "For every integer type from 8 to 128 bits and every operand value, the compiled +, -, *, /, %, <<, >>, &, |, ^, ~, unary -, ++/--, compound assignments, comparisons (including mixed signed/unsigned comparisons, which compare the mathematical values) and conversions between widths give the mathematically defined result: wrapping modulo 2^n, division truncating toward zero, arithmetic shift for signed and logical shift for unsigned operands, sign/zero extension when widening and truncation when narrowing by cast. This holds at every optimisation level.",
  ["inputs", "programs"], "all integer types, operators, nesting of operators, operand values and optimisation levels",
  "unit tests check a handful of operand values per operator; a wrong predicate or extension for one width/sign/operator combination at a boundary value passes them",
  [S+"llvm_codegen_expr.c", S+"sema_expr.c", S+"sema_casts.c", S+"llvm_codegen_storeload.c", S+"llvm_codegen_instr.c"],
  [("binary/unary operator lowering and comparison predicates", S+"llvm_codegen_expr.c"), ("implicit arithmetic promotion and casts", S+"sema_casts.c")],
  ["stdout of compiled programs"])
p("C02", "Compile-time evaluation agrees with run-time evaluation",
  "Every expression the compiler can evaluate at compile time (integer, floating point, boolean, comparison, cast and nested constant expressions at all widths including 128-bit, and constant arrays, slices and strings) has the same value as the same expression evaluated at run time on variables holding the same operands, and as the mathematical definition.",
  ["inputs", "programs"], "all constant expressions and operand values",
  "the constant folder and the code generator are two implementations; tests compare them on a few fixed expressions only",
  [S+"bigint.c", S+"float.c", S+"sema_const.c", S+"sema_expr.c", S+"sema_casts.c", S+"number.c", S+"expr.c"],
  [("128-bit constant arithmetic", S+"bigint.c"), ("constant comparison, folding and casts", S+"number.c, "+S+"sema_expr.c, "+S+"sema_casts.c")],
  ["$assert / const values in compiled programs", "stdout"])
p("C03", "Structured programs execute with the language's control-flow semantics",
  "A program built from variables, if/else, while/do/for/foreach loops (forward and reverse, by value and by reference), labelled break and continue, switch, nextcase, ternaries, short-circuit operators, function and recursive calls, nested scopes and defer produces exactly the sequence of observable effects the language defines: in particular deferred statements run exactly once, in reverse order, on every way out of their scope (fall-through, break, continue, nextcase, return).",
  ["programs", "inputs"], "all nestings of these statements and all paths through them",
  "the test suite checks the emitted IR of small fixed examples; interactions of nested scopes, defers and jumps are combinatorial",
  [S+"llvm_codegen_stmt.c", S+"sema_stmts.c", S+"sema_liveness.c", S+"parse_stmt.c", S+"ast.c", S+"copying.c"],
  [("defer stacks attached to exits", S+"sema_stmts.c"), ("jump and loop lowering", S+"llvm_codegen_stmt.c")],
  ["event trace printed by compiled programs"])
p("C04", "Optionals propagate the first fault and only unwrap real values",
  "An expression containing optional operands either yields its value with every operand evaluated, or yields exactly the fault of the first failing operand with no later operand evaluated; ??, !, !!, if (try), if (catch), @catch, @ok, defer try and defer catch, and optional-returning functions deliver that value or that fault unchanged, and a fault compares equal only to itself.",
  ["programs", "inputs"], "all nestings of optional expressions, statements and failing positions",
  "tests check single constructs; nesting of rethrow, else, try chains and deferred handlers is unbounded",
  [S+"llvm_codegen_expr.c", S+"llvm_codegen_stmt.c", S+"sema_expr.c", S+"sema_stmts.c", S+"llvm_codegen_value.c"],
  [("catch blocks and optional values", S+"llvm_codegen_expr.c"), ("try/catch unwrapping", S+"sema_stmts.c")],
  ["event trace printed by compiled programs"])
p("C05", "Operands and macro arguments are evaluated exactly once, in source order",
  "In every call, method call, macro call, binary and compound assignment, index, slice, initializer, named/default/variadic argument list and chained expression, each operand with side effects is evaluated exactly once, left to right, an operand or argument that reads a variable sees it as it was when the operands to its left, and none to its right, had been evaluated, a compound assignment reads its target before the right side is evaluated, defaults are evaluated in parameter order, and a compound assignment or ++/-- evaluates its target address once; a default argument is evaluated only when it is omitted at the call.",
  ["programs"], "all expression shapes with side-effecting operands",
  "a duplicated or reordered evaluation changes nothing when operands are pure, as nearly all tests' are",
  [S+"sema_expr.c", S+"llvm_codegen_expr.c", S+"expr.c", S+"copying.c", S+"sema_initializers.c"],
  [("argument matching", S+"sema_expr.c"), ("lvalue address reuse", S+"llvm_codegen_expr.c")],
  ["event trace printed by compiled programs"])
p("C06", "Functions and structs are binary compatible with C on x86-64 Linux",
  "For every function signature over scalars, pointers, structs, unions, arrays in structs, nested structs and vectors-free aggregates, passed and returned by value, including variadic arguments, a C3 caller and a C callee (and a C caller and a C3 callee, also through function pointers) agree on every argument byte and on the result.",
  ["programs", "inputs"], "all signatures and argument values",
  "tests pin the IR of about fifty signatures; classification depends on every combination of field types, offsets and remaining registers",
  [S+"abi/c_abi_x64.c", S+"abi/c_abi.c", S+"llvm_codegen_function.c", S+"llvm_codegen_expr.c", S+"llvm_codegen_type.c"],
  [("System V classification", S+"abi/c_abi_x64.c"), ("argument expansion and coercion", S+"llvm_codegen_expr.c, "+S+"llvm_codegen_function.c")],
  ["values seen by code compiled with clang/gcc and linked with C3 objects"])
p("C07", "Cross-compiled signatures follow the target's C ABI",
  "For aarch64, riscv64, riscv32, Windows x64, Linux x86 and wasm32 targets, the way each parameter and the result of a function is passed (registers, coerced types, indirect, by-value stack copy, struct-return pointer, sign/zero extension) is the way clang passes the same C signature for that target.",
  ["programs", "configurations"], "all supported targets and all signatures over scalars, structs and unions",
  "per-target ABI tests pin a few signatures each, and cross targets cannot be executed here at all",
  [S+"abi/c_abi_aarch64.c", S+"abi/c_abi_riscv.c", S+"abi/c_abi_win64.c", S+"abi/c_abi_x86.c", S+"abi/c_abi_wasm.c", S+"target.c"],
  [("per-target classification", S+"abi/"), ("target data", S+"target.c")],
  ["function signatures in emitted LLVM IR"])
p("C08", "Types have C-compatible size, alignment and member offsets",
  "For every struct, union, array, nested and anonymous aggregate, including @packed and @align declarations, the size, alignment and member offsets reported at compile time equal those the generated code uses and those a C compiler assigns to the equivalent declaration, and values written through one layout are read back through the other.",
  ["programs"], "all aggregate declarations",
  "tests cover fixed structs; padding, packing and alignment interact with every field order and nesting",
  [S+"sema_decls.c", S+"llvm_codegen_type.c", S+"types.c", S+"sema_types.c"],
  [("struct layout", S+"sema_decls.c"), ("LLVM type with padding", S+"llvm_codegen_type.c")],
  ["printed sizes, alignments, offsets and bytes"])
p("C09", "Bitstruct fields store and load exactly their bits",
  "For every bitstruct over an integer or char-array backing, with any bit ranges, signedness, byte order attribute and overlap, writing a field stores the value truncated to its width in exactly its bits and changes no other field, reading yields the zero- or sign-extended bits, and literals, compile-time constants, compound assignments and the bitwise operators on whole bitstructs agree with that.",
  ["programs", "inputs"], "all bitstruct declarations and histories of field writes",
  "tests pin IR for a few declarations; offset arithmetic differs for every range, backing and endianness",
  [S+"llvm_codegen_expr.c", S+"sema_decls.c", S+"sema_initializers.c", S+"sema_const.c"],
  [("bit field load/store", S+"llvm_codegen_expr.c"), ("declaration checks", S+"sema_decls.c")],
  ["printed field values and backing bytes"])
p("C10", "Safe mode traps every checked violation and nothing else",
  "In safe mode a program that indexes or slices out of bounds, divides or takes a remainder by zero, shifts by the bit width or more, dereferences a null pointer with `*`, converts out of enum range, force-unwraps a fault, reaches unreachable code, or fails an assert or a @require/@ensure contract panics at that point, before any later effect, at every safe optimisation level; a program that does none of these never panics.",
  ["programs", "inputs"], "all checked operations, operand values on both sides of each bound, and nestings",
  "tests check the presence of a few checks in IR; bounds are off by one only at the boundary value and for particular index types",
  [S+"llvm_codegen_expr.c", S+"llvm_codegen_stmt.c", S+"sema_expr.c", S+"llvm_codegen_function.c", S+"llvm_codegen.c"],
  [("index, slice, null, shift and division checks", S+"llvm_codegen_expr.c"), ("contracts", S+"sema_stmts.c")],
  ["exit status, stderr and the events printed before the panic"])
p("C11", "Vector operations act lane by lane",
  "Every arithmetic, bitwise, shift, comparison, conversion, swizzle, swizzle-assignment, reduction and initialisation on vectors equals the same scalar operation applied to each lane, for every element type and lane count, at compile time and at run time.",
  ["programs", "inputs"], "all vector types, operators and lane values",
  "tests use a few lane counts and element types",
  [S+"llvm_codegen_expr.c", S+"sema_expr.c", S+"sema_casts.c", S+"llvm_codegen_builtins.c", S+"sema_builtins.c"],
  [("vector lowering", S+"llvm_codegen_expr.c"), ("vector builtins", S+"llvm_codegen_builtins.c")],
  ["printed lanes"])
p("C12", "Arrays, slices and initializers denote the elements the language defines",
  "Indexing from either end, all range forms (a..b, a:len, open ends, ^ from the end), slice copy and slice fill, slice equality, array/slice/vector conversion, and positional, designated, range, nested and constant initializers of arrays and structs (with all remaining elements zero) read and write exactly the elements the language defines, for every bound and nesting, for local, global and constant data alike.",
  ["programs", "inputs"], "all aggregate shapes, ranges and histories of element accesses",
  "fixed examples do not reach the combinations of range form, from-end bounds, overlap, nesting and constness",
  [S+"sema_initializers.c", S+"sema_expr.c", S+"llvm_codegen_expr.c", S+"sema_const.c", S+"llvm_codegen.c"],
  [("initializer lists", S+"sema_initializers.c"), ("slice lowering", S+"llvm_codegen_expr.c")],
  ["printed elements"])
p("C13", "switch selects exactly the matching case",
  "For every switch over integers, chars, enums, booleans, strings, faults and types, with ranges, duplicates-free case lists, fallthrough, default anywhere, nextcase to a value, label or default, and with or without @jump, the executed case bodies are those of the first matching case and its explicit continuations, for every switched value.",
  ["programs", "inputs"], "all case lists and switched values",
  "jump tables, ranges and if-chains are different lowerings chosen by shape; tests fix the shapes and values",
  [S+"llvm_codegen_stmt.c", S+"sema_stmts.c"],
  [("switch lowering and jump tables", S+"llvm_codegen_stmt.c"), ("case checking", S+"sema_stmts.c")],
  ["event trace"])
p("C14", "Build configuration never changes the behaviour of a well-defined program",
  "A program without undefined behaviour prints the same output and exits with the same status at -O0 to -O5, -Os and -Oz, with or without debug info, safety checks, unused-code stripping, single-module compilation, any thread count, and any linker or relocation model.",
  ["programs", "configurations"], "all well-defined programs times all build configurations",
  "the test suite runs most cases in one configuration",
  [S+"compiler.c", S+"llvm_codegen.c", S+"llvm_codegen_module.c", S+"sema_liveness.c", "src/build/builder.c", "wrapper/src/wrapper.cpp"],
  [("optimisation pipeline and liveness stripping", S+"llvm_codegen.c, "+S+"sema_liveness.c"), ("option resolution", "src/build/builder.c")],
  ["stdout and exit status across configurations"])
p("C15", "Macros, generics and compile-time control flow equal their hand expansion",
  "A generic module instance, a macro call (with typed, untyped, expression, type and compile-time parameters, trailing bodies and variadics), and code produced by $if, $switch, $for and $foreach behaves exactly like the same code written out by hand; instantiating with the same parameters yields the same type, and macro locals never capture or clash with the caller's names.",
  ["programs"], "all macro and generic definitions and uses",
  "tests check single examples; hygiene and copying faults appear only when expansions nest, repeat or share names",
  [S+"sema_expr.c", S+"sema_stmts.c", S+"copying.c", S+"sema_name_resolution.c", S+"sema_decls.c"],
  [("macro expansion and AST copying", S+"copying.c, "+S+"sema_expr.c"), ("generic instantiation", S+"sema_decls.c")],
  ["stdout of expanded and hand-written programs"])
p("C16", "Any input is compiled or rejected with a diagnostic, never a crash",
  "Given any bytes as a source file (and any mutation of valid programs), the compiler terminates in bounded time, either succeeding or exiting with a non-zero status after printing at least one error with a source location; it never crashes, trips an internal assertion, reads out of bounds or hangs.",
  ["inputs"], "all source texts",
  "error tests contain chosen mistakes only",
  [S+"lexer.c", S+"parse_expr.c", S+"parse_global.c", S+"parse_stmt.c", S+"sema_decls.c", S+"sema_expr.c", S+"diagnostics.c"],
  [("poisoned declarations and error recovery", S+"parser_internal.h, "+S+"sema_internal.h")],
  ["exit status and stderr of a sanitized compiler"])
p("C17", "Ill-typed and ill-formed programs are rejected at the offending line",
  "A program that violates a static rule of the language (undeclared or duplicate names, wrong argument counts or types, lossy implicit conversions, constants out of range, missing return, unreachable required initialisation, access to private or local symbols of another module, discarded optionals, misuse of optionals, break/continue outside loops, duplicate cases, assigning constants or calling with wrong types) is rejected with an error reported at the line of the violation and produces no output, and the same program without the violation is accepted.",
  ["programs"], "all programs containing one of these violations, anywhere in them",
  "each rule is tested in one context; a check lost in some nesting (macro, lambda, method, generic, defer) goes unnoticed",
  [S+"sema_expr.c", S+"sema_stmts.c", S+"sema_casts.c", S+"sema_decls.c", S+"sema_name_resolution.c", S+"diagnostics.c"],
  [("semantic checks", S+"sema_*.c"), ("error reporting", S+"diagnostics.c")],
  ["exit status, error line numbers, absence of output files"])
p("C18", "Compilation is deterministic and independent of declaration order",
  "Compiling the same sources twice, with files given in another order, with top-level declarations or module sections permuted, from another directory or with another thread count, is accepted or rejected alike, gives programs with the same behaviour, and identical commands give byte-identical LLVM IR and object code.",
  ["programs", "configurations", "schedules"], "all programs, permutations of files and declarations, and thread counts",
  "tests compile each file once, in one order",
  [S+"compiler.c", S+"sema_passes.c", S+"semantic_analyser.c", S+"sema_name_resolution.c", S+"llvm_codegen.c", "src/utils/taskqueue.c", S+"symtab.c"],
  [("lazy declaration analysis", S+"semantic_analyser.c, "+S+"sema_decls.c"), ("task queue", "src/utils/taskqueue.c")],
  ["emitted IR, stdout"])
p("C19", "any values and interfaces dispatch on the dynamic type",
  "An any value reports the type it was made from and converts back only to that type with the same contents; a call through an interface runs the @dynamic method of the value's own type (or its inline parent, or the interface's absence is reported as null), for every set of types, interfaces and optional methods; typeid comparisons and switches agree with type identity.",
  ["programs"], "all sets of types, interfaces and dynamic methods",
  "tests use two or three types; the dispatch cache and method tables depend on the whole set",
  [S+"llvm_codegen_expr.c", S+"llvm_codegen.c", S+"sema_expr.c", S+"sema_decls.c", L+"core/runtime.c3"],
  [("dynamic dispatch tables and cache", S+"llvm_codegen.c, "+S+"llvm_codegen_expr.c")],
  ["stdout"])
p("C20", "Literals denote the values they spell",
  "Every integer (decimal, hex, octal, binary, underscores, suffixes), floating point (decimal, exponent, hex), character, string, raw string, hex and base64 bytes literal, with every escape sequence, denotes exactly the value its spelling defines (floats correctly rounded), and literals out of range of their type or malformed are rejected.",
  ["inputs"], "all literal spellings",
  "tests contain a few literals of each kind",
  [S+"lexer.c", S+"parse_expr.c", S+"number.c", S+"bigint.c", S+"float.c", "src/utils/stringutils.c"],
  [("literal scanning and conversion", S+"lexer.c, "+S+"parse_expr.c")],
  ["printed values"])
p("C21", "Reflection describes the types and enums that were declared",
  "For every declared enum, struct, union, bitstruct, typedef, alias, function and array type, the compile-time and run-time reflection properties (sizeof, alignof, offsets, kind, inner type, len, names, values, associated values, member lists, ordinals, inline parents, min/max, parameter types) equal the declaration, and the run-time typeid properties equal the compile-time ones.",
  ["programs"], "all type declarations",
  "tests query a handful of declarations",
  [S+"sema_expr.c", S+"sema_types.c", S+"llvm_codegen_type.c", S+"types.c", S+"sema_decls.c", L+"core/types.c3"],
  [("type property access", S+"sema_expr.c"), ("introspection data", S+"llvm_codegen_type.c")],
  ["printed properties"])
p("C22", "Tool results report truthfully: test runner, exit codes, arguments, libraries",
  "The test command exits zero exactly when every selected @test function passes and reports each as it behaved; a compiled program receives exactly the arguments given after --, and its exit status is passed through; C headers generated for a library compile as C and calling the library through them gives the same results as calling it from C3.",
  ["programs", "inputs"], "all sets of passing/failing tests, argument vectors, exit codes and exported signatures",
  "CI runs one project of each kind, all passing",
  [L+"core/runtime_test.c3", S+"compiler.c", S+"headers.c", "src/build/build_options.c", S+"linker.c", L+"core/private/main_stub.c3"],
  [("test runner", L+"core/runtime_test.c3"), ("header generation", S+"headers.c"), ("run command", S+"compiler.c")],
  ["exit status, stdout, headers compiled with clang"])
p("C23", "Project files are read faithfully and rejected cleanly",
  "Any project.json or manifest is either read with the meaning its JSON has (comments and trailing commas allowed, targets inheriting and overriding global settings) or rejected with a diagnostic naming the problem, and adding targets or dependencies through the project commands preserves every other setting and yields a file that can be read again.",
  ["inputs", "histories"], "all project files and sequences of project commands",
  "one well-formed sample project is built in CI",
  ["src/utils/json.c", "src/build/project.c", "src/build/project_manipulation.c", "src/build/project_creation.c", "src/build/common_build.c"],
  [("JSON reader/writer", "src/utils/json.c"), ("project loading", "src/build/project.c")],
  ["output of c3c project view/build, resulting project.json"])
p("C24", "Untrusted sources cannot run commands or read files while compiling",
  "Without --trust=full no compile-time construct starts a process, and without --trust=include none includes another file, whatever its position (dead branches, macros, generics, libraries); such programs are rejected and have no side effect on the file system beyond the requested outputs.",
  ["programs", "configurations"], "all placements of $exec, $include and project scripts, and all trust levels",
  "tests use one placement each",
  [S+"sema_passes.c", S+"parse_global.c", "src/utils/file_utils.c", "src/build/builder.c", S+"compiler.c"],
  [("trust level checks", S+"sema_passes.c")],
  ["exit status, marker files that a command would create"])

p("L01", "Sequence containers behave like abstract sequences",
  "After any history of operations, List, ElasticArray, AnyList, LinkedList, RingBuffer, PriorityQueue (min and max) and Range contain exactly the elements an abstract sequence/queue model contains, in the model's order, every operation returns what the model returns (including faults on empty or full containers), and freeing releases every allocation exactly once.",
  ["histories", "inputs"], "all operation sequences, element types and capacities",
  "unit tests call each operation a few times on a fresh container",
  [L+"collections/list.c3", L+"collections/list_common.c3", L+"collections/elastic_array.c3", L+"collections/anylist.c3", L+"collections/linkedlist.c3", L+"collections/ringbuffer.c3", L+"collections/priorityqueue.c3", L+"collections/range.c3"],
  [("growth, shifting and links", L+"collections/")], ["results of public methods"])
p("L02", "Maps, sets and bit sets behave like their mathematical models",
  "After any history of operations, HashMap (any key distribution, load factor and initial capacity), EnumMap, EnumSet, BitSet and GrowableBitSet contain exactly the associations or members their model contains; lookups, iteration, keys/values, copies, set algebra, cardinality and removal agree with the model, through any number of resizes.",
  ["histories", "inputs"], "all operation sequences and key sets, including colliding hashes",
  "unit tests use a few keys and no collisions",
  [L+"collections/hashmap.c3", L+"collections/enummap.c3", L+"collections/enumset.c3", L+"collections/bitset.c3", L+"core/builtin.c3"],
  [("bucket chains and resize", L+"collections/hashmap.c3"), ("hash functions of builtin types", L+"core/builtin.c3")], ["results of public methods"])
p("L03", "Sorting permutes into order; searching finds exactly what is there",
  "quicksort, insertionsort and countingsort (whole or index range, by value or reference comparator, with context, or key function) leave a sorted permutation of their input and touch nothing outside the range; quickselect yields the k-th element; binarysearch returns the first insertion position; is_sorted, array index_of/rindex_of/contains/concat agree with their definitions.",
  ["inputs"], "all element types, lists, comparators and ranges",
  "unit tests sort a few short arrays",
  [L+"sort/quicksort.c3", L+"sort/insertionsort.c3", L+"sort/countingsort.c3", L+"sort/binarysearch.c3", L+"sort/sorted.c3", L+"core/array.c3"],
  [("partitioning and radix passes", L+"sort/")], ["resulting arrays"])
p("L04", "Binary-to-text encodings round-trip and match their standards",
  "base64 (all alphabets and paddings), base32, hex and URL percent-encoding produce exactly the standard text for every byte string, decoding an encoded text returns the original bytes, and decoding any other text either returns what the standard defines or reports a fault without writing out of bounds; lengths announced by the length functions are exact.",
  ["inputs"], "all byte strings, alphabets and malformed texts",
  "unit tests check RFC vectors",
  [L+"encoding/base64.c3", L+"encoding/base32.c3", L+"encoding/hex.c3", L+"net/url_encoding.c3"],
  [("block coding and tail handling", L+"encoding/")], ["encoded and decoded bytes"])
p("L05", "JSON and CSV are parsed to what the text denotes",
  "Parsing any valid JSON text gives the value tree it denotes (strings with all escapes, numbers, nesting, objects), printing that tree and parsing it again gives the same tree, and malformed text is reported as a fault, never accepted with another value or crashed on; the CSV reader yields exactly the separated fields of each line; Object get/set operations agree with a map/array model.",
  ["inputs", "histories"], "all JSON and CSV texts and object histories",
  "unit tests parse a few documents",
  [L+"encoding/json.c3", L+"encoding/csv.c3", L+"collections/object.c3"],
  [("tokenizer and parser", L+"encoding/json.c3")], ["parsed trees"])
p("L06", "Hashes, MACs and ciphers match their standards for any chunking",
  "MD5, SHA-1, SHA-256, HMAC and PBKDF2 over them, CRC-32, CRC-64, Adler-32, FNV-1a (32/64) and RC4 give the standard result for every message and key, and feeding a message in any sequence of pieces gives the same result as in one piece; constant-time comparison equals equality.",
  ["inputs", "histories"], "all messages, keys and update histories",
  "unit tests check published vectors, mostly in one update",
  [L+"hash/md5.c3", L+"hash/sha1.c3", L+"hash/sha256.c3", L+"hash/hmac.c3", L+"hash/crc32.c3", L+"hash/crc64.c3", L+"hash/adler32.c3", L+"hash/fnv32a.c3", L+"hash/fnv64a.c3", L+"crypto/rc4.c3", L+"crypto/crypto.c3"],
  [("block buffering", L+"hash/")], ["digests"])
p("L07", "Unicode conversions are exact and reject invalid input",
  "UTF-8, UTF-16 and UTF-32 conversions map every valid string to its exact encoding and back, the length functions give the exact sizes, string iterators yield the code points in order, and invalid input is reported as a fault or handled without reading or writing out of bounds.",
  ["inputs"], "all strings of code points and byte/unit sequences",
  "unit tests convert a few strings",
  [L+"core/conv.c3", L+"core/string.c3", L+"core/string_iterator.c3", L+"core/dstring.c3"],
  [("encoders and decoders", L+"core/conv.c3")], ["converted units, faults"])
p("L08", "String, DString and character functions match their definitions",
  "Searching, splitting, joining, trimming, stripping, case conversion, comparing, copying, tokenizing and ascii classification of strings, and every sequence of DString edits (append, insert, delete, replace, reverse, chop, reserve), give exactly the result of the same operation on an abstract byte string.",
  ["inputs", "histories"], "all strings, arguments and edit sequences",
  "unit tests use a few short strings per function",
  [L+"core/string.c3", L+"core/dstring.c3", L+"ascii.c3"],
  [("slicing and buffer growth", L+"core/dstring.c3, "+L+"core/string.c3")], ["resulting strings"])
p("L09", "Number parsing returns the denoted value or a fault",
  "Parsing text as any integer type in any base returns exactly the denoted value when it fits and a fault otherwise (malformed, empty, out of range), and parsing text as float or double returns the correctly rounded nearest value, at every magnitude.",
  ["inputs"], "all texts, bases and target types",
  "unit tests parse a few values",
  [L+"core/string.c3", L+"core/string_to_real.c3"],
  [("overflow tests and decimal to binary conversion", L+"core/string_to_real.c3")], ["parsed values and faults"])
p("L10", "Formatted printing follows the format specification",
  "For every format string and argument list the formatter prints what its directives define: %d %x %X %o %b %c %s %p %f %e %g %a with flags, width and precision, integers of all widths including 128-bit exactly, floats correctly rounded to the requested precision, strings, slices, arrays, pointers, enums, faults, booleans and nested values; the returned length is the number of bytes written, bounded buffers are never overrun, and bad formats are reported.",
  ["inputs"], "all format strings and argument values",
  "unit tests format a few values",
  [L+"io/formatter.c3", L+"io/formatter_private.c3", L+"io/io.c3"],
  [("integer and float printing", L+"io/formatter_private.c3")], ["printed bytes"])
p("L11", "BigInt arithmetic is exact within its capacity",
  "For operands and results within the representable range, BigInt construction, addition, subtraction, multiplication, division, remainder, shifts, negation, comparison, gcd, lcm, square root, modular exponentiation, bit operations and conversion to and from text in every radix give the mathematically exact result.",
  ["inputs"], "all operand values and radices",
  "unit tests use a few values",
  [L+"math/bigint.c3"], [("limb arithmetic and normalisation", L+"math/bigint.c3")], ["results as text"])
p("L12", "Allocators return disjoint, aligned, correctly sized live blocks",
  "For every history of acquire, resize and release requests with any sizes and alignments, each allocator (libc, arena, dynamic arena, backed arena, on-stack, temp with nested @pool scopes, tracking, simple heap) returns blocks that are aligned as requested, lie within its memory, do not overlap any live block, keep their contents when resized, and are zero when requested so; exhaustion is reported, marks and pool exits release exactly what followed them, and tracking reports exactly the live blocks.",
  ["histories"], "all allocation histories",
  "unit tests make a few allocations of small sizes",
  [L+"core/allocators/arena_allocator.c3", L+"core/allocators/dynamic_arena.c3", L+"core/allocators/backed_arena_allocator.c3", L+"core/allocators/on_stack_allocator.c3", L+"core/allocators/temp_allocator.c3", L+"core/allocators/tracking_allocator.c3", L+"core/allocators/heap_allocator.c3", L+"core/allocators/libc_allocator.c3", L+"core/mem_allocator.c3", L+"core/mem.c3"],
  [("bump pointers, headers and page chains", L+"core/allocators/")], ["addresses and contents of blocks"])
p("L13", "Integer math helpers are exact for every operand",
  "Bit operations (popcount, clz, ctz, rotate, funnel shift, byte swap, reverse), saturating and overflow-checked arithmetic, abs/sign/min/max/clamp, gcd/lcm, power-of-two helpers, muldiv and the 128-bit division, multiplication, shift and float conversion runtime give the exact result for every operand of every width.",
  ["inputs"], "all operand values and widths",
  "unit tests check a few values; 128-bit runtime routines have special paths per magnitude",
  [L+"bits.c3", L+"math/math.c3", L+"math/runtime/i128.c3"],
  [("128-bit runtime", L+"math/runtime/i128.c3")], ["results"])
p("L14", "Floating-point math, vectors and matrices match their definitions",
  "The bundled libc-free math functions agree with a correctly rounded reference to within a stated few ulps over their domain and on special values; float classification, rounding, frexp/scalbn/sign helpers, interpolation and easing end points, complex, quaternion, vector and matrix operations satisfy their defining equations.",
  ["inputs"], "all floating-point operands",
  "unit tests check a few points",
  [L+"math/math_nolibc/", L+"math/math.c3", L+"math/matrix.c3", L+"math/vector.c3", L+"math/complex.c3", L+"math/quaternion.c3", L+"math/easing.c3"],
  [("argument reduction and polynomial kernels", L+"math/math_nolibc/")], ["results"])
p("L15", "Stream adapters deliver exactly the bytes of the underlying stream",
  "For every sequence of reads, writes, seeks, pushbacks and flushes of any sizes, ByteReader, ByteWriter, ByteBuffer, ReadBuffer, WriteBuffer, LimitReader, TeeReader, MultiReader, MultiWriter, Scanner, copy_to, readline and read_fully deliver or store exactly the bytes a plain byte-sequence model does, whatever the buffer sizes and short reads of the wrapped stream, and signal end of file exactly at the end.",
  ["histories", "inputs"], "all operation sequences, buffer sizes and short-read patterns",
  "unit tests use one buffer size and whole reads",
  [L+"io/stream.c3", L+"io/io.c3", L+"io/stream/buffer.c3", L+"io/stream/bytebuffer.c3", L+"io/stream/bytereader.c3", L+"io/stream/bytewriter.c3", L+"io/stream/limitreader.c3", L+"io/stream/multireader.c3", L+"io/stream/multiwriter.c3", L+"io/stream/scanner.c3", L+"io/stream/teereader.c3"],
  [("buffer refill and compaction", L+"io/stream/")], ["bytes read and written"])
p("L16", "Binary serialisation round-trips and has the specified byte layout",
  "Fixed-width big-endian integers, variable-length integers, short byte arrays, bit writers and readers, endian-tagged bit-order types and QOI images: writing then reading returns the same values for every value and sequence, the bytes written are those the format specifies, and truncated or malformed input is reported as a fault without reading out of bounds.",
  ["inputs", "histories"], "all values, sequences of widths, and images",
  "unit tests round-trip a few values",
  [L+"io/stream.c3", L+"io/bits.c3", L+"core/bitorder.c3", L+"compression/qoi.c3"],
  [("bit accumulators, QOI run/index/diff coding", L+"io/bits.c3, "+L+"compression/qoi.c3")], ["bytes and values"])
p("L17", "Paths and URLs are split, normalised and joined consistently",
  "Path normalisation is idempotent, removes . and .. without changing the file denoted, and never escapes the root; append, parent, basename, dirname, extension and absolute agree with the POSIX (and Windows) rules; a URL splits into its components and prints back to an equivalent URL, with percent-encoding undone and redone per component; IPv4/IPv6 addresses parse to and print from the address they denote, and classification predicates match the registered ranges.",
  ["inputs"], "all path, URL and address strings",
  "unit tests use a table of strings",
  [L+"io/path.c3", L+"net/url.c3", L+"net/url_encoding.c3", L+"net/inetaddr.c3"],
  [("normalisation loop", L+"io/path.c3"), ("component scanning", L+"net/url.c3")], ["resulting strings and components"])
p("L18", "Calendar arithmetic agrees with the proleptic Gregorian calendar",
  "Converting between timestamps and dates, time-zone offsets, weekday and day of year, adding seconds to years, comparing, differences, and the standard text formats agree with the proleptic Gregorian calendar for every instant in range.",
  ["inputs"], "all instants, offsets and amounts",
  "unit tests use a few dates",
  [L+"time/datetime.c3", L+"time/time.c3", L+"time/format.c3"],
  [("calendar conversion", L+"time/datetime.c3")], ["fields and formatted text"])
p("L19", "Random generators are reproducible, in range and match their algorithms",
  "Seeding any generator with the same seed gives the same sequence, bounded draws always lie in the requested range and reach every value of small ranges, unit-interval draws lie in [0,1), and each generator's output follows its published recurrence; UUIDs carry the right version and variant bits.",
  ["inputs", "histories"], "all seeds, ranges and interleavings of draw widths",
  "unit tests draw a few values",
  [L+"math/random.c3", L+"math/random/", L+"math/uuid.c3"],
  [("recurrences and range reduction", L+"math/random.c3, "+L+"math/random/")], ["drawn values"])
p("L20", "Threads, channels, pools and atomics neither lose nor duplicate work",
  "Under every schedule, each value sent on a channel is received exactly once and in order per sender, closing wakes blocked parties with the closed fault and loses no buffered value, each task pushed to a pool runs exactly once before stop-and-destroy returns, mutex-protected and atomic updates are never lost, atomic read-modify-write operations return the prior value for every type and ordering, and once-flags run once.",
  ["schedules", "histories"], "all schedules and operation mixes",
  "unit tests run one small interleaving",
  [L+"threads/buffered_channel.c3", L+"threads/unbuffered_channel.c3", L+"threads/pool.c3", L+"threads/fixed_pool.c3", L+"threads/os/thread_posix.c3", L+"threads/thread.c3", L+"atomic.c3", L+"atomic_nolibc.c3"],
  [("condition variables and counters", L+"threads/"), ("atomic builtins", L+"atomic.c3, "+S+"llvm_codegen_builtins.c")], ["multisets of values received, counters"])
p("L21", "Files, directories, environment and subprocesses act as requested",
  "Reading, writing, seeking, appending and loading files return exactly the bytes of a file model; listing, creating and removing directories affects exactly the named tree (never following symbolic links out of it); environment variables read back as set; a subprocess receives exactly the given arguments, environment and working stream, and its output and exit status are returned exactly.",
  ["histories", "inputs"], "all operation sequences, file contents, names, argument vectors and exit codes",
  "unit tests touch one file and no subprocess with unusual arguments",
  [L+"io/file.c3", L+"io/os/", L+"io/path.c3", L+"os/env.c3", L+"os/subprocess.c3"],
  [("libc wrappers", L+"io/os/"), ("fork/exec set-up", L+"os/subprocess.c3")], ["file system under a scratch directory, child output"])
p("L22", "Comparison, hashing, conversion and memory helpers are mutually consistent",
  "less/greater/compare_to/equals and the builtin hash agree with each other and with value order for every builtin type and for user types defining them (equal values hash equally), min/max select correctly, mem::copy/set/move/equals, Slice2d views, bit casts, enum lookups by name and Maybe values return exactly what the underlying bytes and values denote.",
  ["inputs"], "all values of all builtin comparable types and slices",
  "unit tests compare a few integers",
  [L+"core/builtin_comparison.c3", L+"core/builtin.c3", L+"core/mem.c3", L+"core/slice2d.c3", L+"core/types.c3", L+"core/values.c3", L+"collections/maybe.c3", L+"collections/tuple.c3"],
  [("generic comparison macros", L+"core/builtin_comparison.c3")], ["results"])

import sys
only = set(sys.argv[1:])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
