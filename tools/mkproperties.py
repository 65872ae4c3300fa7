#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here so that they can be edited comfortably)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

VM = "duckVM.c"
prop("P01", "Arithmetic instructions compute the documented value",
     "Executing an add, subtract, multiply or divide instruction, in any of its operand widths and for any two stack slots it names, pushes exactly one result: integer arithmetic (wrapping; booleans count as 0 and 1) when neither operand is a float, IEEE double arithmetic when at least one is. Integer division by zero, a non-numeric operand or an operand outside the stack is a run-time error, never a crash, and pushes nothing. No other stack slot, heap object, global or call frame changes.",
     ["inputs", "histories"], "every pair of operand values (all 64-bit patterns, all types), every stack depth and operand distance, every operand width, every allocation failure",
     "the tests add a handful of small constants with 8-bit operands; the 16/32-bit encodings, mixed types, overflow and division edge cases are never executed",
     [VM], [("add/sub/mul/div cases", "duckVM.c: duckVM_executeInstruction"), ("result push", "duckVM.c: stack_push")])
prop("P02", "Comparison, equality and negation give the right truth value",
     "Executing greater, less, equal or not, in any operand width, pushes exactly one result that is true precisely when the relation holds: numeric order over integers, floats and booleans, and same type and same value for equality, where strings compare by their visible contents and lists, vectors and symbols by identity. Operands of types for which the relation is undefined, or outside the stack, are a run-time error that pushes nothing. Nothing but the new slot changes.",
     ["inputs", "histories"], "every pair of operand values of every type (including string views sharing a buffer), every stack depth, operand distance and operand width",
     "tests compare a few small integers; wide encodings, string views with offsets and cross-type pairs are not sampled",
     [VM, "DuckLib/string.c"], [("greater/less/equal/not cases", "duckVM.c: duckVM_executeInstruction"), ("string comparison", "DuckLib/string.c: dl_string_compare")])
prop("P03", "Stack instructions and literals leave exactly the intended stack",
     "Every instruction that pushes a literal or copies, moves, or drops stack slots has exactly its documented effect on the stack: literals decode big-endian and sign-extended to the encoded boolean, integer, double, symbol, string or nil; a copy duplicates the addressed slot, a move overwrites one slot with another, a pop removes exactly the given number of slots. The value stack and the parallel captured-variable stack keep the same depth and every other slot, heap object, global and call frame is unchanged; an operand outside the stack is an error.",
     ["inputs", "histories"], "every operand byte pattern of every encoding width, every stack depth and content, every allocation failure",
     "tests run compiled scripts whose literals and distances fit in 8 bits; wide encodings and boundary distances are never produced",
     [VM], [("push*/move/pop/nil cases", "duckVM.c: duckVM_executeInstruction"), ("stack_push, stack_pop, stack_pop_multiple", "duckVM.c")])
prop("P04", "Jumps, branches, returns and halt transfer control correctly",
     "A jump moves execution by exactly its signed offset, in every operand width; a conditional branch pops its operands and jumps exactly when the tested value is truthy (false, zero, nil and empty sequences are not); a return drops exactly the given number of slots, keeps the returned value on top, and resumes the instruction after the matching call; halt stops the machine. Stack underflow is an error, an unknown opcode is an error, and nothing else changes.",
     ["inputs", "histories"], "every offset, every operand width, every value type tested by a branch, every stack and call-stack depth",
     "tests only contain short forward and backward branches over a few types of values",
     [VM], [("jump/brnz/return/halt cases", "duckVM.c: duckVM_executeInstruction"), ("call frame stack", "duckVM.c: call_stack_push, call_stack_pop")])
prop("P05", "Pairs and lists read back exactly what was stored in them",
     "cons builds a fresh pair whose head and tail read back as exactly the two operands, whatever their types, and leaves its operands untouched; car and cdr return the stored head and tail (nil for nil); set-car and set-cdr replace exactly one field of exactly one pair, seen by every reference to it; null? is true exactly for empty sequences. Applying them to anything else or outside the stack is an error and changes nothing.",
     ["inputs", "histories"], "every operand value and type, every aliasing between the pairs involved, every operand width and distance, every allocation failure",
     "tests build a few lists of integers; nested sequences as operands, aliased pairs and wide operand encodings are not sampled",
     [VM], [("cons/car/cdr/set-car/set-cdr/null? cases", "duckVM.c: duckVM_executeInstruction"), ("heap allocation", "duckVM.c: duckVM_gclist_pushObject")])
prop("P06", "Vectors store, return and bound-check their elements",
     "A vector instruction creates a vector of exactly the requested length holding exactly the given elements, reading or writing element i touches exactly element i counted from the vector's own start (a vector tail shares storage with the vector it came from), and a negative or too large index is an error that touches nothing. No vector instruction reads or writes outside the vector's storage.",
     ["inputs", "histories"], "every vector length, view offset, index value (all 64-bit integers) and element value, every operand width and distance",
     "tests index tiny vectors in range from offset zero",
     [VM], [("vector/make-vector/get-vector-element/set-vector-element/car/cdr cases", "duckVM.c: duckVM_executeInstruction")])
prop("P07", "String operations see exactly the string's visible bytes",
     "length, concatenate, substring, string construction from a sequence, element access and symbol-name extraction operate on exactly the visible bytes of their operand, so that concatenation yields the bytes of the first followed by those of the second and a substring yields exactly the requested window; wrong types, out-of-range windows or non-byte elements are errors. No string operation reads or writes outside the string's storage.",
     ["inputs", "histories"], "every string length and view, every window (all 64-bit integers), every operand width and distance",
     "tests use a few short constant strings from offset zero",
     [VM], [("length/concatenate/substring/make-string/symbol-string cases", "duckVM.c: duckVM_executeInstruction")])
prop("P08", "Type identity: type-of, user types and composites",
     "type-of distinguishes every type of value, make-type returns a type different from every type made before and from all built-in types, and a composite made with a type, value and function returns exactly these from its accessors, with the setters replacing exactly one component of exactly one composite. Using an accessor on anything that is not a composite, or an operand outside the stack, is an error.",
     ["inputs", "histories"], "every value type, every history of type creations, every aliasing of composites, every operand width and distance",
     "tests create one or two types and inspect a few values",
     [VM], [("typeof/make-type/make-instance/composite-* cases", "duckVM.c: duckVM_executeInstruction")])
prop("P09", "Calls pass control and arguments exactly",
     "Calling a closure, a composite that wraps a callable or a native callback checks the argument count against the callee's arity, packs surplus arguments of a variadic callee into a list in order (nil if none), saves exactly the return point, and continues at the callee's code. Too few or too many arguments or a non-callable value is an error that leaves no call frame behind.",
     ["inputs", "histories"], "every arity, argument count, operand encoding width and stack depth, every callable and non-callable value",
     "tests call functions with a few arguments of 8-bit encodings",
     [VM], [("funcall/apply/call/ccall cases", "duckVM.c: duckVM_executeInstruction"), ("arity check and rest list", "duckVM.c: duckVM_prepareForFuncall")])
prop("P10", "Captured variables are shared between a scope and its closures",
     "While a captured variable's scope is live, every closure that captured it and the scope itself read and write one and the same variable; when the scope is left the variable's last value survives on the heap and all closures that share it keep sharing it. Reading or writing one captured variable affects no other variable.",
     ["inputs", "histories"], "every interleaving of capture, read, write and scope exit, every nesting and operand width",
     "tests build a few closures with one or two captured variables",
     [VM], [("pushClosure/pushUpvalue/setUpvalue/releaseUpvalues cases", "duckVM.c: duckVM_executeInstruction")])
prop("P11", "Global variables hold the last value written under their key",
     "Reading a global yields exactly the value last stored under that key; writing one key affects no other key, defining a new key preserves all others, and reading a key never stored is an error.",
     ["inputs", "histories"], "every key, every table size and history of definitions and writes, every operand width",
     "tests define a handful of globals in ascending key order",
     [VM], [("pushGlobal/setGlobal cases", "duckVM.c: duckVM_executeInstruction"), ("global table", "duckVM.c: duckVM_global_get, duckVM_global_set")])
prop("P12", "Garbage collection never reclaims or corrupts a reachable object",
     "Whenever an allocation triggers a collection, every object reachable from the stack, globals, captured variables, call frames or native roots survives with its contents unchanged, and every unreachable object becomes available again; a new object never shares its cell or buffer with a live one. Allocation fails with an error, not by reusing a live cell, when no memory is free.",
     ["inputs", "histories", "fault_sequences"], "every object graph (including cycles), every heap size and fill level, every allocation history",
     "tests use heaps large enough that most scripts never collect",
     [VM], [("mark", "duckVM.c: duckVM_gclist_markObject"), ("sweep and allocate", "duckVM.c: duckVM_gclist_garbageCollect, duckVM_gclist_pushObject")])
prop("P13", "The dynamic array behaves as a sequence",
     "After any history of push, pop, get, set, append, resize and clear operations the array holds exactly the elements of the corresponding mathematical sequence, for every element size and growth strategy. An index outside the sequence or a pop of an empty one is reported as an error and changes nothing, a failed allocation leaves the contents readable, and no element outside the buffer is ever touched.",
     ["inputs", "histories", "fault_sequences"], "every operation history, element size, length and growth strategy, every allocation failure",
     "tests push a few integers with one strategy",
     ["DuckLib/array.c", "DuckLib/core.c"], [("array operations", "DuckLib/array.c"), ("buffer copies", "DuckLib/core.c: dl_memcopy")])
prop("P14", "The portable allocator hands out disjoint blocks inside its pool",
     "Every block the portable allocator hands out lies inside the pool, has at least the requested size and overlaps no other live block, reallocation preserves the contents up to the smaller size, and freed space becomes available again. Bad requests are reported as errors and leave all live blocks intact.",
     ["inputs", "histories"], "every history of allocate, reallocate and free calls with every size and fitting strategy",
     "tests exercise short fixed histories",
     ["DuckLib/memory.c"], [("block list", "DuckLib/memory.c: dl_malloc, dl_realloc, dl_free")])
prop("P15", "The trie maps each key to the last value inserted",
     "Looking a key up in the trie yields exactly the value last inserted under that key, or not-found if the key was never inserted, for any set of keys including keys that are prefixes of one another.",
     ["inputs", "histories"], "every history of insertions over arbitrary byte-string keys",
     "tests insert a handful of words",
     ["DuckLib/trie.c"], [("insert and find", "DuckLib/trie.c: dl_trie_insert, dl_trie_find")])
prop("P16", "Text and numbers convert exactly; text compares byte-wise",
     "Parsing the decimal or hexadecimal text of an integer yields that integer and rejects text that is not a number, printing an integer yields its decimal digits, and comparing two byte strings reports equality exactly when they have the same length and bytes. Copying and filling memory affects exactly the bytes asked for. None of these reads outside the given text.",
     ["inputs"], "every byte string of every length, every integer",
     "tests parse a few literals",
     ["DuckLib/string.c", "DuckLib/core.c"], [("parsing and printing", "DuckLib/string.c"), ("memory primitives", "DuckLib/core.c")])
prop("P17", "Sorting yields an ordered permutation",
     "Sorting an array with a comparison routine leaves the same elements in ascending order, for every length and element size, touching nothing outside the array.",
     ["inputs"], "every array content, length and element size",
     "tests sort a few fixed arrays",
     ["DuckLib/sort.c"], [("heap sort and quick sort", "DuckLib/sort.c")])
prop("P18", "The assembler encodes every operand exactly",
     "For every instruction and every operand value the assembler chooses an encoding wide enough to hold the value and writes exactly the bytes the virtual machine decodes back to that value; operands that fit no encoding are reported as an error instead of being truncated.",
     ["inputs", "programs"], "every instruction class and every operand value (all 64-bit integers)",
     "tests compile small scripts whose operands fit in one byte",
     ["assembler.c"], [("operand width selection and emission", "assembler.c: duckLisp_assemble")])
prop("P19", "Code emitters address stack slots by their distance from the top",
     "Every emitter appends exactly one instruction of the requested kind whose operands are the distances of the named variables from the current top of the compile-time stack, and updates the compile-time stack depth by exactly the instruction's run-time effect; a variable beyond the current depth is an error.",
     ["inputs", "programs"], "every stack depth and variable index",
     "tests compile a few scripts with shallow stacks",
     ["emitters.c"], [("operator emitters", "emitters.c")])
prop("P20", "The embedding interface reads and writes values faithfully",
     "A value pushed through the embedding interface reads back through it (and from scripts) as the same value of the same type, queries report the type of the top value truthfully, getters of the wrong type report an error and change nothing, and pushes and pops change the stack by exactly one slot.",
     ["inputs", "histories"], "every value, every stack depth and content, every sequence of interface calls",
     "tests only use the interface through the test driver's few callbacks",
     [VM], [("embedding interface", "duckVM.c: duckVM_push*, duckVM_set*, duckVM_copy*, duckVM_is*, duckVM_typeOf, duckVM_pop*")])
prop("P21", "Malformed operands cannot corrupt memory",
     "Whatever bytes follow an instruction's opcode, executing it either has the documented effect or reports an error; it never reads or writes outside the stack, the heap objects and the instruction's own operand bytes.",
     ["inputs"], "every opcode and every operand byte pattern on every well-formed machine state",
     "the compiler only produces well-formed operands, so tests never run any other",
     [VM], [("all instruction cases", "duckVM.c: duckVM_executeInstruction")])
prop("P22", "Parsing reproduces the structure of the source text",
     "Parsing any source text either yields the expression tree that the text denotes, with every literal's exact value, or reports an error with the position of the offending text; it never reads outside the text.",
     ["inputs", "programs"], "every source text",
     "tests parse a fixed set of scripts",
     ["parser.c"], [("recursive-descent parser", "parser.c")])
prop("P23", "Compiled programs mean what the source says",
     "Running the code compiled from a program yields the value the language definition assigns to the program, including lexical scoping, macros expanded at compile time, closures, recursion and include order.",
     ["programs"], "every program",
     "tests run a fixed set of programs",
     ["duckLisp.c", "generators.c"], [("compiler", "duckLisp.c, generators.c")])
prop("P24", "Parenthesis inference only adds the parentheses that are implied",
     "With inference enabled, a fully parenthesised program means the same as without inference, and a program with omitted parentheses is given exactly the grouping its declarations imply.",
     ["programs"], "every program and declaration",
     "tests infer a fixed set of scripts",
     ["parenthesis-inferrer.c"], [("inference", "parenthesis-inferrer.c")])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
