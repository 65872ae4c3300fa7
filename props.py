"""What each property's check proves: compilation units and harnesses (see DESIGN.md)."""

DUCKLIB = ["DuckLib/array.c", "DuckLib/core.c", "DuckLib/string.c", "DuckLib/memory.c", "DuckLib/trie.c", "DuckLib/sort.c"]
VM_ARRAY = ["dl_array_pushElement", "dl_array_pushElements", "dl_array_popElement", "dl_array_popElements",
            "dl_array_getTop", "dl_array_setTop", "dl_array_get", "dl_array_set"]
VM_LINK = [("DuckLib/array.c", VM_ARRAY), "DuckLib/core.c", "DuckLib/string.c"]
VM_REPLACE = [("duckVM_error_pushRuntime", "c_error_pushRuntime"), ("duckVM_gclist_pushObject", "c_gclist_pushObject")]

TRUSTED = [
    "cbmc 6.11.0 (goto-cc front end, symbolic execution, bit-blasting) and its CaDiCaL back end",
    "gcc for the native replay of counterexamples",
]
ASSUMPTIONS = [
    "LP64 little-endian target, C semantics as implemented by CBMC; signed integer overflow is two's-complement wrap-around",
]


def vm(name, src, harnesses, **kw):
    u = dict(name=name, src=src, harnesses=harnesses, link=VM_LINK, replace=VM_REPLACE)
    u.update(kw)
    return u


def w3(prefix, names):
    return [prefix + n + s for n in names for s in ("8", "16", "32")]


PROPS = {}

PROPS["P01"] = dict(
    units=[
        vm("layout", "p_arith.c", w3("L_", ["add", "sub", "mul", "div"]), defs=["NH=0"], weight=5),
        vm("values", "p_arith.c", [h + "_" + t for h in w3("V_", ["add", "sub", "mul", "div"])
                                   for t in ("bb", "bi", "bf", "ib", "ii", "if", "fb", "fi", "ff")]
                                   + [h + "_" + t for h in w3("U_", ["div"]) for t in ("ii", "ib", "bi", "bb")], defs=["NH=0", "VALUES"], smt="cvc5", any_reach=True),
    ],
    functions=["duckVM_executeInstruction: add/sub/mul/div x {8,16,32}", "stack_push", "integerDivisionIsUndefined"],
)

PROPS["P02"] = dict(
    units=[
        vm("cmp", "p_cmp.c", w3("H_", ["greater", "less", "not"]), defs=["NH=2"]),
        vm("equal", "p_cmp.c", w3("H_", ["equal"]), defs=["NH=2"], replace=VM_REPLACE + [("dl_string_compare", "c_string_compare")]),
    ],
    functions=["duckVM_executeInstruction: greater/less/equal/not x {8,16,32}", "stack_push"],
)

PROPS["P03"] = dict(
    units=[vm("stack", "p_stack.c", ["H_false", "H_true", "H_nil", "H_double"]
              + w3("H_", ["integer", "baresym", "symbol", "string", "index", "move", "pop"]), defs=["NH=2"])],
    functions=["duckVM_executeInstruction: pushBoolean*, nil, pushInteger*, pushDoubleFloat, pushStrippedSymbol*, pushSymbol*, pushString*, pushIndex*, move*, pop*",
               "stack_push", "stack_pop_multiple", "duckVM_object_makeString", "duckVM_object_makeSymbol", "duckVM_object_makeCompressedSymbol"],
)

PROPS["P04"] = dict(
    units=[vm("flow", "p_flow.c", ["H_undefined_first", "H_undefined_mid", "H_undefined_last", "H_halt", "H_nop", "H_return0"]
              + w3("H_", ["jump", "brnz", "return"]), defs=["NH=2"], reach_optional={"H_return0": ["error"]})],
    functions=["duckVM_executeInstruction: jump*, brnz*, return*, halt, nop, default", "stack_pop_multiple", "stack_push", "call_stack_pop"],
)

PROPS["P05"] = dict(
    units=[vm("pair", "p_pair.c", w3("H_", ["cons", "car", "cdr", "setcar", "setcdr", "null"]), defs=["NH=3"])],
    functions=["duckVM_executeInstruction: cons*, car*, cdr*, setCar*, setCdr*, nullp* (list operands)", "stack_push"],
)

PROPS["P06"] = dict(
    units=[vm("vec", "p_vec.c", w3("H_", ["get", "set", "car", "cdr", "length", "setcar", "setcdr"]), defs=["NH=3"], first="internal_vector")]
    + [vm(name, "p_vec.c", quick, thorough_harnesses=thorough, defs=["NH=1", "BUILD=%d" % n] + (["FIXED"] if "gc" in name else []), unwind_code=n + 1,
          any_reach=True, weight=3, mem=3, bounded="vectors of length %d" % n)
       for name, n, quick, thorough in (
           ("build0", 0, w3("H_", ["vector", "make"]), []),
           ("build1", 1, w3("H_", ["vector"]) + ["H_make8"], ["H_make16", "H_make32"]),
           ("build1gc", 1, w3("H_", ["vector", "make"]), []),
           ("build2", 2, ["H_make16"], ["H_make8", "H_make32"]),
           ("build2gc", 2, ["H_make32"], ["H_make8", "H_make16"]))]
    + [vm("build2gcv", "p_vec.c", ["H_vector8"], defs=["NH=1", "BUILD=2", "FIXED"], unwind_code=3, any_reach=True, weight=9, mem=20, timeout=3000, tier="thorough", bounded="vectors of length 2")],
    functions=["duckVM_executeInstruction: getVecElt*, setVecElt*, car*, cdr*, length*, setCar*, setCdr* (vector operands), vector*, makeVector*", "stack_push"],
)

PROPS["P08"] = dict(
    units=[vm("type", "p_type.c", ["H_maketype"] + w3("H_", ["typeof", "instance", "value", "function", "setvalue", "setfunction"]), defs=["NH=3"])],
    functions=["duckVM_executeInstruction: typeof*, makeType, makeInstance*, compositeValue*, compositeFunction*, setCompositeValue*, setCompositeFunction*", "stack_push"],
)

PROPS["P07"] = dict(
    units=[vm("str", "p_str.c", w3("H_", ["length", "car", "cdr", "symstr", "symid", "elt", "substring", "concat"]), defs=["NH=3"], first="internalString",
              replace=VM_REPLACE + [("dl_memcopy_noOverlap", "c_memcopy")]),
           vm("mkvec", "p_mkstr.c", w3("H_", ["make"]), defs=["NH=3", "VEC", "LEN=4"], unwind_code=5, bounded="vectors of at most 4 elements"),
           vm("mklist", "p_mkstr.c", w3("H_", ["make"]), defs=["NH=3"], unwind_code=6, bounded="lists of at most 3 pairs")],
    functions=["duckVM_executeInstruction: length*, car*, cdr*, getVecElt* (string operands), substring*, concatenate*, makeString* (bounded), symbolString*, symbolId*", "stack_push"],
)

CALL_REPLACE = VM_REPLACE + [("duckVM_global_get", "c_global_get")]
PROPS["P09"] = dict(
    units=[vm("direct", "p_call.c", w3("H_", ["funcall", "call", "ccall"]), defs=["NH=3"], first="bytecode", replace=CALL_REPLACE, unwind_code=1),
           vm("composite", "p_call.c", w3("H_", ["funcall"]), defs=["NH=6", "COMPOSITE"], first="internalComposite", replace=CALL_REPLACE, unwind_code=3, bounded="composites nested at most 2 deep"),
           vm("apply", "p_call.c", w3("H_", ["apply"]), defs=["NH=6", "APPLY"], first="bytecode", replace=CALL_REPLACE, unwind_code=3, bounded="lists of at most 2 pairs")]
    + [vm("surplus%d" % n, "p_call.c", w3("H_", ["funcall"]), defs=["NH=3", "SURPLUS=%d" % n], first="bytecode", replace=CALL_REPLACE, unwind_code=n + 1, any_reach=True, bounded="%d surplus arguments, fixed stack layout" % n) for n in (1, 2)]
    + [vm("applysurplus%d" % n, "p_call.c", w3("H_", ["apply"]), defs=["NH=6", "APPLY", "SURPLUS=%d" % n], first="bytecode", replace=CALL_REPLACE, unwind_code=n + 1, any_reach=True, bounded="%d surplus arguments, fixed stack layout" % n) for n in (1, 2)],
    functions=["duckVM_executeInstruction: funcall*, apply*, call*, ccall*", "duckVM_instruction_prepareForFuncall", "call_stack_push", "stack_push", "stack_pop", "stack_pop_multiple"],
)

ARRAY_OPS = ["H_push", "H_pushes", "H_pop", "H_pops", "H_gettop", "H_settop", "H_get", "H_set", "H_clear", "H_quit", "H_append", "H_copy"]
PROPS["P13"] = dict(
    units=[dict(name="array%d" % n, src="p_array.c", harnesses=ARRAY_OPS, link=["DuckLib/array.c"], defs=["ES=%d" % n], unwind=3,
                native_link=["DuckLib/array.c", "DuckLib/core.c", "DuckLib/memory.c"], native_flags=["-Wl,--wrap=malloc,--wrap=realloc"]) for n in (1, 4, 8, 16, 24, 40, 48)]
    + [dict(name="alloc", src="p_mem.c", harnesses=["H_malloc", "H_free", "H_realloc"], link=["DuckLib/memory.c"], flags=["--malloc-may-fail", "--malloc-fail-null"],
            native_link=["DuckLib/memory.c", "DuckLib/core.c"], native_flags=["-Wl,--wrap=malloc,--wrap=realloc"])],
    functions=["dl_array_init", "dl_array_quit", "dl_array_pushElement", "dl_array_pushElements", "dl_array_popElement", "dl_array_popElements", "dl_array_getTop",
               "dl_array_setTop", "dl_array_get", "dl_array_set", "dl_array_clear", "dl_array_append", "dl_array_copy"],
)

PROPS["P11"] = dict(
    units=[vm("table", "p_glob.c", ["H_get", "H_set"], defs=["NH=3", "GLOBMAP"]),
           vm("instr", "p_glob.c", w3("H_", ["read", "write"]), defs=["NH=3"], replace=VM_REPLACE + [("duckVM_global_get", "c_global_get"), ("duckVM_global_set", "c_global_set")])],
    functions=["duckVM_executeInstruction: pushGlobal*, setGlobal*", "duckVM_global_get", "duckVM_global_set", "stack_push"],
)

PROPS["P10"] = dict(
    units=[vm("access", "p_clos.c", w3("H_", ["pushup", "setup"]), defs=["NH=4", "ACCESS", "LINKS=0"], first="upvalue", unwind_code=2)]
    + [vm("link%d" % n, "p_clos.c", w3("H_", ["pushup", "setup"]), defs=["NH=4", "ACCESS", "LINKS=%d" % n], first="upvalue", unwind_code=n + 2, bounded="variable reached through %d links" % n) for n in (1, 2)]
    + [vm("release%d%s" % (n, f and "gc"), "p_clos.c", q, thorough_harnesses=t, defs=["NH=3", "RELEASE=%d" % n] + ([f] if f else []), first="upvalue", unwind_code=n + 1, any_reach=True,
          bounded="%d variables leave scope%s" % (n, f and ", fixed stack layout"))
       for n, f, q, t in ((1, "", w3("H_", ["release"]), []), (2, "", ["H_release16"], ["H_release8", "H_release32"]),
                          (1, "FIXED", ["H_release8"], ["H_release16", "H_release32"]), (2, "FIXED", w3("H_", ["release"]), []))]
    + [vm("closure%d%s" % (n, f and "gc"), "p_clos.c", q, thorough_harnesses=[h for h in w3("H_", ["closure", "vaclosure"]) if h not in q], defs=["NH=3", "UCOUNT=%d" % n] + ([f] if f else []),
          first="upvalue", unwind_code=n + 1, any_reach=True, weight=n + 1, mem=2 * n + 1, bounded="%d captured variables%s" % (n, f and ", fixed stack layout"))
       for n, f, q in ((0, "", w3("H_", ["closure", "vaclosure"])), (1, "", ["H_closure8", "H_vaclosure16", "H_closure32"]), (2, "", ["H_closure8"]), (2, "FIXED", ["H_vaclosure8"]))],
    functions=["duckVM_executeInstruction: pushUpvalue*, setUpvalue*, releaseUpvalues*, pushClosure*, pushVaClosure*", "duckVM_upvalueArray_getUpvalue", "duckVM_upvalueArray_setUpvalue",
               "duckVM_closure_getUpvalueArray", "stack_push"],
)

PROPS["P12"] = dict(
    units=[vm("mark", "p_gc.c", ["H_first0", "H_first3", "H_stack", "H_null", "H_iter0", "H_iter1", "H_iter3", "H_done", "H_donestack"], defs=["MARK"], first="user", any_reach=True, replace=VM_REPLACE[:1],
              bounded="heap of 4 cells, vectors and captured-variable lists of at most 2 entries; worklist of any length"),
           vm("collect", "p_gc.c", ["H_collect"], defs=["COLLECT"], first="user", replace=VM_REPLACE[:1] + [("duckVM_gclist_markObject", "c_mark")], bounded="heap of 4 cells, at most 2 roots of each kind", unwind_code=6)]
    + [vm("alloc" + n, "p_gc.c", ["H_" + n], defs=["ALLOC"], first=f, replace=VM_REPLACE[:1] + [("duckVM_gclist_garbageCollect", "c_collect"), ("dl_memcopy_noOverlap", "c_memcopy")])
       for n, f in (("string", "internalString"), ("bytecode", "bytecode"), ("vector", "internal_vector"), ("upvalues", "upvalue_array"), ("other", None))]
    + [vm("init", "p_gc.c", ["H_init"], defs=["INIT"], bounded="a heap of 3 cells")],
    functions=["duckVM_gclist_markObject", "duckVM_gclist_garbageCollect", "duckVM_gclist_pushObject", "duckVM_gclist_init"],
)

VM_NOTE = ("For every harness CBMC discharges all obligations for all machine states, operand bytes and allocation outcomes described by the precondition, "
           "with no bound on stack depth; callees are used through contracts (array sequence, allocator, error log, heap allocation) that other checks or "
           "DESIGN.md's assumption list account for. Trusted: cbmc, its solvers, and the mechanical reordering of union members described in DESIGN.md.")
for _p in PROPS.values():
    _p.setdefault("level_note", VM_NOTE)
NOT_APPLICABLE = {
    "P22": "the parser is a mutually recursive descent over an unbounded AST built with reallocation; no contract within cbmc's reach states the text-to-tree relation without a recursive ghost grammar, and dfcc cannot discharge recursive functions",
    "P23": "whole-program compilation correctness relates an unbounded AST to the behaviour of generated bytecode; it needs a formal semantics and an inductive simulation proof that cbmc contracts cannot express",
    "P24": "the inferrer is defined by whole-program declaration scripts run during compilation; its relation needs the same program-level semantics as P23",
}
