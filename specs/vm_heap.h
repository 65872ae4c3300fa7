/* ---- contract: heap allocator (gclist_pushObject) ------------------------------------------ *
 * Either fails, or returns a cell that is not in use, holding the given object, whose external
 * buffer is an own copy.  Any call may collect: every cell not reachable from the roots is lost,
 * so its contents become arbitrary. */
#ifdef BUILD
static objptr_t vbuf[BUILD ? BUILD : 1];
#endif
#ifdef UCOUNT
static objptr_t ubuf[UCOUNT ? UCOUNT : 1];
#endif
#ifdef GCMODEL
/* A collection may reclaim any set of cells that no root and no surviving cell refers to (every such set is
 * considered, so every possible collector that keeps what is reachable). */
static dl_bool_t kill_h[NH + 1], kill_n[NN];
static int keeps(duckVM_object_t *p) {
	int k;
	for (k = 0; k < NH; k++) if (p == heap_obj(k) && kill_h[k]) return 0;
	for (k = 0; k < NN; k++) if (p == new_obj(k) && kill_n[k]) return 0;
	return 1;
}
static int keeps_children(const duckVM_object_t *o) {
	switch (o->type) {
	case duckVM_object_type_list: return keeps(o->value.list);
	case duckVM_object_type_string: return keeps(o->value.string.internalString);
	case duckVM_object_type_symbol: return keeps(o->value.symbol.internalString);
	case duckVM_object_type_closure: return keeps(o->value.closure.bytecode) && keeps(o->value.closure.upvalue_array);
	case duckVM_object_type_vector: return keeps(o->value.vector.internal_vector);
	case duckVM_object_type_composite: return keeps(o->value.composite);
	case duckVM_object_type_cons: return keeps(o->value.cons.car) && keeps(o->value.cons.cdr);
	case duckVM_object_type_internalComposite: return keeps(o->value.internalComposite.value) && keeps(o->value.internalComposite.function);
#ifdef GC_CHILDREN
	GC_CHILDREN
#endif
	default: return 1;
	}
}
static void collect(void) {
	int k;
	u64 len = vm.stack.elements_length, ulen = vm.upvalue_stack.elements_length;
	for (k = 0; k < NH; k++) kill_h[k] = dead_h[k] ? 1 : nondet_u64() & 1;
	for (k = 0; k < NN; k++) kill_n[k] = k >= new_n || dead_n[k] ? 1 : nondet_u64() & 1;
	for (k = 0; k < NH; k++) ASSUME(!(kill_h[k] && ext_root[k]));
	for (k = 0; k < NFP; k++) {
		if (FP[k] < len) ASSUME(keeps_children(STK(FP[k])));
		if (FP[k] < ulen) ASSUME(keeps(*UPS(FP[k])));
	}
#ifdef GC_EXTRA_ROOTS
	GC_EXTRA_ROOTS
#endif
	for (k = 0; k < NH; k++) if (!kill_h[k]) ASSUME(keeps_children(heap_obj(k)));
	for (k = 0; k < NN; k++) if (!kill_n[k]) ASSUME(keeps_children(new_obj(k)));
	for (k = 0; k < NH; k++) if (kill_h[k] && !dead_h[k]) { heap_obj(k)->type = duckVM_object_type_none; dead_h[k] = 1; }
	for (k = 0; k < NN; k++) if (k < new_n && kill_n[k] && !dead_n[k]) { new_obj(k)->type = duckVM_object_type_none; dead_n[k] = 1; }
}
#else
static void collect(void) {}
#endif
static duckVM_object_t new_in0, new_in1;   /* what the first two allocations of the step were given */
dl_error_t c_gclist_pushObject(duckVM_t *v, duckVM_object_t **out, duckVM_object_t in) {
	duckVM_object_t *cell;
	(void) v;
	collect();
	CHECK("model: fresh-cell budget", new_n < NN);
	ASSUME(new_n < NN);
	cell = new_obj(new_n);
	if (new_n == 0) new_in0 = in;
	if (new_n == 1) new_in1 = in;
	new_n++;   /* also when the allocation fails: keeps the count a constant */
	if (nondet_u64() & 1) return nd_error();
	*cell = in;
	if (in.type == duckVM_object_type_upvalueArray) {
#ifdef UCOUNT
		/* the captured-variable list under construction: exactly the requested number of entries */
		ASSUME(in.value.upvalue_array.length == UCOUNT);
		{ u64 j; for (j = 0; j < UCOUNT; j++) ubuf[j] = nondet_objptr(); }
		if (UCOUNT > 0) cell->value.upvalue_array.upvalues = ubuf;
#else
		if (in.value.upvalue_array.length > 0) cell->value.upvalue_array.upvalues = malloc(in.value.upvalue_array.length * sizeof(objptr_t));
#endif
		else cell->value.upvalue_array.upvalues = dl_null;
	}
	else if (in.type == duckVM_object_type_internalVector) {
		if (in.value.internal_vector.length > 0) {
#ifdef BUILD
			/* own storage of the vector under construction: exactly the requested number of elements */
			objptr_t *nv = vbuf;
			{ u64 j; for (j = 0; j < BUILD; j++) vbuf[j] = nondet_objptr(); }
			ASSUME(in.value.internal_vector.length == BUILD);
#else
			objptr_t *nv = malloc(in.value.internal_vector.length * sizeof(objptr_t));
#endif
#ifdef VEC_FOOTPRINT
			if (in.value.internal_vector.initialized) {
				u64 j;
				for (j = 0; j < VEC_FOOTPRINT_N; j++) if (vec_fp[j] < in.value.internal_vector.length) nv[vec_fp[j]] = in.value.internal_vector.values[vec_fp[j]];
			}
#endif
			cell->value.internal_vector.values = nv;
		}
		else cell->value.internal_vector.values = dl_null;
	}
	else if (in.type == duckVM_object_type_internalString) {
		if (in.value.internalString.value_length > 0) {
			dl_uint8_t *nv = malloc(in.value.internalString.value_length);
#ifdef STR_FOOTPRINT
			{
				u64 j;
				for (j = 0; j < STR_FOOTPRINT_N; j++) if (str_fp[j] < in.value.internalString.value_length) nv[str_fp[j]] = in.value.internalString.value[str_fp[j]];
			}
#endif
			cell->value.internalString.value = nv;
		}
		else { cell->value.internalString.value = dl_null; cell->value.internalString.value_length = 0; }
	}
	else if (in.type == duckVM_object_type_bytecode) {
		if (in.value.bytecode.bytecode_length > 0) cell->value.bytecode.bytecode = malloc(in.value.bytecode.bytecode_length);
		else { cell->value.bytecode.bytecode = dl_null; cell->value.bytecode.bytecode_length = 0; }
	}
	*out = cell;
	return dl_error_ok;
}
