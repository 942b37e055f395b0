// Instantiates the macros and static inline functions of the real headers, and exports layout constants.
#include <stddef.h>
#define CORA_PROBE 1
#include "types.h"
#include "runtime.h"

#define K(name, v) extern const long OFF_##name; const long OFF_##name = (long)(v)
K(OBJ_MASK, OBJ_MASK);
K(TAG_IMMED, TAG_IMMED); K(TAG_COBJ, TAG_COBJ); K(TAG_SYMBOL, TAG_SYMBOL); K(TAG_BYTES, TAG_BYTES);
K(TAG_CONS, TAG_CONS); K(TAG_NATIVE, TAG_NATIVE); K(TAG_PTR, TAG_PTR);
K(HEAD_symbol, scmHeadSymbol); K(HEAD_cons, scmHeadCons); K(HEAD_bytes, scmHeadBytes); K(HEAD_vector, scmHeadVector);
K(HEAD_cont, scmHeadContinuation); K(HEAD_native, scmHeadNative); K(HEAD_unused, scmHeadUnused); K(HEAD_max, scmHeadMax);
K(head_size, offsetof(scmHead, size)); K(head_type, offsetof(scmHead, type)); K(head_version, offsetof(scmHead, version));
K(sizeof_head, sizeof(scmHead));
K(headex_rset, offsetof(scmHeadEx, rset)); K(headex_inRSet, offsetof(scmHeadEx, inRSet)); K(sizeof_headex, sizeof(scmHeadEx));
K(cons_car, offsetof(struct scmCons, car)); K(cons_cdr, offsetof(struct scmCons, cdr)); K(sizeof_cons, sizeof(struct scmCons));
K(bytes_len, offsetof(struct scmBytes, len)); K(bytes_data, offsetof(struct scmBytes, data)); K(sizeof_bytes, sizeof(struct scmBytes));
K(native_required, offsetof(struct scmNative, required)); K(native_nframe, offsetof(struct scmNative, nframe));
K(native_fn, offsetof(struct scmNative, fn)); K(native_captured, offsetof(struct scmNative, captured));
K(native_data, offsetof(struct scmNative, data)); K(sizeof_native, sizeof(struct scmNative));
K(vector_size, offsetof(struct scmVector, size)); K(vector_cap, offsetof(struct scmVector, cap));
K(vector_data, offsetof(struct scmVector, data)); K(sizeof_vector, sizeof(struct scmVector));
K(symbol_value, offsetof(struct scmSymbol, value)); K(sizeof_symbol, sizeof(struct scmSymbol));
K(cora_ctx, offsetof(Cora, ctx)); K(cora_callstack, offsetof(Cora, callstack)); K(cora_stk, offsetof(Cora, stk));
K(cora_res, offsetof(Cora, res)); K(cora_env, offsetof(Cora, env)); K(cora_globals, offsetof(Cora, globals));
K(cora_pkgs, offsetof(Cora, pkgs)); K(cora_trystack, offsetof(Cora, trystack)); K(cora_gc, offsetof(Cora, gc));
K(sizeof_cora, sizeof(Cora));
K(frame_fn, offsetof(Frame, fn)); K(frame_label, offsetof(Frame, label)); K(frame_bp, offsetof(Frame, bp));
K(frame_sp, offsetof(Frame, sp)); K(sizeof_frame, sizeof(Frame));
K(stk_begin, offsetof(struct segmentStack, begin)); K(stk_end, offsetof(struct segmentStack, end));
K(stk_data, offsetof(struct segmentStack, data));
K(vec_data, offsetof(Vector, data)); K(vec_len, offsetof(Vector, len)); K(vec_cap, offsetof(Vector, cap));
K(sizeof_vec, sizeof(Vector));
K(bind_name, offsetof(Binding, name)); K(bind_idx, offsetof(Binding, idx)); K(sizeof_bind, sizeof(Binding));
K(trie_child, offsetof(HashTrie, child)); K(trie_keySize, offsetof(HashTrie, keySize)); K(trie_data, offsetof(HashTrie, data));
K(sizeof_trie, sizeof(HashTrie));
K(map_root, offsetof(Map, root)); K(map_hash, offsetof(Map, hash_func)); K(map_eq, offsetof(Map, eq_func));
K(trymark_cs, offsetof(struct tryMark, callstackPos)); K(trymark_ss, offsetof(struct tryMark, segmentStackPos));
K(sizeof_trymark, sizeof(struct tryMark));

Obj p_True(void) { return True; }
Obj p_False(void) { return False; }
Obj p_Nil(void) { return Nil; }
Obj p_Undef(void) { return Undef; }

Obj p_makeNumber(int64_t v) { return makeNumber(v); }
int64_t p_fixnum(Obj o) { return fixnum(o); }
bool p_isfixnum(Obj o) { return isfixnum(o); }
bool p_isNumber(Obj o) { return isNumber(o); }
bool p_iscobj(Obj o) { return iscobj(o); }
bool p_issymbol(Obj o) { return issymbol(o); }
bool p_isBytes(Obj o) { return isBytes(o); }
bool p_iscons(Obj o) { return iscons(o); }
bool p_isboolean(Obj o) { return isboolean(o); }
bool p_isScmHead(Obj o) { return isScmHead(o); }
Obj p_makeNaNPtr(void *p, uint8_t t) { return makeNaNPtr(p, t); }
void *p_ptr(Obj o) { return ptr(o); }
int p_tag(Obj o) { return tag(o); }

Obj p_PRIM_ADD(Obj x, Obj y) { return PRIM_ADD(x, y); }
Obj p_PRIM_SUB(Obj x, Obj y) { return PRIM_SUB(x, y); }
Obj p_PRIM_MUL(Obj x, Obj y) { return PRIM_MUL(x, y); }
Obj p_PRIM_GT(Obj x, Obj y) { return PRIM_GT(x, y); }
Obj p_PRIM_LT(Obj x, Obj y) { return PRIM_LT(x, y); }
Obj p_PRIM_EQ(Obj x, Obj y) { return PRIM_EQ(x, y); }
Obj p_PRIM_CAR(Obj x) { return PRIM_CAR(x); }
Obj p_PRIM_CDR(Obj x) { return PRIM_CDR(x); }
Obj p_PRIM_ISCONS(Obj x) { return PRIM_ISCONS(x); }
Obj p_car(Obj x) { return car(x); }
Obj p_cdr(Obj x) { return cdr(x); }
Obj p_closureRef(Obj x, int i) { return closureRef(x, i); }

// growable array instantiated at the element types the runtime uses
typedef vector(Obj) VObj;
typedef vector(Frame) VFrame;
typedef vector(struct tryMark) VMark;
void p_vec_init(VObj *v, int n) { vecInit(v, n); }
void p_vec_append(VObj *v, Obj x) { vecAppend(v, x); }
Obj p_vec_get(VObj *v, int i) { return vecGet(v, i); }
Obj *p_vec_ref(VObj *v, int i) { return vecRef(v, i); }
void p_vec_set(VObj *v, int i, Obj x) { vecSet(v, i, x); }
Obj p_vec_pop(VObj *v) { return vecPop(v); }
int p_vec_len(VObj *v) { return vecLen(v); }
void p_vec_free(VObj *v) { vecFree(v); }
void p_vecf_append(VFrame *v, Frame *x) { vecAppend(v, *x); }
void p_vecf_get(VFrame *v, int i, Frame *out) { *out = vecGet(v, i); }
void p_vecf_pop(VFrame *v, Frame *out) { *out = vecPop(v); }
void p_vecm_append(VMark *v, struct tryMark *x) { vecAppend(v, *x); }
void p_vecm_pop(VMark *v, struct tryMark *out) { *out = vecPop(v); }

void *p_map_get(Map *m, void *key) { return _map_get(m, key); }
void *p_map_set(Map *m, void *key, void *val, int ks, int vs) { return _map_set(m, key, val, ks, vs); }
void p_map_init(Map *m, uint64_t (*h)(void *), bool (*e)(void *, void *)) { _map_init(m, h, e); }
uint64_t p_fnv(void *d, size_t n) { return fnv1a64(d, n); }

Obj *p_stackAlloc(Cora *co, int n) { return stackAlloc(co, n); }
void p_saveCont(Cora *co, basicBlock fn, int label, Obj *bp) { saveCont(co, fn, label, bp); }
void p_coraCall0(Cora *co, Obj fn) { coraCall0(co, fn); }
void p_coraCall1(Cora *co, Obj fn, Obj a) { coraCall1(co, fn, a); }
void p_coraCall2(Cora *co, Obj fn, Obj a, Obj b) { coraCall2(co, fn, a, b); }
void p_coraCall3(Cora *co, Obj fn, Obj a, Obj b, Obj c) { coraCall3(co, fn, a, b, c); }
void p_coraCall4(Cora *co, Obj fn, Obj a, Obj b, Obj c, Obj d) { coraCall4(co, fn, a, b, c, d); }
void p_coraReturn(Cora *co, Obj v) { coraReturn(co, v); }
Obj p_globalRef(Cora *co, Binding *b) { return globalRef(co, *b); }
void p_globalSet(Cora *co, Binding *b, Obj v) { globalSet(co, *b, v); }
