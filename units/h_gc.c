/* The collector.  Select with -DMARK, MARKALL, SWEEP, DELETE, COLLECT, DESTROY, NEW, ARRAYMARK, DICTMARK.
 *
 * Marking is proved edge by edge.  The contract of Tiny_ProtectFromGC(v), used at its own recursive calls:
 *   (a) afterwards the object of v is marked;          (b) no mark is cleared, no object is otherwise changed;
 *   (c) an object that becomes marked has all objects it refers to marked at the end;
 *   (d) only objects that can be reached from v become marked.
 * Each call on an unmarked object marks it before recursing, so the number of unmarked objects falls and the
 * recursion ends.  (c) holds for the body because every object field is passed on; (d) because nothing else is. */
#include "vc.h"
#ifdef TINY_VERIFY
#ifdef SWEEP
#define VC_LOOP_sweep(object) sweep_cut(&(object))
#endif
#ifdef DESTROY
#define VC_LOOP_destroy_objects(thread) destroy_cut()
#endif
#ifdef MARK
#define VC_LOOP_mark_fields(i) fields_cut(&(i))
static void fields_cut(int *i);
#endif
#ifdef MARKALL
#define VC_LOOP_mark_globals(i) index_cut(&(i))
#endif
#ifdef ARRAYMARK
#define VC_LOOP_mark_array(i) index_cut(&(i))
#endif
#ifdef DICTMARK
#define VC_LOOP_mark_dict(i) index_cut(&(i))
#endif
static void destroy_cut(void);
static void index_cut(int *i);
#include "detail.h"
static void sweep_cut(Tiny_Object ***object);
#endif
#include "all.h"
#if defined(ARRAYMARK) || defined(DICTMARK)
#include "array.c"
#include "dict.c"
#include "std.c"
#endif
#include "values.h"

static Tiny_StateThread TH;
static Tiny_State ST;
static bool is_object(Tiny_Value v) { return v.type == TINY_VAL_STRING || v.type == TINY_VAL_NATIVE || v.type == TINY_VAL_STRUCT; }
static void any_thread(Tiny_StateThread *t) {
    HAVOC(*t);
    t->fc = (int)in_range(0, TINY_THREAD_MAX_CALL_DEPTH);
    t->fp = (int)in_range(0, TINY_THREAD_STACK_SIZE);
    for (int i = 0; i < TINY_THREAD_MAX_CALL_DEPTH; i++) {
        t->frames[i].fp = (int)in_range(0, TINY_THREAD_STACK_SIZE);
        t->frames[i].nargs = (uint8_t)in_range(0, TINY_THREAD_STACK_SIZE);
    }
}
static int CALLS, FREES, FINALS, PROTECTS;
static void *ADDR;

#if defined(VC_NATIVE) || defined(SMALL)
#define NF 3
#else
#define NF 255
#endif

#ifdef MARK /* ------------------------------------------------------------------------------------------------- */
void VC_REAL_Tiny_ProtectFromGC(Tiny_Value value);
static Tiny_Object *OBJ, *OLD_NEXT;
static Tiny_Value V, FIELD;
static int N, K, KIND, AT = -1, CUT;
static bool SEEN, WAS;
static Tiny_NativeProp PROP;
#ifdef VC_NATIVE
#define VC_REAL_Tiny_ProtectFromGC Tiny_ProtectFromGC
#endif
void Protect_spec(Tiny_Value v) {
    CALLS++;
    CHECK("an object is marked before its references are followed", OBJ->marked && !WAS);
    CHECK("only structs are followed field by field", KIND == TINY_VAL_STRUCT);
#ifdef SMALL
    bool own = false;
    for (int i = 0; i < NF; i++) own = own || (i < N && same_bits(v, OBJ->ostruct.fields[i]));
#else
    bool own = AT >= 0 && same_bits(v, OBJ->ostruct.fields[AT]);
#endif
    CHECK("only the object's own fields are followed", own);
    if (same_bits(v, FIELD)) SEEN = true;
}
#define FIELDS_DONE(i) IMPLIES(K < (i) && is_object(FIELD), SEEN)
#ifdef TINY_VERIFY
static void fields_cut(int *i) {
    if (CUT++ == 0) {
        CHECK("invariant holds at the start", FIELDS_DONE(*i) && *i >= 0 && *i <= N && CALLS == 0);
        *i = (int)in_range(0, NF);
        ASSUME(*i < N);
        SEEN = in_bool();
        CALLS = (int)in_range(0, NF);
        ASSUME(FIELDS_DONE(*i));
        AT = *i;
    } else {
        CHECK("invariant is kept by the body", FIELDS_DONE(*i) && *i >= 0 && *i <= N);
        CHECK("the loop advances", *i > AT);
#ifdef STRUCTS
        REACH("loop");
#endif
        ASSUME(false);
    }
}
#endif
static void protect(void *addr) {
    PROTECTS++;
    CHECK("the native object's own address is passed on", addr == ADDR);
    CHECK("a native object is marked before its references are followed", OBJ->marked && !WAS);
}
#define CONTRACT_mark                                                                                               \
    REQUIRES(true)                                                                                                  \
    ENSURES("an object is marked afterwards", IMPLIES(is_object(V), OBJ->marked))                                   \
    ENSURES("other values are left alone", IMPLIES(!is_object(V), OBJ->marked == WAS && CALLS == 0 && PROTECTS == 0)) \
    ENSURES("a marked object is not followed again", IMPLIES(WAS, CALLS == 0 && PROTECTS == 0))                     \
    ENSURES("every object field is followed", IMPLIES(is_object(V) && !WAS && KIND == TINY_VAL_STRUCT && K < N && is_object(FIELD), FOLLOWED)) \
    ENSURES("a native object's references are followed once", IMPLIES(is_object(V) && !WAS && KIND == TINY_VAL_NATIVE, PROTECTS == (USES_PROP ? 1 : 0))) \
    ENSURES("the object is otherwise unchanged", OBJ->type == KIND && OBJ->next == OLD_NEXT && (KIND != TINY_VAL_STRUCT || (OBJ->ostruct.n == N && (K >= N || same_bits(OBJ->ostruct.fields[K], FIELD))))) \
    ENSURES("strings and natives are otherwise unchanged", KIND != TINY_VAL_NATIVE || (OBJ->nat.addr == ADDR && OBJ->nat.prop == (HAS_PROP ? &PROP : NULL)))
static bool HAS_PROP, USES_PROP;
#ifdef VC_NATIVE
#define FOLLOWED FIELD.obj->marked
#else
#define FOLLOWED SEEN
#endif
void harness(void) {
    N = (int)in_range(0, NF);
    K = (int)in_range(0, NF - 1);
#ifdef STRUCTS
    KIND = TINY_VAL_STRUCT;
#else
    KIND = in_bool() ? TINY_VAL_NATIVE : TINY_VAL_STRING;
#endif
    HAS_PROP = in_bool();
    USES_PROP = in_bool();
    OBJ = malloc(sizeof(Tiny_Object) + (KIND == TINY_VAL_STRUCT ? (size_t)N * sizeof(Tiny_Value) : 0));
    ADDR = malloc(1);
    SEEN = false;
#ifdef VC_NATIVE
    for (int i = 0; i < N && KIND == TINY_VAL_STRUCT; i++) {
        Tiny_Value f = in_value();
        if (is_object(f)) { f.type = TINY_VAL_STRING; f.obj = calloc(1, sizeof(Tiny_Object)); f.obj->type = TINY_VAL_STRING; }
        OBJ->ostruct.fields[i] = f;
    }
#endif
    OBJ->type = KIND;
    OBJ->marked = WAS = in_bool();
#ifdef VC_NATIVE
    OBJ->next = OLD_NEXT = NULL;
#else
    OBJ->next = OLD_NEXT = (Tiny_Object *)in_u64();
#endif
    if (KIND == TINY_VAL_STRUCT) { OBJ->ostruct.n = (Word)N; FIELD = mk_null(); if (K < N) FIELD = OBJ->ostruct.fields[K]; } else FIELD = mk_null();
    if (KIND == TINY_VAL_NATIVE) { USES_PROP = USES_PROP && HAS_PROP; PROP.protectFromGC = USES_PROP ? protect : NULL; OBJ->nat.addr = ADDR; OBJ->nat.prop = HAS_PROP ? &PROP : NULL; }
    if (in_bool()) { V.type = (uint8_t)KIND; V.obj = OBJ; }
    else { V = in_value(); ASSUME(!is_object(V)); }
    CALLS = PROTECTS = 0;
    REACH("pre");
    VC_ENFORCE_VOID(mark, VC_REAL_Tiny_ProtectFromGC(V));
    REACH("post");
}
#endif

#if defined(MARKALL) || defined(ARRAYMARK) || defined(DICTMARK) /* -------------------------------------------------- */
#ifdef SMALL
#define MAXN SMALL
#else
#define MAXN (1 << 20)
#endif
static int N, K, KS, CUT, AT = -1;
static Tiny_Value *ITEMS, *ITEMS2, ITEM, ITEM2, ONSTACK;
static bool SEEN, SEEN2, SEEN_STACK, SEEN_RET;
#ifdef DICTMARK
static Dict D;
#endif
#ifdef ARRAYMARK
static Array AR;
#endif
void Protect_spec(Tiny_Value v) {
    if (!is_object(v)) return;
    bool root = false;
#ifdef MARKALL
    root = same_bits(v, TH.retVal);
    if (root) SEEN_RET = true;
    for (int k = 0; k < TINY_THREAD_STACK_SIZE; k++) root = root || (k < TH.sp && same_bits(v, TH.stack[k]));
    if (same_bits(v, ONSTACK)) SEEN_STACK = true;
#endif
#ifdef SMALL
    for (int k = 0; k < SMALL; k++) root = root || (k < N && same_bits(v, ITEMS[k]));
#ifdef DICTMARK
    for (int k = 0; k < SMALL; k++) root = root || (k < N && same_bits(v, ITEMS2[k]));
#endif
#else
    root = root || (AT >= 0 && same_bits(v, ITEMS[AT]));
#ifdef DICTMARK
    root = root || (AT >= 0 && same_bits(v, ITEMS2[AT]));
#endif
#endif
    CHECK("only roots and elements are marked", root);
    if (same_bits(v, ITEM)) SEEN = true;
#ifdef DICTMARK
    if (same_bits(v, ITEM2)) SEEN2 = true;
#endif
}
/* invariant: items 0..i-1 have been passed on; seen at item K */
#define DONE(i) (IMPLIES(K < (i) && is_object(ITEM), SEEN) && IMPLIES(K < (i) && is_object(ITEM2) && ITEM.type != TINY_VAL_NULL, SEEN2))
static void index_cut(int *i) {
    if (CUT++ == 0) {
        CHECK("invariant holds at the start", DONE(*i) && *i >= 0 && *i <= N);
        *i = (int)in_range(0, MAXN);
        ASSUME(*i < N);
        SEEN = in_bool();
        SEEN2 = in_bool();
        ASSUME(DONE(*i));
        AT = *i;
    } else {
        CHECK("invariant is kept by the body", DONE(*i) && *i >= 0 && *i <= N);
        CHECK("the loop advances", *i > AT);
        REACH("loop");
        ASSUME(false);
    }
}
#ifdef DICTMARK
static Tiny_Value CELL;
Tiny_Value *Get_spec(Array *a, int64_t i) {
    CHECK("index inside the table", i >= 0 && i < N && (a == &D.keys || a == &D.values));
    return a == &D.keys ? &ITEMS[i] : &ITEMS2[i];
}
#endif
void harness(void) {
    N = (int)in_range(0, MAXN);
    K = (int)in_range(0, MAXN - 1);
    ITEM = ITEM2 = ONSTACK = mk_null();
    ITEMS = malloc(sizeof(Tiny_Value) * (N + 1));
    ITEMS2 = malloc(sizeof(Tiny_Value) * (N + 1));
    if (K < N) {
        ITEM = ITEMS[K] = in_value();
#ifdef DICTMARK
        ITEM2 = ITEMS2[K] = in_value();
#endif
    }
    SEEN = SEEN2 = SEEN_STACK = SEEN_RET = false;
    CUT = 0;
#ifdef MARKALL
    any_thread(&TH);
    HAVOC(ST);
    TH.state = &ST;
    for (int i = 0; i < TINY_THREAD_STACK_SIZE; i++) TH.stack[i] = in_value();
    TH.sp = (int)in_range(0, TINY_THREAD_STACK_SIZE);
    KS = (int)in_range(0, TINY_THREAD_STACK_SIZE - 1);
    if (KS < TH.sp) ONSTACK = TH.stack[KS];
    TH.retVal = in_value();
    ST.numGlobalVars = N;
    TH.globalVars = ITEMS;
    REACH("pre");
    MarkAll(&TH);
    CHECK("the return register is marked", IMPLIES(is_object(TH.retVal), SEEN_RET));
    CHECK("every stack cell is marked", IMPLIES(KS < TH.sp && is_object(ONSTACK), SEEN_STACK));
    CHECK("roots are unchanged", TH.globalVars == ITEMS && (K >= N || same_bits(ITEMS[K], ITEM)) && (KS >= TH.sp || same_bits(TH.stack[KS], ONSTACK)));
#elif defined(ARRAYMARK)
    AR.data = ITEMS;
    REACH("pre");
    ArrayMark(&AR);
    CHECK("the array is unchanged", AR.data == ITEMS && (K >= N || same_bits(ITEMS[K], ITEM)));
#else
    D.bucketCount = N;
    REACH("pre");
    DictProtectFromGC(&D);
    CHECK("the dictionary is unchanged", D.bucketCount == N && (K >= N || same_bits(ITEMS[K], ITEM)));
#endif
    CHECK("every item is marked", IMPLIES(K < N, DONE(N)) && (CUT != 0 || N == 0 || !HOOKED));
    REACH("post");
}
#ifdef ARRAYMARK
int Len_spec(Array *a) { return N; }
Tiny_Value *Get_spec(Array *a, int64_t i) {
    CHECK("index inside the array", i >= 0 && i < N && a == &AR);
    return &ITEMS[i];
}
#endif
#endif

#if (defined(SWEEP) || defined(DESTROY)) && !HOOKED /* without the loop cut: all lists of at most SMALL objects ------------ */
static Tiny_Object OB[SMALL];
static bool WAS_MARKED[SMALL], GONE[SMALL];
static int GLOBALS_FREED;
static Tiny_Value GLOB[1];
void Delete_spec(Tiny_Context *ctx, Tiny_Object *obj) {
    CHECK("the thread's context is used", ctx == &TH.ctx && GLOBALS_FREED == 0);
    FREES++;
    for (int i = 0; i < SMALL; i++) if (obj == &OB[i]) {
        CHECK("an object is released once", !GONE[i]);
#ifdef SWEEP
        CHECK("only unmarked objects are released", !WAS_MARKED[i]);
#endif
        GONE[i] = true;
        HAVOC(OB[i]);
        OB[i].next = &OB[i];
    }
}
static void *host(void *p, size_t n, void *u) {
    CHECK("only the globals are released here", p == GLOB && n == 0 && GLOBALS_FREED == 0);
    GLOBALS_FREED++;
    return NULL;
}
void harness(void) {
    int n = (int)in_range(0, SMALL), kept = 0;
    HAVOC(TH);
    TH.ctx = (Tiny_Context){host, NULL};
    TH.globalVars = GLOB;
    for (int i = 0; i < SMALL; i++) { HAVOC(OB[i]); OB[i].type = TINY_VAL_STRUCT; OB[i].ostruct.n = 0; OB[i].marked = WAS_MARKED[i] = in_bool(); OB[i].next = i + 1 < n ? &OB[i + 1] : NULL; }
    TH.gcHead = n ? &OB[0] : NULL;
    int num = (int)in_range(SMALL, 1 << 20);
    TH.numObjects = num;
    REACH("pre");
#ifdef SWEEP
    Sweep(&TH);
    Tiny_Object *at = TH.gcHead;
    for (int i = 0; i < SMALL; i++) if (i < n) {
        CHECK("exactly the unmarked objects are released", GONE[i] == !WAS_MARKED[i]);
        if (WAS_MARKED[i]) {
            CHECK("the marked objects stay on the list, their marks cleared", at == &OB[i] && !OB[i].marked);
            at = OB[i].next;
            kept++;
        }
    }
    CHECK("the list ends behind the last marked object", at == NULL);
    CHECK("the released objects are not counted", FREES == n - kept && TH.numObjects == num - (n - kept));
#else
    Tiny_DestroyThread(&TH);
    for (int i = 0; i < SMALL; i++) CHECK("all objects are released", GONE[i] == (i < n));
    CHECK("the globals are released", GLOBALS_FREED == 1 && FREES == n);
#endif
    REACH("post");
}
#elif defined(SWEEP) || defined(DESTROY) /* --------------------------------------------------------------------------- */
/* the object list: an arbitrary list, of which the loop sees one object C and what follows it */
static Tiny_Object PRED, C, NEXT;
static int CUT, NUM, AFTER;
static int KIND;
static char C_TEXT[2];
static Tiny_NativeProp C_PROP;
static bool C_MARKED, AT_HEAD, LAST, EMPTY;
static Tiny_Object **CELL;
void Delete_spec(Tiny_Context *ctx, Tiny_Object *obj) {
    CHECK("the current object is released, once", obj == &C && FREES == 0 && ctx == &TH.ctx);
#ifdef SWEEP
    CHECK("only unmarked objects are released", !C_MARKED);
#endif
    FREES++;
}
static Tiny_Object *next_object(void) { return LAST ? NULL : &NEXT; }
static int GLOBALS_FREED;
static Tiny_Value GLOB[1];
static void *host(void *p, size_t n, void *u) {
    CHECK("only the globals are released here", p == GLOB && n == 0 && GLOBALS_FREED == 0);
    GLOBALS_FREED++;
    return NULL;
}
#ifdef SWEEP
static void sweep_cut(Tiny_Object ***object) {
    if (CUT++ == 0) {
        CHECK("the sweep begins at the first object", *object == &TH.gcHead && TH.gcHead == &C && TH.numObjects == NUM && FREES == 0);
        /* an arbitrary iteration: all objects before *object survived with their marks cleared, nothing behind changed */
        if (!AT_HEAD) { PRED.next = &C; PRED.marked = false; TH.gcHead = &PRED; }
        *object = CELL = AT_HEAD ? &TH.gcHead : &PRED.next;
        NUM = TH.numObjects = (int)in_range(1, 1 << 30);
    } else {
        if (C_MARKED) {
            CHECK("a marked object survives with its mark cleared", FREES == 0 && !C.marked && C.next == next_object() && *CELL == &C);
            CHECK("the sweep goes on behind it", *object == &C.next && TH.numObjects == NUM);
        } else {
            CHECK("an unmarked object is released and unlinked", FREES == 1 && *CELL == next_object());
            CHECK("the sweep goes on in its place", *object == CELL && TH.numObjects == NUM - 1);
        }
        CHECK("the rest of the list is unchanged", NEXT.marked == AFTER && (AT_HEAD || (TH.gcHead == &PRED && !PRED.marked)));
        REACH("loop");
        ASSUME(false);
    }
}
#endif
#ifdef DESTROY
static void destroy_cut(void) {
    if (CUT++ == 0) {
        CHECK("nothing is released before", TH.gcHead == &C && FREES == 0 && GLOBALS_FREED == 0);
    } else {
        CHECK("the object is released and the list goes on behind it", FREES == 1 && TH.gcHead == &NEXT && GLOBALS_FREED == 0);
        REACH("loop");
        ASSUME(false);
    }
}
#endif
void harness(void) {
    C_MARKED = in_bool();
    AT_HEAD = in_bool();
    LAST = in_bool();
    EMPTY = in_bool();
    HAVOC(C);
    HAVOC(NEXT);
    HAVOC(PRED);
    HAVOC(TH);
    C.marked = C_MARKED;
    C.next = next_object();
    C.type = KIND = (int)in_range(0, 2) == 0 ? TINY_VAL_STRUCT : in_bool() ? TINY_VAL_NATIVE : TINY_VAL_STRING;
    if (KIND == TINY_VAL_STRING) { C.string.ptr = C_TEXT; C.string.len = 1; }
    if (KIND == TINY_VAL_NATIVE) { C.nat.addr = C_TEXT; C.nat.prop = in_bool() ? &C_PROP : NULL; }
    if (KIND == TINY_VAL_STRUCT) C.ostruct.n = 0;
    AFTER = in_bool();
    NEXT.marked = AFTER;
    NEXT.next = NULL;
    NUM = TH.numObjects = (int)in_range(0, 1 << 30);
    TH.gcHead = EMPTY ? NULL : &C;
    TH.ctx = (Tiny_Context){host, NULL};
    TH.globalVars = GLOB;
    REACH("pre");
#ifdef SWEEP
    Sweep(&TH);
    if (EMPTY) CHECK("an empty list stays empty", TH.gcHead == NULL && TH.numObjects == NUM && FREES == 0);
    else {
        CHECK("the sweep ends at the end of the list", LAST);
        CHECK("the last object is kept or released", C_MARKED ? FREES == 0 && *CELL == &C && !C.marked && C.next == NULL && TH.numObjects == NUM : FREES == 1 && *CELL == NULL && TH.numObjects == NUM - 1);
    }
#else
    Tiny_DestroyThread(&TH);
    CHECK("all objects are released", TH.gcHead == NULL && (EMPTY ? FREES == 0 : LAST && FREES == 1));
    CHECK("the globals are released", GLOBALS_FREED == 1);
#endif
    REACH("post");
}
#endif

#ifdef DELETE /* --------------------------------------------------------------------------------------------------- */
static Tiny_Object *OBJ;
static char *TEXT;
static int KIND, TEXT_FREES;
static bool EMBEDDED, HAS_PROP, HAS_FINAL;
static Tiny_NativeProp PROP;
static void *host(void *p, size_t n, void *u) {
    CHECK("released through the thread's context", n == 0 && u == (void *)&TH);
    if (p == OBJ) {
        CHECK("the object is released once, last", FREES == 0);
        FREES++;
    } else {
        CHECK("only the string's own text is released besides", p == TEXT && KIND == TINY_VAL_STRING && !EMBEDDED && TEXT_FREES == 0 && FREES == 0);
        TEXT_FREES++;
    }
    return NULL;
}
static void finalize(Tiny_Context *ctx, void *addr) {
    CHECK("the finalizer gets the thread's context and the object's address", ctx == &TH.ctx && addr == ADDR);
    CHECK("the finalizer runs before the object is released", FREES == 0);
    FINALS++;
}
static void protect(void *addr) { CHECK("nothing is protected while releasing", false); }
void harness(void) {
    OBJ = malloc(sizeof(Tiny_Object) + 8);
    HAVOC(TH);
    TH.ctx = (Tiny_Context){host, &TH};
    KIND = (int)in_range(0, 2) == 0 ? TINY_VAL_STRUCT : in_bool() ? TINY_VAL_NATIVE : TINY_VAL_STRING;
    OBJ->type = KIND;
    OBJ->marked = in_bool();
    EMBEDDED = in_bool();
    HAS_PROP = in_bool();
    HAS_FINAL = in_bool();
    ADDR = malloc(1);
    PROP.protectFromGC = protect;
    PROP.finalize = HAS_FINAL ? finalize : NULL;
    if (KIND == TINY_VAL_STRING) { OBJ->string.len = 3; OBJ->string.ptr = TEXT = EMBEDDED ? (char *)(OBJ + 1) : malloc(4); }
    if (KIND == TINY_VAL_NATIVE) { OBJ->nat.addr = ADDR; OBJ->nat.prop = HAS_PROP ? &PROP : NULL; }
    if (KIND == TINY_VAL_STRUCT) { OBJ->ostruct.n = 0; }
    REACH("pre");
    DeleteObject(&TH.ctx, OBJ);
    CHECK("the object is released", FREES == 1);
    CHECK("a separate text is released", TEXT_FREES == (KIND == TINY_VAL_STRING && !EMBEDDED));
    CHECK("the finalizer runs exactly once", FINALS == (KIND == TINY_VAL_NATIVE && HAS_PROP && HAS_FINAL));
    REACH("post");
}
#endif

#ifdef COLLECT /* -------------------------------------------------------------------------------------------------- */
static int STAGE, LIVE;
void MarkAll_spec(Tiny_StateThread *t) { CHECK("marking comes first", STAGE == 0 && t == &TH); STAGE = 1; }
void Sweep_spec(Tiny_StateThread *t) {
    CHECK("sweeping comes after marking", STAGE == 1 && t == &TH);
    STAGE = 2;
#ifndef VC_NATIVE
    TH.numObjects = LIVE;
#endif
}
void harness(void) {
    HAVOC(TH);
    LIVE = (int)in_range(0, 1 << 20);
    TH.numObjects = (int)in_range(0, 1 << 20);
    int before = TH.numObjects;
    ASSUME(LIVE <= before);
    STAGE = 0;
    REACH("pre");
    GarbageCollect(&TH);
    CHECK("a collection marks and sweeps once", STAGE == 2);
    CHECK("the number of live objects is kept", TH.numObjects == LIVE);
    CHECK("the next collection waits for more objects than are live", TH.maxNumObjects >= LIVE);
    REACH("post");
}
#endif

#ifdef NEW /* ------------------------------------------------------------------------------------------------------ */
static Tiny_Object *OLD_HEAD;
static int NUM, MADE, LEN_, G;
static void *BLOCK;
static size_t SIZE;
static char *TEXT;
static Tiny_NativeProp PROP;
static void *host(void *p, size_t n, void *u) {
    CHECK("one new block is requested", p == NULL && MADE == 0 && n >= sizeof(Tiny_Object));
    MADE++;
    SIZE = n;
    return BLOCK = malloc(n);
}
void GarbageCollect_spec(Tiny_StateThread *t) { CHECK("creating an object starts no collection", false); }
void harness(void) {
    int kind = (int)in_range(0, 2);
    HAVOC(TH);
    HAVOC(ST);
    HAVOC(PROP);
    TH.ctx = (Tiny_Context){host, NULL};
    TH.state = &ST;
    OLD_HEAD = TH.gcHead = in_bool() ? malloc(sizeof(Tiny_Object)) : NULL;
    NUM = TH.numObjects = (int)in_range(0, 1 << 20);
    TH.maxNumObjects = (int)in_range(0, 1 << 20);
    TH.pc = (int)in_range(0, 1 << 20);
    LEN_ = (int)in_range(0, 1 << 20);
    G = (int)in_range(0, 1 << 20);
    TEXT = malloc((size_t)LEN_ + 1);
    char c = (char)in_u64();
    if (G < LEN_) TEXT[G] = c;
    ADDR = malloc(1);
    Tiny_Value v;
    REACH("pre");
    if (kind == 0) {
        v = Tiny_NewNative(&TH, ADDR, &PROP);
        CHECK("a native object holds its address and properties", v.type == TINY_VAL_NATIVE && v.obj->nat.addr == ADDR && v.obj->nat.prop == &PROP);
    } else if (kind == 1) {
        v = Tiny_NewString(&TH, TEXT, LEN_);
        CHECK("a string takes over its text", v.type == TINY_VAL_STRING && v.obj->string.ptr == TEXT && v.obj->string.len == (size_t)LEN_);
    } else {
        v = Tiny_NewStringCopy(&TH, TEXT, LEN_);
        CHECK("a copied string has its own text", v.type == TINY_VAL_STRING && v.obj->string.len == (size_t)LEN_ && v.obj->string.ptr == (char *)(v.obj + 1) && SIZE >= sizeof(Tiny_Object) + (size_t)LEN_ + 1);
#ifdef VC_NATIVE
        CHECK("the copy has the same bytes and a terminator", (G >= LEN_ || v.obj->string.ptr[G] == c) && v.obj->string.ptr[LEN_] == 0);
#endif
    }
    CHECK("the new object is the block obtained", v.obj == BLOCK && v.obj->type == v.type && MADE == 1);
    CHECK("the new object is on the list, unmarked and counted", TH.gcHead == BLOCK && v.obj->next == OLD_HEAD && !v.obj->marked && TH.numObjects == NUM + 1);
    REACH("post");
}
#endif
