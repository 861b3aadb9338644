/* The container functions of the standard library (std.c): one call with arbitrary arguments of its declared types.
 * The containers themselves enter through the contracts of array.c (P09) and dict.c (P08): here, each library function
 * must be the operation it is named after, on the container and with the values it is given.
 * Select with -DARRAY, CREATE, SORT, COMPARE, DICT, DICTCREATE, KEYS, VALUES, NUMBERS, APPENDS, MACRO. */
#include "vc.h"
#ifdef VC_NATIVE
#undef HOOKED
#define HOOKED 0
#endif
#ifndef HOOKED
#define HOOKED 0
#endif
#if defined(TINY_VERIFY) && HOOKED
#ifdef DICTCREATE
#define VC_LOOP_dict_create(i) loop_cut(&(i))
#endif
#if defined(KEYS) || defined(VALUES)
#define VC_LOOP_dict_keys(i) loop_cut(&(i))
#define VC_LOOP_dict_values(i) loop_cut(&(i))
#endif
static void loop_cut(int *i);
#endif
#include "all_flat.h"
#include "array.c"
#include "dict.c"
#include "std.c"
#include "values.h"

static Tiny_State ST;
static Tiny_StateThread TH;
static bool MAY_STOP;
static void stopped(void) {
    CHECK("only arguments out of range stop the program", MAY_STOP);
#ifdef VC_NATIVE
    _exit(0);
#else
    ASSUME(false);
#endif
}
void vc_assert_fail(const char *a, const char *f, unsigned l, const char *fn) { stopped(); }
void exit_spec(int c) { stopped(); }
static Tiny_Object NAT;
static Tiny_Value native(void *p) { NAT.type = TINY_VAL_NATIVE; NAT.nat.addr = p; Tiny_Value v; v.type = TINY_VAL_NATIVE; v.obj = &NAT; return v; }

#ifndef VC_NATIVE /* ------------------------------------------------------------------------------------- contracts */
static Array AR;
static Dict DI;
static Array *MADE_AR;
static Dict *MADE_DI;
static int ALLOCS, CALLS, OP, DONE;
static const void *ON;
static int64_t IDX;
static Tiny_Value VAL, VAL2, CELL, PUSHED;
static int LEN;
enum { NONE, O_LEN, O_CLEAR, O_RESIZE, O_PUSH, O_GET, O_SET, O_POP, O_SHIFT, O_REMOVE, O_INSERT, O_INIT, O_NATIVE, D_SET, D_GET, D_REMOVE, D_CLEAR, D_INIT, O_QSORT };
static void did(int op, const void *on) { CALLS++; DONE = op; ON = on; }
static void *host(void *p, size_t n, void *u) {
    CHECK("one container is allocated from the thread's context", !p && ALLOCS++ == 0 && u == (void *)&ST);
#if defined(DICTCREATE)
    CHECK("room for the container", n >= sizeof(Dict));
    return MADE_DI = malloc(n);
#else
    CHECK("room for the container", n >= sizeof(Array));
    return MADE_AR = malloc(n);
#endif
}
int Len_spec(Array *a) { did(O_LEN, a); return LEN; }
void Clear_spec(Array *a) { did(O_CLEAR, a); }
void Resize_spec(Array *a, int n, Tiny_Value v) { did(O_RESIZE, a); IDX = n; PUSHED = v; }
void Push_spec(Array *a, Tiny_Value v) { did(O_PUSH, a); PUSHED = v; }
void Pop_spec(Array *a, Tiny_Value *v) { did(O_POP, a); *v = CELL; }
void Shift_spec(Array *a, Tiny_Value *v) { did(O_SHIFT, a); *v = CELL; }
void Insert_spec(Array *a, int64_t i, Tiny_Value v) { did(O_INSERT, a); IDX = i; PUSHED = v; }
void Remove_spec(Array *a, int64_t i) { did(O_REMOVE, a); IDX = i; }
void Set_spec(Array *a, int64_t i, Tiny_Value v) { did(O_SET, a); IDX = i; PUSHED = v; }
#if !defined(KEYS) && !defined(VALUES)
Tiny_Value *Get_spec(Array *a, int64_t i) { did(O_GET, a); IDX = i; return &CELL; }
#endif
static bool same_context(Tiny_Context c) { return c.alloc == host && c.userdata == (void *)&ST; }
static Tiny_Value SRC[3], DST[3];
static bool INITED;
void InitEx_spec(Array *a, Tiny_Context c, int n, const Tiny_Value *v) { did(O_INIT, a); CHECK("the array gets the thread's context", same_context(c)); IDX = n; CHECK("the array gets the values given", v == SRC); for (int i = 0; i < 3; i++) if (i < n) DST[i] = v[i]; a->data = DST; }
void Init_spec(Array *a, Tiny_Context c) { CHECK("the array gets the thread's context", same_context(c) && a == MADE_AR && !INITED); INITED = true; }
static const Tiny_NativeProp *PROP;
static Tiny_Object RES;
Tiny_Value Native_spec(Tiny_StateThread *t, void *p, const Tiny_NativeProp *pr) {
    CHECK("the container made is the result", t == &TH && p == (MADE_AR ? (void *)MADE_AR : (void *)MADE_DI) && p);
    PROP = pr;
    Tiny_Value v; v.type = TINY_VAL_NATIVE; v.obj = &RES; return v;
}
static bool HAS;
#ifndef DICTCREATE
void DSet_spec(Dict *d, Tiny_Value k, Tiny_Value v) { did(D_SET, d); VAL = k; PUSHED = v; }
#endif
const Tiny_Value *DGet_spec(Dict *d, Tiny_Value k) { did(D_GET, d); VAL = k; return HAS ? &CELL : NULL; }
void DRemove_spec(Dict *d, Tiny_Value k) { did(D_REMOVE, d); VAL = k; }
void DClear_spec(Dict *d) { did(D_CLEAR, d); }
void DInit_spec(Dict *d, Tiny_Context c) { CHECK("the dictionary gets the thread's context", same_context(c) && d == MADE_DI && !INITED); INITED = true; }
void qsort_spec(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
    did(O_QSORT, &AR);
    CHECK("all elements are sorted, and no more", base == (void *)AR.data && n == (size_t)LEN && size == sizeof(Tiny_Value));
    CHECK("they are sorted as integers", cmp == CompareInts);
}
static int CUT, I0, N;
#endif

#if defined(ARRAY) && !defined(VC_NATIVE)
#define ONLY(op) (CALLS == 1 && DONE == (op) && ON == &AR)
void harness(void) {
    TH.ctx = ST.ctx = (Tiny_Context){host, &ST};
    TH.state = &ST;
    CELL = in_value();
    LEN = (int)in_range(0, INT32_MAX);
    int64_t i = (int64_t)in_u64();
    Tiny_Value v = in_value(), r, a[3];
    a[0] = native(&AR);
    a[1] = mk_int(i);
    a[2] = v;
    REACH("pre");
    switch (OP = (int)in_range(O_LEN, O_INSERT)) {
        case O_LEN: r = Lib_ArrayLen(&TH, a, 1); CHECK("the length", ONLY(O_LEN) && is_int(r, (uint64_t)LEN)); break;
        case O_CLEAR: r = Lib_ArrayClear(&TH, a, 1); CHECK("the array is cleared", ONLY(O_CLEAR) && r.type == TINY_VAL_NULL); break;
        case O_RESIZE:
            MAY_STOP = i < 0 || i > INT32_MAX;
            bool fill = in_bool();
            r = fill ? Lib_ArrayResizeFill(&TH, a, 3) : Lib_ArrayResize(&TH, a, 2);
            CHECK("the array is resized to the length given", ONLY(O_RESIZE) && IDX == i && r.type == TINY_VAL_NULL);
            CHECK("new elements have the value given, or null", fill ? same_bits(PUSHED, v) : PUSHED.type == TINY_VAL_NULL);
            break;
        case O_PUSH: a[1] = v; r = Lib_ArrayPush(&TH, a, 2); CHECK("the value is appended", ONLY(O_PUSH) && same_bits(PUSHED, v) && r.type == TINY_VAL_NULL); break;
        case O_GET: r = Lib_ArrayGet(&TH, a, 2); CHECK("the element at the index", ONLY(O_GET) && IDX == i && same_bits(r, CELL)); break;
        case O_SET: r = Lib_ArraySet(&TH, a, 3); CHECK("the element at the index is replaced", ONLY(O_SET) && IDX == i && same_bits(PUSHED, v) && r.type == TINY_VAL_NULL); break;
        case O_POP: r = Lib_ArrayPop(&TH, a, 1); CHECK("the last element", ONLY(O_POP) && same_bits(r, CELL)); break;
        case O_SHIFT: r = Lib_ArrayShift(&TH, a, 1); CHECK("the first element", ONLY(O_SHIFT) && same_bits(r, CELL)); break;
        case O_REMOVE: r = Lib_ArrayRemove(&TH, a, 2); CHECK("the element at the index is removed", ONLY(O_REMOVE) && IDX == i && r.type == TINY_VAL_NULL); break;
        default: r = Lib_ArrayInsert(&TH, a, 3); CHECK("the value is inserted at the index", ONLY(O_INSERT) && IDX == i && same_bits(PUSHED, v) && r.type == TINY_VAL_NULL); break;
    }
    REACH("post");
}
#endif
#if defined(CREATE) && !defined(VC_NATIVE)
void harness(void) {
    TH.ctx = ST.ctx = (Tiny_Context){host, &ST};
    TH.state = &ST;
    for (int i = 0; i < 3; i++) SRC[i] = in_value();
    int n = (int)in_range(0, 3);
    bool prim = in_bool();
    REACH("pre");
    Tiny_Value r = prim ? CreatePrimitiveArray(&TH, SRC, n) : CreateArray(&TH, SRC, n);
    CHECK("an array of the values given", CALLS == 1 && DONE == O_INIT && ON == MADE_AR && IDX == n && r.type == TINY_VAL_NATIVE && r.obj == &RES);
    for (int i = 0; i < 3; i++) if (i < n) CHECK("its elements are the values given", same_bits(DST[i], SRC[i]));
    CHECK("only elements that cannot be objects go unmarked", PROP == (prim ? &PrimitiveArrayProp : &ArrayProp));
    REACH("post");
}
#endif
#if defined(SORT) && !defined(VC_NATIVE)
void harness(void) {
    LEN = (int)in_range(0, INT32_MAX);
    AR.data = DST;
    Tiny_Value a = native(&AR);
    REACH("pre");
    Lib_ArraySortInt(&TH, &a, 1);
    CHECK("the array is sorted once", DONE == O_QSORT && CALLS <= 3);
    REACH("post");
}
#endif
#if defined(COMPARE) && !defined(VC_NATIVE)
void harness(void) {
    Tiny_Value a = mk_int((int64_t)in_u64()), b = mk_int((int64_t)in_u64()), x = a, y = b;
    REACH("pre");
    int c = CompareInts(&a, &b);
    CHECK("integers are ordered by value", (c < 0) == (a.i < b.i) && (c > 0) == (a.i > b.i));
    CHECK("comparing changes nothing", same_bits(a, x) && same_bits(b, y));
    REACH("post");
}
#endif
#if defined(DICT) && !defined(VC_NATIVE)
#define ONLYD(op) (CALLS == 1 && DONE == (op) && ON == &DI)
void harness(void) {
    TH.ctx = ST.ctx = (Tiny_Context){host, &ST};
    TH.state = &ST;
    CELL = in_value();
    HAS = in_bool();
    Tiny_Value k = in_value(), v = in_value(), r, a[3];
    a[0] = native(&DI);
    a[1] = k;
    a[2] = v;
    REACH("pre");
    switch (in_range(0, 4)) {
        case 0: r = Lib_DictPut(&TH, a, 3); CHECK("the key gets the value", ONLYD(D_SET) && same_bits(VAL, k) && same_bits(PUSHED, v) && r.type == TINY_VAL_NULL); break;
        case 1: r = Lib_DictExists(&TH, a, 2); CHECK("whether the key is there", ONLYD(D_GET) && same_bits(VAL, k) && is_bool(r, HAS)); break;
        case 2: r = Lib_DictGet(&TH, a, 2); CHECK("the key's value, or null", ONLYD(D_GET) && same_bits(VAL, k) && (HAS ? same_bits(r, CELL) : r.type == TINY_VAL_NULL)); break;
        case 3: r = Lib_DictRemove(&TH, a, 2); CHECK("the key is removed", ONLYD(D_REMOVE) && same_bits(VAL, k) && r.type == TINY_VAL_NULL); break;
        default: r = Lib_DictClear(&TH, a, 1); CHECK("the dictionary is cleared", ONLYD(D_CLEAR) && r.type == TINY_VAL_NULL);
    }
    REACH("post");
}
#endif
#if defined(DICTCREATE) && !defined(VC_NATIVE)
static Tiny_Value *ARGS;
void DSet_spec(Dict *d, Tiny_Value k, Tiny_Value v) {
    CHECK("each argument is put once, with the one behind it", d == MADE_DI && CALLS++ == 0 && I0 < N && same_bits(k, ARGS[I0]) && same_bits(v, ARGS[I0 + 1]));
}
static void loop_cut(int *i) {
    if (CUT++ == 0) {
        CHECK("pairs are put from the first", *i == 0 && CALLS == 0 && INITED);
        *i = I0 = (int)in_range(0, N - 2);
        ASSUME(I0 % 2 == 0);
        ARGS[I0] = in_value();
        ARGS[I0 + 1] = in_value();
    } else {
        CHECK("the next pair", *i == I0 + 2 && CALLS == 1 && *i < N);
        REACH("loop");
        ASSUME(false);
    }
}
void harness(void) {
    TH.ctx = ST.ctx = (Tiny_Context){host, &ST};
    TH.state = &ST;
    N = (int)in_range(0, 255);
    ARGS = malloc(sizeof(Tiny_Value) * (size_t)(N + 1));
    MAY_STOP = N % 2 != 0;
    REACH("pre");
    Tiny_Value r = CreateDict(&TH, ARGS, N);
    CHECK("only whole pairs make a dictionary", N % 2 == 0);
    CHECK("every pair is put", N == 0 ? CALLS == 0 && INITED : I0 == N - 2 && CALLS == 1);
    CHECK("the dictionary is the result", r.type == TINY_VAL_NATIVE && r.obj == &RES && PROP == &DictProp);
    REACH("post");
}
#endif
#if (defined(KEYS) || defined(VALUES)) && !defined(VC_NATIVE)
static Tiny_Value K, V;
Tiny_Value *Get_spec(Array *a, int64_t i) {
    CHECK("only the dictionary's slots are read", i >= 0 && i < N && (a == &DI.keys || a == &DI.values));
    CHECK("each slot is looked at in turn", i == I0);
    return a == &DI.keys ? &K : &V;
}
static bool slot_done(void) {
#ifdef KEYS
    return K.type == TINY_VAL_NULL ? CALLS == 0 : CALLS == 1 && DONE == O_PUSH && ON == MADE_AR && same_bits(PUSHED, K);
#else
    return K.type == TINY_VAL_NULL ? CALLS == 0 : CALLS == 1 && DONE == O_PUSH && ON == MADE_AR && same_bits(PUSHED, V);
#endif
}
static void loop_cut(int *i) {
    if (CUT++ == 0) {
        CHECK("slots are looked at from the first", *i == 0 && CALLS == 0 && INITED);
        *i = I0 = (int)in_range(0, N - 1);
    } else {
        CHECK("a used slot is listed once", *i == I0 + 1 && *i < N && slot_done());
        REACH("loop");
        ASSUME(false);
    }
}
void harness(void) {
    TH.ctx = ST.ctx = (Tiny_Context){host, &ST};
    TH.state = &ST;
    N = (int)in_range(0, 1 << 30);
    HAVOC(DI);
    DI.bucketCount = N;
    K = in_value();
    V = in_value();
    Tiny_Value a = native(&DI);
    REACH("pre");
#ifdef KEYS
    Tiny_Value r = Lib_DictKeys(&TH, &a, 1);
#else
    Tiny_Value r = Lib_DictValues(&TH, &a, 1);
#endif
    CHECK("every slot is looked at", N == 0 ? CALLS == 0 && INITED : I0 == N - 1 && slot_done());
    CHECK("the list is the result, and its elements are marked", r.type == TINY_VAL_NATIVE && r.obj == &RES && PROP == &ArrayProp);
    REACH("post");
}
#endif
#if defined(NUMBERS) && !defined(VC_NATIVE)
static double FL, CE, X;
double floor_spec(double x) { CHECK("the argument is rounded", x == X || x != x); return FL; }
double ceil_spec(double x) { CHECK("the argument is rounded", x == X || x != x); return CE; }
void harness(void) {
    X = in_f64(); FL = in_f64(); CE = in_f64();
    Tiny_Value a = mk_float(X), r;
    REACH("pre");
    r = Lib_Floor(&TH, &a, 1);
    CHECK("rounded down", is_float(r, FL));
    r = Lib_Ceil(&TH, &a, 1);
    CHECK("rounded up", is_float(r, CE));
    int64_t i = (int64_t)in_u64();
    a = mk_int(i);
    r = Lib_IntToI64(&TH, &a, 1);
    CHECK("all bits of an integer are kept", r.type == TINY_VAL_LIGHT_NATIVE && (int64_t)(intptr_t)r.addr == i);
    REACH("post");
}
#endif
#if defined(APPENDS) && !defined(VC_NATIVE)
static char *BUF;
static size_t SIZE;
static int USED, PRINTED;
int vsnprintf_spec(char *b, size_t n, const char *f, va_list ap) {
    size_t start = (size_t)USED < SIZE ? (size_t)USED : SIZE;
    CHECK("text is only written behind the text so far, within the buffer", b == BUF + start && n == SIZE - start && f[0] == 'x');
    if (n) b[in_range(0, (int64_t)n - 1)] = 0;
    return PRINTED;
}
void harness(void) {
    SIZE = (size_t)in_range(1, 1 << 20);
    BUF = malloc(SIZE);
    USED = (int)in_range(0, 1 << 29);
    PRINTED = (int)in_range(0, 1 << 29);
    int used = USED;
    REACH("pre");
    AppendFormat(BUF, SIZE, &used, "x%d", 1);
    CHECK("all text counts as used, whether it fits or not", used == USED + PRINTED);
    REACH("post");
}
#endif
#if defined(MACRO) && !defined(VC_NATIVE)
static struct { char c[2]; } AS, EL;
static Tiny_Symbol ELEM, OLD;
static bool EXISTS, KNOWN, NEWTYPE;
static const char *FMT;
static const char *SIG;
static int BOUND[24];
static bool eq(const char *a, const char *b) { int i = 0; for (; i < 48 && a[i] && a[i] == b[i]; i++); return a[i] == b[i]; }
const Tiny_Symbol *Find_spec(Tiny_State *s, const char *n) {
    CHECK("the types named are looked up", s == &ST && (n == AS.c || n == EL.c));
    return n == AS.c ? (EXISTS ? &OLD : NULL) : KNOWN ? &ELEM : NULL;
}
void Register_spec(Tiny_State *s, const char *n) { CHECK("a new type of that name", s == &ST && n == AS.c && !NEWTYPE && !EXISTS && KNOWN); NEWTYPE = true; }
int snprintf_spec(char *b, size_t n, const char *f, ...) {
    CHECK("signatures are printed within their buffer", n <= __CPROVER_OBJECT_SIZE(b) - __CPROVER_POINTER_OFFSET(b));
    int k = 0;
    va_list ap;
    va_start(ap, f);
    for (int i = 0; i < 48 && f[i]; i++)
        if (f[i] == '%') {
            const char *s = va_arg(ap, const char *);

            CHECK("the signature names the array type and its elements", s == (k < 2 ? AS.c : EL.c));
            k++;
        }
    va_end(ap);
    FMT = f;
    SIG = b;
    return (int)in_range(0, INT32_MAX);
}
static const struct { const char *f; Tiny_ForeignFunction fn; } WANT[] = {
    {"%s(...): %s", NULL}, {"%s_clear(%s): void", Lib_ArrayClear}, {"%s_resize(%s, int): void", Lib_ArrayResize}, {"%s_resize_fill(%s, int, %s): void", Lib_ArrayResizeFill},
    {"%s_get(%s, int): %s", Lib_ArrayGet}, {"%s_get_index(%s, int): %s", Lib_ArrayGet}, {"%s_set(%s, int, %s): void", Lib_ArraySet}, {"%s_set_index(%s, int, %s): void", Lib_ArraySet},
    {"%s_len(%s): int", Lib_ArrayLen}, {"%s_push(%s, %s): void", Lib_ArrayPush}, {"%s_pop(%s): %s", Lib_ArrayPop}, {"%s_shift(%s): %s", Lib_ArrayShift},
    {"%s_remove(%s, int): void", Lib_ArrayRemove}, {"%s_insert(%s, int, %s): void", Lib_ArrayInsert}, {"%s_sort(%s): void", Lib_ArraySortInt}};
#define NWANT ((int)(sizeof WANT / sizeof *WANT))
void Bind_spec(Tiny_State *s, const char *sig, Tiny_ForeignFunction fn) {
    CHECK("the signature printed is bound", s == &ST && sig == SIG && NEWTYPE && FMT);
    int k = 0;
    for (; k < NWANT; k++) if (eq(FMT, WANT[k].f)) break;
    CHECK("only array functions are bound", k < NWANT);
    bool prim = ELEM.type == TINY_SYM_TAG_BOOL || ELEM.type == TINY_SYM_TAG_INT || ELEM.type == TINY_SYM_TAG_FLOAT;
    CHECK("each name is bound to its function", fn == (k == 0 ? (prim ? CreatePrimitiveArray : CreateArray) : WANT[k].fn));
    CHECK("only integers are sorted as integers", k != NWANT - 1 || ELEM.type == TINY_SYM_TAG_INT);
    CHECK("each name is bound once", BOUND[k]++ == 0);
    FMT = NULL;
}
void harness(void) {
    HAVOC(ELEM);
    EXISTS = in_bool();
    KNOWN = in_bool();
    int n = (int)in_range(0, 3);
    bool as = in_bool();
    char *args[3] = {EL.c, EL.c, EL.c};
    REACH("pre");
    Tiny_MacroResult r = ArrayMacroFunction(&ST, args, n, as ? AS.c : NULL);
    bool ok = n == 1 && as && (EXISTS || KNOWN);
    CHECK("a wrong use is an error", (r.type == TINY_MACRO_SUCCESS) == ok);
    CHECK("a wrong use binds nothing", NEWTYPE == (ok && !EXISTS));
    for (int k = 0; k < NWANT; k++) CHECK("every array function is bound", BOUND[k] == (NEWTYPE && (k < NWANT - 1 || ELEM.type == TINY_SYM_TAG_INT)));
    REACH("post");
}
#endif

#ifdef VC_NATIVE /* a sequence of library calls against a sequence and a mapping of integers */
static void *host(void *p, size_t n, void *u) { if (!n) { free(p); return NULL; } return realloc(p, n); }
static int64_t M[64];
static int MN;
static Tiny_Value A, D, a[7];
static int64_t any(void) { return in_bool() ? in_range(-3, 9) : (int64_t)in_u64(); }
static void same_array(Tiny_Value v) {
    a[0] = v;
    CHECK("the array's length", is_int(Lib_ArrayLen(&TH, a, 1), (uint64_t)MN));
    for (int i = 0; i < MN; i++) { a[0] = v; a[1] = mk_int(i); CHECK("the array's elements", is_int(Lib_ArrayGet(&TH, a, 2), (uint64_t)M[i])); }
}
static int order(const void *x, const void *y) { int64_t p = *(int64_t *)x, q = *(int64_t *)y; return p < q ? -1 : p > q; }
static int64_t DK[8], DV[8];
static bool DH[8];
void harness(void) {
    TH.ctx = ST.ctx = (Tiny_Context){host, &ST};
    TH.state = &ST;
    for (int i = 0; i < 3; i++) a[i] = mk_int(M[i] = any());
    MN = (int)in_range(0, 3);
    A = in_bool() ? CreateArray(&TH, a, MN) : CreatePrimitiveArray(&TH, a, MN);
    for (int i = 0; i < 8; i++) DK[i] = i * 1000003LL;
    int n = (int)in_range(0, 3);
    for (int i = 0; i < n; i++) { a[2 * i] = mk_int(DK[i]); DH[i] = true; a[2 * i + 1] = mk_int(DV[i] = any()); }
    D = CreateDict(&TH, a, 2 * n);
    for (int s = 0; s < 20; s++) {
        same_array(A);
        a[0] = A;
        int k = (int)in_range(0, 7);
        switch (in_range(0, 12)) {
            case 0: if (MN < 60) { a[1] = mk_int(M[MN++] = any()); Lib_ArrayPush(&TH, a, 2); } break;
            case 1: if (MN) CHECK("the last element", is_int(Lib_ArrayPop(&TH, a, 1), (uint64_t)M[--MN])); break;
            case 2: if (MN) { CHECK("the first element", is_int(Lib_ArrayShift(&TH, a, 1), (uint64_t)M[0])); memmove(M, M + 1, sizeof *M * (size_t)--MN); } break;
            case 3: if (MN) { int i = (int)in_range(0, MN - 1); a[1] = mk_int(i); Lib_ArrayRemove(&TH, a, 2); memmove(M + i, M + i + 1, sizeof *M * (size_t)(--MN - i)); } break;
            case 4: if (MN && MN < 60) { int i = (int)in_range(0, MN - 1); a[1] = mk_int(i); memmove(M + i + 1, M + i, sizeof *M * (size_t)(MN++ - i)); a[2] = mk_int(M[i] = any()); Lib_ArrayInsert(&TH, a, 3); } break;
            case 5: if (MN) { int i = (int)in_range(0, MN - 1); a[1] = mk_int(i); a[2] = mk_int(M[i] = any()); Lib_ArraySet(&TH, a, 3); } break;
            case 6: Lib_ArraySortInt(&TH, a, 1); qsort(M, (size_t)MN, sizeof *M, order); break;
            case 7: { int m = (int)in_range(0, 12); int64_t f = any(); a[1] = mk_int(m); a[2] = mk_int(f); Lib_ArrayResizeFill(&TH, a, 3); for (int i = MN; i < m; i++) M[i] = f; MN = m; } break;
            case 8: a[0] = D; a[1] = mk_int(DK[k]); a[2] = mk_int(DV[k] = any()); DH[k] = true; Lib_DictPut(&TH, a, 3); break;
            case 9: a[0] = D; a[1] = mk_int(DK[k]); DH[k] = false; Lib_DictRemove(&TH, a, 2); break;
            case 10: a[0] = D; a[1] = mk_int(DK[k]); CHECK("whether the key is there", is_bool(Lib_DictExists(&TH, a, 2), DH[k])); { Tiny_Value r = Lib_DictGet(&TH, a, 2); CHECK("the key's value", DH[k] ? is_int(r, (uint64_t)DV[k]) : r.type == TINY_VAL_NULL); } break;
            case 11: {
                a[0] = D;
                Tiny_Value ks = Lib_DictKeys(&TH, a, 1), vs = Lib_DictValues(&TH, a, 1);
                int has = 0;
                for (int i = 0; i < 8; i++) has += DH[i];
                a[0] = ks; CHECK("every key is listed", is_int(Lib_ArrayLen(&TH, a, 1), (uint64_t)has));
                a[0] = vs; CHECK("every value is listed", is_int(Lib_ArrayLen(&TH, a, 1), (uint64_t)has));
                bool seen[8] = {0};
                for (int i = 0; i < has; i++) {
                    a[0] = ks; a[1] = mk_int(i);
                    Tiny_Value kk = Lib_ArrayGet(&TH, a, 2);
                    a[0] = vs;
                    Tiny_Value vv = Lib_ArrayGet(&TH, a, 2);
                    int j = (int)(Tiny_ToInt(kk) / 1000003);
                    CHECK("keys are listed once, with their values in the same order", kk.type == TINY_VAL_INT && j >= 0 && j < 8 && DH[j] && !seen[j] && is_int(vv, (uint64_t)DV[j]));
                    seen[j] = true;
                }
            } break;
            default: if (in_range(0, 9) == 0) { if (in_bool()) { Lib_ArrayClear(&TH, a, 1); MN = 0; } else { a[0] = D; Lib_DictClear(&TH, a, 1); memset(DH, 0, sizeof DH); } }
        }
    }
    char b[16];
    int used = 0;
    for (int i = 0; i < 6; i++) { int l = (int)in_range(0, 9), was = used; AppendFormat(b, sizeof b, &used, "%.*s", l, "abcdefghi"); CHECK("all text counts as used", used == was + l); }
}
#endif
