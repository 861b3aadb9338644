/* tiny/src/array.c: one operation (OP) on an arbitrary well-formed array, as an operation on a sequence.
 * G: an arbitrary index of the sequence after the operation; GO: the index its element had before. */
#include "vc.h"
#ifdef TINY_VERIFY
#define VC_LOOP_array_resize(i, values) resize_cut(&(i))
static void resize_cut(int *i);
#endif
#include "util.c"
#include "array.c"
#include "values.h"
#ifdef STOPS
#define ENDS(id)
#else
#define ENDS(id) REACH(id)
#endif

#ifndef NODATA
#define NODATA in_bool()
#endif
static Array AR;
static int LEN_, CAP_, G, GO, FREED, LENGTH;
static int64_t IDX;
static Tiny_Value OLD, V, OUT;
static Tiny_Value SRC[3];
static void *BLOCK;
#ifdef SMALL
#define MAXCAP SMALL
#elif defined(VC_NATIVE)
#define MAXCAP (1 << 16)
#else
#define MAXCAP (1 << 29)
#endif
#define HEAD (2 * sizeof(int))

/* storage for cap elements: natively one malloc; under the verifier an array of cells of which the first holds
 * the header (8 bytes, at offset 8), so that the elements are the typed cells behind it */
static Tiny_Value *CELLS;
static int ROOM;
static size_t SIZE;
static size_t PHYS;
static Tiny_Value *block(size_t cap) {
#ifdef VC_NATIVE
    return NULL;
#else
    return malloc(sizeof(Tiny_Value) * (cap + 1));
#endif
}
/* the host's allocation callback: realloc keeps the bytes it has room for (seen at GO and the header) */
static void *host(void *p, size_t n, void *u) {
    CHECK("the array's own userdata is passed", u == (void *)&AR);
    if (n == 0) {
        CHECK("only the array's storage is released", p == BLOCK && p != NULL);
        FREED++;
        BLOCK = NULL;
#ifdef VC_NATIVE
        free(p);
#else
        free(CELLS);
#endif
        return NULL;
    }
    CHECK("only the array's own storage is resized", p == BLOCK);
    CHECK("storage is never shrunk below its elements", n >= HEAD + sizeof(Tiny_Value) * (size_t)LEN_);
#ifdef VC_NATIVE
    SIZE = n;
    return BLOCK = realloc(p, n);
#else
    SIZE = n;
    CHECK("storage holds whole elements", n >= HEAD && (n - HEAD) % sizeof(Tiny_Value) == 0);
    ROOM = (int)((n - HEAD) / sizeof(Tiny_Value));
    Tiny_Value *q = block(ROOM);
    if (p) {
        q[0] = CELLS[0];
        if (GO >= 0 && GO < CAP_ && GO < ROOM) q[1 + GO] = CELLS[1 + GO];
        free(CELLS);
    }
    CELLS = q;
    return BLOCK = (char *)q + HEAD;
#endif
}
#ifndef VC_NATIVE
/* memmove/memcpy of whole elements, seen at element G of the array afterwards */
static bool region_ok(const void *p, size_t n) {
    return __CPROVER_rw_ok(p, n) && IMPLIES(BLOCK && __CPROVER_same_object(p, CELLS), __CPROVER_POINTER_OFFSET(p) >= 2 * HEAD && __CPROVER_POINTER_OFFSET(p) + n <= 2 * HEAD + sizeof(Tiny_Value) * (size_t)ROOM);
}
void *move_spec(void *d, const void *s, size_t n) {
    if (n == 0) return d;
    CHECK("block copy reads memory it owns", region_ok(s, n));
    CHECK("block copy writes memory it owns", region_ok(d, n));
    char *w = (char *)&AR.data[G];
    bool inside = G >= 0 && AR.data && __CPROVER_same_object(w, d) && __CPROVER_POINTER_OFFSET(w) >= __CPROVER_POINTER_OFFSET(d) &&
                  __CPROVER_POINTER_OFFSET(w) + sizeof(Tiny_Value) <= __CPROVER_POINTER_OFFSET(d) + n;
    bool outside = G < 0 || !AR.data || !__CPROVER_same_object(w, d) || __CPROVER_POINTER_OFFSET(w) + sizeof(Tiny_Value) <= __CPROVER_POINTER_OFFSET(d) ||
                   __CPROVER_POINTER_OFFSET(w) >= __CPROVER_POINTER_OFFSET(d) + n;
    CHECK("block copy moves whole elements", (inside || outside) && n % sizeof(Tiny_Value) == 0 && __CPROVER_POINTER_OFFSET(s) % sizeof(Tiny_Value) == 0);
    Tiny_Value t;
    if (inside) {
        size_t k = (__CPROVER_POINTER_OFFSET(w) - __CPROVER_POINTER_OFFSET(d)) / sizeof(Tiny_Value);
        if (__CPROVER_same_object(s, CELLS)) t = CELLS[__CPROVER_POINTER_OFFSET(s) / sizeof(Tiny_Value) + k];
        else t = ((const Tiny_Value *)s)[k];
    }
    else if (n == sizeof(Tiny_Value) && __CPROVER_same_object(s, CELLS)) t = CELLS[__CPROVER_POINTER_OFFSET(s) / sizeof(Tiny_Value)];
    else if (n == sizeof(Tiny_Value)) t = *(const Tiny_Value *)s;
    if (n == sizeof(Tiny_Value) && d == (void *)&OUT) OUT = t;
    else if (n == sizeof(Tiny_Value)) CELLS[__CPROVER_POINTER_OFFSET(d) / sizeof(Tiny_Value)] = t;
    else {
        bool g = G >= 0 && AR.data && BLOCK && (size_t)G < (size_t)stb__sbm(AR.data);
        if (g && outside) t = AR.data[G];
        Tiny_Value h = CELLS[0];
        __CPROVER_havoc_object(CELLS);
        CELLS[0] = h;
        if (g) AR.data[G] = t;
    }
    return d;
}
#endif
#if !defined(VC_NATIVE) && !defined(MOVING)
/* contract of stb__sbgrowf (unit array_grow): the elements and their number are kept, the capacity is the larger of
 * twice the old one and what is needed.  The storage is modelled as growing where it is. */
void *grow_spec(Tiny_Context *ctx, void *arr, int inc, int size) {
    CHECK("the array grows by elements", size == sizeof(Tiny_Value) && ctx->alloc == host && ctx->userdata == &AR && arr == AR.data && inc >= 0);
    int dbl = arr ? 2 * stb__sbm(arr) : 0, need = (arr ? stb__sbn(arr) : 0) + inc;
    ROOM = dbl > need ? dbl : need;
    if (NODATA) { /* decided once per unit */
        CELLS = block(PHYS = (size_t)spec_range(4ll * MAXCAP, 5ll * MAXCAP));
        BLOCK = (char *)CELLS + HEAD;
        Tiny_Value *r = CELLS + 1;
        stb__sbn(r) = 0;
        stb__sbm(r) = ROOM;
        return r;
    }
    stb__sbm(arr) = ROOM;
    return arr;
}
#endif
static void vc_stopped(void) {
#ifdef STOPS
    REACH("stopped");
#else
    CHECK("the operation stops the program although it is within bounds", false);
#endif
#ifdef VC_NATIVE
    _exit(0);
#else
    ASSUME(false);
#endif
}
void vc_assert_fail(const char *a, const char *f, unsigned l, const char *fn) { vc_stopped(); }

#ifdef TINY_VERIFY
static int cut_seen;
static void resize_cut(int *i) {
    bool in = *i >= 0 && *i <= IDX - LEN_ && AR.data && stb__sbn(AR.data) == IDX && IDX <= stb__sbm(AR.data);
    CHECK("resize fills from the old length up", in);
    CHECK("resize: what was filled has the given value", IMPLIES(G >= LEN_ && G < LEN_ + *i, same_bits(AR.data[G], V)));
    CHECK("resize: older elements are untouched", IMPLIES(G >= 0 && G < LEN_, same_bits(AR.data[G], OLD)));
    if (cut_seen) { ENDS("loop"); ASSUME(false); }
    cut_seen = 1;
    *i = (int)spec_range(0, IDX - LEN_ - 1);
    Tiny_Value t;
    if (G >= LEN_ && G < LEN_ + *i) t = V;
    if (G >= LEN_ && G < IDX) AR.data[G] = t;
}
#endif

static void mk_array(void) {
    AR.ctx.userdata = &AR;
    AR.ctx.alloc = host;
    FREED = 0;
    if (NODATA) {
        AR.data = NULL;
        BLOCK = NULL;
        LEN_ = CAP_ = 0;
        return;
    }
    CAP_ = (int)in_range(0, MAXCAP);
    LEN_ = (int)in_range(0, MAXCAP);
    ASSUME(LEN_ <= CAP_);
#ifdef VC_NATIVE
    BLOCK = malloc(HEAD + sizeof(Tiny_Value) * (size_t)CAP_);
#else
    ROOM = CAP_;
#if defined(MOVING) || defined(GROW)
    CELLS = block(CAP_);
#else
    CELLS = block(PHYS = (size_t)spec_range(4ll * MAXCAP, 5ll * MAXCAP));
#endif
    BLOCK = (char *)CELLS + HEAD;
#endif
    ((int *)BLOCK)[0] = CAP_;
    ((int *)BLOCK)[1] = LEN_;
#ifdef VC_NATIVE
    AR.data = (Tiny_Value *)((char *)BLOCK + HEAD);
#else
    AR.data = CELLS + 1;
#endif
#ifdef VC_NATIVE
    for (int i = 0; i < LEN_; i++) AR.data[i] = mk_int(1000 + i);
#endif
}
static bool shape(int len) {
    if (!AR.data) return len == 0 && BLOCK == NULL;
    if ((char *)AR.data != (char *)BLOCK + HEAD) return false;
    if (stb__sbn(AR.data) != len || len > stb__sbm(AR.data)) return false;
#ifndef VC_NATIVE
    return ROOM >= stb__sbm(AR.data);
#endif
    return true;
}
#define AT_G AR.data[G]

/* every operation: length, storage, element G; the result where there is one */
#define CONTRACT_op                                                                            \
    ENSURES("length", shape(NEWLEN))                                                           \
    ENSURES("elements keep value and order", IMPLIES(G >= 0 && G < (NEWLEN), same_bits(AT_G, ELEM)))  \
    ENSURES("result", RESULT)                                                                  \
    ENSURES("storage is released only by destruction", FREED == 0)
#define CONTRACT_destroy ENSURES("the storage is released exactly once", FREED == HAD)
#ifndef NEWLEN
#define NEWLEN LEN_
#endif
#ifndef ELEM
#define ELEM OLD
#endif
#ifndef RESULT
#define RESULT true
#endif
#ifndef OLDINDEX
#define OLDINDEX G
#endif
#ifndef INDEXES
#define INDEXES (IDX >= 0 && IDX < LEN_)
#endif
#ifndef PRE
#define PRE true
#endif
void harness(void) {
    mk_array();
#ifdef VC_NATIVE
    IDX = in_bool() ? in_range(-2, LEN_ + 10) : in_range(INT64_MIN, INT64_MAX);
#else
    IDX = in_range(INT64_MIN, INT64_MAX);
#endif
#ifdef INT_INDEX
    ASSUME(IDX == (int)IDX);
#endif
#ifdef STOPS
    ASSUME(!(INDEXES));
#else
    ASSUME(INDEXES);
#endif
    ASSUME(PRE);
    V = in_value();
    OUT = mk_null();
    G = (int)in_range(-1, MAXCAP * 2);
    GO = OLDINDEX;
    if (GO >= 0 && GO < LEN_) OLD = AR.data[GO]; else GO = -1;
    const int HAD = AR.data != NULL;
    for (int i = 0; i < 3; i++) VC_BULK(SRC[i]);
    REACH("pre");
#if defined(GROW)
    Tiny_Value *r = stb__sbgrowf(&AR.ctx, AR.data, IDX, sizeof(Tiny_Value));
    int m = 2 * CAP_ > LEN_ + IDX ? 2 * CAP_ : LEN_ + IDX;
    CHECK("growing makes room for what is needed, at least twice what there was", (void *)r == (void *)((char *)BLOCK + HEAD) && stb__sbm(r) == m && SIZE == HEAD + sizeof(Tiny_Value) * (size_t)m);
    CHECK("growing keeps the number of elements", stb__sbn(r) == LEN_);
    CHECK("growing keeps the elements", GO < 0 || same_bits(r[GO], OLD));
#elif defined(DESTROY)
    VC_ENFORCE_VOID(destroy, CALL);
#else
    VC_ENFORCE_VOID(op, CALL);
#endif
#ifdef STOPS
    CHECK("an operation outside the bounds stops the program", false);
#endif
    ENDS("post");
}
