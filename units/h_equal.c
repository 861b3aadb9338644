/* Equality of values and the hash of keys (tiny.c: Tiny_AreValuesEqual, dict.c: HashValue, HashBytes).
 * Strings are of any length.  Their contents enter through what the comparison functions of the C library can observe:
 * DIFF, the first index at which the two texts (with their terminators) differ, and NUL, the first index before
 * DIFF at which both have a NUL byte. */
#include "vc.h"
#ifdef TINY_VERIFY
#ifdef HASHBYTES
#define VC_LOOP_hash_bytes(first, hash) bytes_cut(&(first), &(hash))
static void bytes_cut(const char **first, unsigned long *hash);
#endif
#endif
#include "all.h"
#include "array.c"
#include "dict.c"
#include "values.h"

static Tiny_Value A, B, C;
static char *PA, *PB;
static size_t LA, LB, DIFF, NUL_;
static bool HAS_NUL, SAME;
static Tiny_Object OA, OB, OC;
static char ADDRS[3];
static Tiny_NativeProp PROPS[2];

static bool is_str(Tiny_Value v) { return v.type == TINY_VAL_STRING || v.type == TINY_VAL_CONST_STRING; }

#ifndef VC_NATIVE
static size_t len_of(const char *p) { return p == PA ? LA : LB; }
static bool known(const void *p) { return p == PA || p == PB; }
int memcmp_spec(const void *p, const void *q, size_t n) {
    CHECK("memcmp compares the two texts", known(p) && known(q));
    CHECK("memcmp stays inside both texts", n <= len_of(p) + 1 && n <= len_of(q) + 1);
    if (p == q) return 0;
    int r = (int)spec_u64();
    ASSUME((r != 0) == (DIFF < n));
    return r;
}
int strncmp_spec(const char *p, const char *q, size_t n) {
    CHECK("strncmp compares the two texts", known(p) && known(q));
    if (p == q) return 0;
    int r = (int)spec_u64();
    ASSUME((r != 0) == (DIFF < n && !HAS_NUL));
    return r;
}
int strcmp_spec(const char *p, const char *q) { return strncmp_spec(p, q, (size_t)-1); }
size_t strlen_spec(const char *p) {
    CHECK("strlen measures a text", known(p));
    if ((p == PA ? A : B).type == TINY_VAL_CONST_STRING) return len_of(p);
    size_t n = HAS_NUL ? NUL_ : spec_u64(); /* a string object may contain NUL */
    ASSUME(n <= len_of(p) && (HAS_NUL || n >= DIFF));
    return n;
}
#endif

/* two values of any kinds; texts, objects and addresses may or may not coincide */
static Tiny_Value value_of(int kind, Tiny_Object *o, char *text, size_t len) {
    Tiny_Value v = in_value();
    v.type = (uint8_t)kind;
    if (kind == TINY_VAL_BOOL) v = mk_bool(in_bool());
    if (kind == TINY_VAL_FLOAT) v = mk_float(in_f64());
    if (kind == TINY_VAL_STRING) { o->type = kind; o->string.ptr = text; o->string.len = len; v.obj = o; }
    if (kind == TINY_VAL_CONST_STRING) v.cstr = text;
    if (kind == TINY_VAL_NATIVE) { o->type = kind; o->nat.addr = &ADDRS[in_range(0, 2)]; o->nat.prop = in_bool() ? NULL : in_bool() ? &PROPS[0] : &PROPS[1]; v.obj = o; }
    if (kind == TINY_VAL_LIGHT_NATIVE) v.addr = &ADDRS[in_range(0, 2)];
    if (kind == TINY_VAL_STRUCT) { o->type = kind; o->ostruct.n = (Word)in_range(0, 2); v.obj = o; }
    return v;
}
static bool spec_equal(Tiny_Value a, Tiny_Value b) {
    if (is_str(a) && is_str(b)) return SAME || (LA == LB && DIFF >= LA);
    if (a.type != b.type) return false;
    switch (a.type) {
        case TINY_VAL_NULL: return true;
        case TINY_VAL_BOOL: return a.boolean == b.boolean;
        case TINY_VAL_INT: return a.i == b.i;
        case TINY_VAL_FLOAT: return a.f == b.f;
        case TINY_VAL_NATIVE: return a.obj->nat.addr == b.obj->nat.addr;
        case TINY_VAL_LIGHT_NATIVE: return a.addr == b.addr;
        default: return a.obj == b.obj;
    }
}
static void texts(void) {
    LA = (size_t)in_range(0, 1 << 30);
    LB = (size_t)in_range(0, 1 << 30);
    SAME = in_bool();
#ifdef VC_NATIVE
    LA %= 4;
    LB = in_bool() ? LA : LB % 4;
    PA = calloc(LA + 1, 1);
    PB = SAME ? PA : calloc(LB + 1, 1);
    if (SAME) LB = LA;
    bool nuls = A.type == TINY_VAL_STRING && B.type == TINY_VAL_STRING;
    static const char pick[] = {'a', (char)0xe4, 'b', 0};
    for (size_t i = 0; i < LA; i++) PA[i] = pick[in_range(0, nuls ? 3 : 2)];
    if (!SAME) for (size_t i = 0; i < LB; i++) PB[i] = i < LA && in_bool() ? PA[i] : pick[in_range(0, nuls ? 3 : 2)];
    size_t m = LA < LB ? LA : LB;
    for (DIFF = 0; DIFF <= m && PA[DIFF] == PB[DIFF]; DIFF++);
#else
    if (SAME) LB = LA;
    PA = malloc(LA + 1);
    PB = SAME ? PA : malloc(LB + 1);
    size_t m = LA < LB ? LA : LB;
    DIFF = (size_t)in_u64();
    HAS_NUL = in_bool();
    NUL_ = (size_t)in_u64();
    ASSUME(DIFF <= m + 1 && (LA != LB || DIFF != LA)); /* both terminators are NUL */
    ASSUME(!HAS_NUL || NUL_ < DIFF);
    ASSUME(HAS_NUL || DIFF <= m);                      /* a text that is exhausted without a difference ends in NUL */
    if (A.type == TINY_VAL_CONST_STRING) ASSUME(!HAS_NUL || NUL_ == LA);
    if (B.type == TINY_VAL_CONST_STRING) ASSUME(!HAS_NUL || NUL_ == LB);
    if (SAME) ASSUME(DIFF == LA + 1);
#endif
}
static void two_values(void) {
    int ka = (int)in_range(TINY_VAL_NULL, TINY_VAL_STRUCT), kb = in_bool() ? ka : (int)in_range(TINY_VAL_NULL, TINY_VAL_STRUCT);
    A.type = (uint8_t)ka;
    B.type = (uint8_t)kb;
    texts();
    A = value_of(ka, &OA, PA, LA);
    B = value_of(kb, &OB, PB, LB);
    if (ka == kb && in_bool() && (!is_str(A) || SAME)) B = A;
}

#ifdef EQUAL
#define CONTRACT_equal                                                                             \
    REQUIRES(true)                                                                                 \
    ENSURES("two values are equal exactly when they denote the same", RV == spec_equal(A, B))
void harness(void) {
    two_values();
    REACH("pre");
    bool r = VC_ENFORCE(bool, equal, Tiny_AreValuesEqual(A, B));
    (void)r;
    REACH("post");
}
#endif

#ifdef LAWS /* the relation itself */
void harness(void) {
    int k1 = (int)in_range(TINY_VAL_NULL, TINY_VAL_STRUCT), k2 = (int)in_range(TINY_VAL_NULL, TINY_VAL_STRUCT), k3 = (int)in_range(TINY_VAL_NULL, TINY_VAL_STRUCT);
    ASSUME(k1 != TINY_VAL_STRING && k1 != TINY_VAL_CONST_STRING && k2 != TINY_VAL_STRING && k2 != TINY_VAL_CONST_STRING && k3 != TINY_VAL_STRING && k3 != TINY_VAL_CONST_STRING);
    A = value_of(k1, &OA, NULL, 0);
    B = value_of(k2, in_bool() && k1 == k2 ? &OA : &OB, NULL, 0);
    C = value_of(k3, in_bool() && k2 == k3 ? B.type == TINY_VAL_STRUCT ? B.obj : &OC : &OC, NULL, 0);
    REACH("pre");
    bool ab = Tiny_AreValuesEqual(A, B), ba = Tiny_AreValuesEqual(B, A), bc = Tiny_AreValuesEqual(B, C), ac = Tiny_AreValuesEqual(A, C), aa = Tiny_AreValuesEqual(A, A);
    CHECK("reflexive except for NaN", aa || (A.type == TINY_VAL_FLOAT && A.f != A.f));
    CHECK("symmetric", ab == ba);
    CHECK("transitive", !ab || !bc || ac);
    REACH("post");
}
#endif

#ifdef HASH
static unsigned long HA, HB;
#ifndef VC_NATIVE
unsigned long HashBytes_spec(const char *first, const char *last) {
    CHECK("the whole text is hashed", (first == PA && last - first == (long)LA) || (first == PB && last - first == (long)LB));
    return first == PA ? HA : HB; /* HashBytes depends on the bytes only (unit hash_bytes) */
}
#endif
void harness(void) {
    two_values();
    HA = in_u64();
    HB = in_u64();
    if (LA == LB && (SAME || DIFF >= LA)) ASSUME(HA == HB);
    ASSUME(A.type != TINY_VAL_NULL && A.type != TINY_VAL_FLOAT && B.type != TINY_VAL_NULL && B.type != TINY_VAL_FLOAT);
    ASSUME(spec_equal(A, B));
    REACH("pre");
    unsigned long a = HashValue(A), b = HashValue(B);
    CHECK("equal keys have equal hashes", a == b);
    REACH("post");
}
#endif

#ifdef HASHBYTES /* the result depends on nothing but the bytes: two texts that agree on them, two runs in step */
static char *P;
static size_t L, I;
static unsigned long H, H0[2];
static int RUN, CUT;
#ifdef TINY_VERIFY
static void bytes_cut(const char **first, unsigned long *hash) {
    if (CUT++ == 0) {
        H0[RUN] = *hash; /* an arbitrary iteration: hash H, byte I is read next */
        *hash = H;
        *first = P + I;
    } else
        *first = P + L;
}
#endif
void harness(void) {
    L = (size_t)in_range(1, 1 << 20);
#if defined(VC_NATIVE) || defined(SMALL)
    ASSUME(L <= 4);
#endif
    I = (size_t)in_range(0, 1 << 20);
    ASSUME(I >= 1 && I <= L);
    H = in_u64();
    char *p = malloc(L), *q = malloc(L);
#if defined(VC_NATIVE) || defined(SMALL)
    for (size_t i = 0; i < 4; i++) { char c = (char)in_u64(); if (i < L) p[i] = q[i] = c; }
#else
    char c = (char)in_u64(), d = (char)in_u64();
    p[0] = q[0] = c;
    if (I < L) p[I] = q[I] = d;
#endif
    REACH("pre");
    P = p; RUN = 0; CUT = 0;
    unsigned long a = HashBytes(p, p + L);
    P = q; RUN = 1; CUT = 0;
    unsigned long b = HashBytes(q, q + L);
    CHECK("equal texts start from the same state", H0[0] == H0[1]);
    CHECK("equal texts have equal hashes", a == b);
    CHECK("the empty text has one hash", HashBytes(p, p) == HashBytes(q, q));
    REACH("post");
}
#endif
