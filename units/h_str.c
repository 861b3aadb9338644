/* The string functions of the standard library (std.c): one call with arbitrary arguments of its declared types.
 * A string is LEN bytes and a NUL; a constant string ends at its first NUL, a string object may contain more of them.
 * Where the result is a new string, it is looked at in one arbitrary place.
 * Select with -DSTRLEN, STRIDX, STRCHR, SUBSTR, STRCAT, NUMBERS (ston, stoi), PRINTS (ntos, int_to_str), JSON. */
#include "vc.h"
#ifdef VC_NATIVE
#undef HOOKED
#define HOOKED 0
#endif
#ifndef HOOKED
#define HOOKED 0
#endif
#if defined(TINY_VERIFY) && HOOKED
#ifdef SUBSTR
#define VC_LOOP_substr(i) substr_cut(&(i))
#endif
#ifdef STRCAT
#define VC_LOOP_strcat_length(i, t) length_cut(&(i), &(t))
#define VC_LOOP_strcat_copy(i, p) copy_cut(&(i), &(p))
#endif
static void substr_cut(int64_t *i), length_cut(int *i, size_t *t), copy_cut(int *i, char **p);
#endif
#include "all.h"
#include "array.c"
#include "dict.c"
#include "std.c"
#include "values.h"

#define MAXN 8 /* natively and in the bounded form */
static Tiny_State ST;
static Tiny_StateThread TH;
static bool MAY_STOP = true;
void vc_assert_fail(const char *a, const char *f, unsigned l, const char *fn) {
    CHECK("only arguments out of range stop the program", MAY_STOP);
#ifdef VC_NATIVE
    _exit(0);
#else
    ASSUME(false);
#endif
}
/* a string */
typedef struct { char *p; size_t len, nul; Tiny_Object *o; Tiny_Value v; } Str; /* nul: the place of its first NUL */
static Str string(size_t len) {
    Str s;
    s.p = malloc(len + 1);
    s.len = len;
    s.o = malloc(sizeof(Tiny_Object) + sizeof(Tiny_Value));
    s.o->type = TINY_VAL_STRING;
    s.o->string.ptr = s.p;
    s.o->string.len = len;
    bool constant = in_bool();
#if defined(VC_NATIVE) || !HOOKED
    for (size_t i = 0; i < MAXN; i++) if (i < len) { s.p[i] = (char)(in_range(0, 3) ? in_range(-128, 127) : 0); if (constant && !s.p[i]) s.p[i] = '0'; }
    s.p[len] = 0;
#else
    ASSUME(s.p[len] == 0);
    s.nul = constant ? len : (size_t)in_range(0, 0x7ffffffe);
    ASSUME(s.nul <= len && s.p[s.nul] == 0);
#endif
    if (constant) { s.v.type = TINY_VAL_CONST_STRING; s.v.cstr = s.p; }
    else { s.v.type = TINY_VAL_STRING; s.v.obj = s.o; }
    return s;
}
static Str S;
#if defined(VC_NATIVE) || !HOOKED
#define ANYLEN ((size_t)in_range(0, MAXN))
#else
#define ANYLEN ((size_t)in_range(0, 0x7ffffffe))
#endif

/* -------------------------------------------------------------------------------------------------- specifications */
#ifdef VC_NATIVE
static void *host(void *p, size_t n, void *u) { if (!n) { free(p); return NULL; } return realloc(p, n); }
#else
static size_t strlen_default(const char *s) { CHECK("the length of a string argument is taken", s == S.p); return S.nul; }
#ifndef STRCAT
size_t strlen_spec(const char *s) { return strlen_default(s); }
#endif
static char *NEW;
static size_t NEWSIZE;
static void *host(void *p, size_t n, void *u) {
    CHECK("one new buffer is allocated from the thread's context", !p && !NEW && u == (void *)&ST && n > 0);
    NEWSIZE = n;
    return NEW = malloc(n);
}
static int MADE;
static char *MADE_P;
static size_t MADE_LEN;
static Tiny_Object OBJ;
Tiny_Value NewString_spec(Tiny_StateThread *t, char *s, size_t len) {
    CHECK("the new buffer becomes the string", t == &TH && s == NEW && s != NULL);
    MADE++; MADE_P = s; MADE_LEN = len;
    Tiny_Value v; v.type = TINY_VAL_STRING; v.obj = &OBJ;
    return v;
}
static int PRINTED;
static struct { char c[32]; } TEXT_;
static size_t AT;
Tiny_Value NewStringCopy_spec(Tiny_StateThread *t, const char *s, size_t len) {
    CHECK("the text printed becomes the string", t == &TH && PRINTED >= 0 && len == (size_t)PRINTED && s[0] == TEXT_.c[0] && s[len] == 0);
    MADE++; MADE_LEN = len;
    Tiny_Value v; v.type = TINY_VAL_STRING; v.obj = &OBJ;
    return v;
}
void *memchr_spec(const void *s, int c, size_t n) {
    CHECK("the whole string is searched, and no more", s == S.p && n == S.len);
    size_t at = (size_t)in_u64(); /* the first place of c, if any (n: none) */
    ASSUME(at <= n && (at == n || S.p[at] == (char)c));
    PRINTED = c;
    AT = at;
    return at == n ? NULL : S.p + at;
}
#endif

/* -------------------------------------------------------------------------------------------------- loop cuts */
static int64_t G, FROM, TO;
static int CUT;
#if HOOKED && !defined(VC_NATIVE)
#ifdef SUBSTR
static int64_t I0;
static void substr_cut(int64_t *i) {
    CHECK("the characters are copied in order", CUT == 0 ? *i == FROM : *i == I0 + 1);
    if (CUT++) {
        CHECK("each character copied is the string's", IMPLIES(G < *i, NEW[G - FROM] == S.p[G]));
        REACH("loop");
        ASSUME(false);
    }
    I0 = *i = in_range(0, 0x7ffffffe);
    ASSUME(I0 >= FROM && I0 < TO);
    if (G < I0) NEW[G - FROM] = S.p[G];
}
#endif
#ifdef STRCAT
/* the arguments before index k have BEFORE(k) bytes; the one looked at is A, with offset OFF */
static Tiny_Value *ARGS;
static int N, A, I1, I2;
static int64_t OFF, PA, P1, P2, TOTAL;
static Str SA, S1, S2;
size_t strlen_spec(const char *s) {
    CHECK("the length of a string argument is taken", s == SA.p || s == S1.p || s == S2.p);
    return s == SA.p ? SA.nul : s == S1.p ? S1.nul : S2.nul;
}
/* argument k is s and PRE bytes come before it: how this fits what is known of argument a */
static bool fits(int k, int64_t p, int64_t len, int a, int64_t pa, int64_t la) {
    return k == a ? p == pa && len == la : k < a ? p + len <= pa && (k + 1 != a || p + len == pa) : pa + la <= p && (a + 1 != k || pa + la == p);
}
static void length_cut(int *i, size_t *t) {
    if (CUT++ == 0) {
        CHECK("the lengths are summed from the first argument", *i == 0 && *t == 0);
        *i = I1 = (int)in_range(0, N - 1);
        P1 = (int64_t)in_range(0, (int64_t)1 << 40);
        S1 = I1 == A ? SA : string(ANYLEN);
        ARGS[I1] = S1.v;
        *t = (size_t)P1;
        ASSUME(IMPLIES(I1 == 0, P1 == 0));
        ASSUME(fits(I1, P1, (int64_t)S1.len, A, PA, (int64_t)SA.len));
    } else {
        CHECK("each argument's length is added", *i == I1 + 1 && *t == (size_t)P1 + S1.len && *i < N);
        REACH("length");
        ASSUME(false);
    }
}
static int COPIES;
static void copy_cut(int *i, char **p) {
    int64_t q = PA + OFF;
    if (COPIES++ == 0) {
        CHECK("the arguments are copied from the first", *i == 0 && *p == NEW);
        TOTAL = P1 + (int64_t)S1.len; /* I1 was the last */
        CHECK("every length was added", I1 == N - 1);
        CHECK("the new string has room for all arguments and its end", NEWSIZE == (size_t)TOTAL + 1);
        *i = I2 = (int)in_range(0, N - 1);
        P2 = (int64_t)in_range(0, (int64_t)1 << 40);
        S2 = I2 == A ? SA : I2 == I1 ? S1 : string(ANYLEN);
        if (I2 == I1) ASSUME(P2 == P1);
        ARGS[I2] = S2.v;
        ASSUME(IMPLIES(I2 == 0, P2 == 0));
        ASSUME(fits(I2, P2, (int64_t)S2.len, A, PA, (int64_t)SA.len) && fits(I2, P2, (int64_t)S2.len, I1, P1, (int64_t)S1.len));
        *p = NEW + P2;
        if (I2 > A) NEW[q] = SA.p[OFF];
    } else {
        CHECK("each argument is appended", *i == I2 + 1 && *p == NEW + P2 + S2.len && *i < N);
        CHECK("the bytes copied stay", IMPLIES(I2 + 1 > A, NEW[q] == SA.p[OFF]));
        REACH("copy");
        ASSUME(false);
    }
}
void *memcpy_spec(void *d, const void *s, size_t n) {
    CHECK("an argument's bytes are copied", s == S2.p && n <= S2.len);
    int64_t at = (char *)d - NEW, q = PA + OFF;
    CHECK("the copy stays in the new string", at >= 0 && at + (int64_t)n <= (int64_t)NEWSIZE);
    if (q >= at && q < at + (int64_t)n) NEW[q] = ((const char *)s)[q - at];
    return d;
}
#endif
#endif
#ifdef JSON
static Tiny_Value FWD;
static int FORWARDED;
Tiny_Value Strcat_spec(Tiny_StateThread *t, const Tiny_Value *args, int count) {
    CHECK("the string is put in quotes", t == &TH && count == 3 && args[0].type == TINY_VAL_CONST_STRING && args[0].cstr[0] == '"' && args[0].cstr[1] == 0 &&
          args[2].type == TINY_VAL_CONST_STRING && args[2].cstr[0] == '"' && args[2].cstr[1] == 0 && same_bits(args[1], FWD));
    FORWARDED = 1;
    return mk_int(1);
}
Tiny_Value IntToStr_spec(Tiny_StateThread *t, const Tiny_Value *args, int count) { CHECK("the number is printed", t == &TH && count == 1 && same_bits(args[0], FWD)); FORWARDED = 2; return mk_int(2); }
Tiny_Value Ntos_spec(Tiny_StateThread *t, const Tiny_Value *args, int count) { CHECK("the number is printed", t == &TH && count == 1 && same_bits(args[0], FWD)); FORWARDED = 3; return mk_int(3); }
#endif
#if defined(NUMBERS) && !defined(VC_NATIVE)
static int BASE;
static long long PARSED;
static double PARSED_F;
double strtod_spec(const char *s, char **e) { CHECK("the string's text is read", s == S.p && !e); return PARSED_F; }
long long strtoll_spec(const char *s, char **e, int base) { CHECK("the string's text is read in its base", s == S.p && !e && base == BASE); return PARSED; }
#endif
#if defined(PRINTS) && !defined(VC_NATIVE)
/* the text of a number: %g at most 13 characters, %lld at most 20 (ISO C) */
static int64_t WANT_I;
static double WANT_F;
static bool IS_F;
#include <stdarg.h>
int snprintf_spec(char *b, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    CHECK("the number is printed in full", n == 32 && f[0] == '%' && (IS_F ? f[1] == 'g' && f[2] == 0 : f[1] == 'l' && f[2] == 'l' && f[3] == 'd' && f[4] == 0));
    if (IS_F) { double d = va_arg(ap, double); CHECK("the number printed is the argument", d == WANT_F || d != d); }
    else { long long i = va_arg(ap, long long); CHECK("the number printed is the argument", i == WANT_I); }
    va_end(ap);
    PRINTED = (int)in_range(1, IS_F ? 13 : 20);
    VC_BULK(TEXT_);
    ASSUME(TEXT_.c[PRINTED] == 0);
    for (int i = 0; i < 32; i++) if (i <= PRINTED) b[i] = TEXT_.c[i];
    return PRINTED;
}
#endif
#ifdef VC_NATIVE
static void is_string(Tiny_Value v, const char *want, size_t len) {
    CHECK("the result is the string described", (v.type == TINY_VAL_STRING || v.type == TINY_VAL_CONST_STRING) && Tiny_StringLen(v) == len && !memcmp(Tiny_ToString(v), want, len) && Tiny_ToString(v)[len] == 0);
}
#define STRING_IS(v, w, l) is_string(v, w, l)
#endif
void harness(void) {
    TH.ctx = ST.ctx = (Tiny_Context){host, &ST};
    TH.state = &ST;
    Tiny_Value a[3], r;
#if defined(STRLEN)
    S = string(ANYLEN);
    a[0] = S.v;
    REACH("pre");
    r = Strlen(&TH, a, 1);
    CHECK("the length of a string is its number of bytes", is_int(r, S.len));
#elif defined(STRIDX)
    S = string(ANYLEN);
    a[0] = S.v;
    int64_t i = (int64_t)in_u64();
    if (in_bool()) i = in_range(-1, MAXN + 1);
    a[1] = mk_int(i);
    MAY_STOP = !(i >= 0 && i < (int64_t)S.len);
    REACH("pre");
    r = Stridx(&TH, a, 2);
    CHECK("only an index of the string yields a character", !MAY_STOP);
    CHECK("the character at the index is returned", is_int(r, (uint64_t)(int64_t)S.p[i]));
#elif defined(STRCHR)
    S = string(ANYLEN);
    a[0] = S.v;
    int64_t c = (int64_t)in_u64();
#ifdef VC_NATIVE
    if (S.len && in_bool()) c = S.p[in_range(0, (int64_t)S.len - 1)];
#endif
    a[1] = mk_int(c);
    MAY_STOP = false;
    REACH("pre");
    r = Strchr(&TH, a, 2);
#ifdef VC_NATIVE
    int64_t first = -1;
    for (int64_t k = (int64_t)S.len - 1; k >= 0; k--) if (S.p[k] == (char)c) first = k;
    CHECK("the first place of the character is returned", is_int(r, (uint64_t)first));
#else
    CHECK("the character asked for is searched", (char)PRINTED == (char)c);
    CHECK("the first place of the character is returned, or -1", is_int(r, AT == S.len ? (uint64_t)-1 : AT));
    if (r.i == -1) REACH("none");
#endif
#elif defined(SUBSTR)
    S = string(ANYLEN);
    a[0] = S.v;
#ifdef VC_NATIVE
    int64_t from = in_bool() ? in_range(-2, MAXN + 2) : (int64_t)in_u64(), to = in_bool() ? in_range(-2, MAXN + 2) : (int64_t)in_u64();
#else
    int64_t from = (int64_t)in_u64(), to = (int64_t)in_u64();
#endif
    a[1] = mk_int(from);
    a[2] = mk_int(to);
    FROM = from;
    TO = to == -1 ? (int64_t)S.len : to;
    bool in = FROM >= 0 && FROM <= TO && TO <= (int64_t)S.len;
    MAY_STOP = !in;
    G = in_range(0, 0x7ffffffe);
#ifndef VC_NATIVE
    ASSUME(!in || FROM == TO || (G >= FROM && G < TO));
#endif
    REACH("pre");
    r = Lib_Substr(&TH, a, 3);
    if (FROM == TO && FROM >= 0) {
        CHECK("an empty range yields the empty string", r.type == TINY_VAL_CONST_STRING && r.cstr[0] == 0);
        REACH("empty");
    } else {
        CHECK("only a range of the string yields a string", in);
#ifdef VC_NATIVE
        STRING_IS(r, S.p + FROM, (size_t)(TO - FROM));
#else
        CHECK("the string returned has the range's length", MADE == 1 && r.type == TINY_VAL_STRING && r.obj == &OBJ && MADE_LEN == (size_t)(TO - FROM));
        CHECK("the string returned has the range's characters", MADE_P[G - FROM] == S.p[G]);
        CHECK("the string returned is terminated", MADE_P[MADE_LEN] == 0 && NEWSIZE == MADE_LEN + 1);
#endif
    }
#elif defined(STRCAT) && HOOKED
    N = (int)in_range(1, 255);
    A = (int)in_range(0, N - 1);
    PA = in_range(0, (int64_t)1 << 40);
    ARGS = malloc(sizeof(Tiny_Value) * (size_t)N);
    SA = string(ANYLEN);
    ASSUME(SA.len > 0);
    OFF = in_range(0, 0x7ffffffe);
    ASSUME(OFF < (int64_t)SA.len && IMPLIES(A == 0, PA == 0));
    ARGS[A] = SA.v;
    MAY_STOP = false;
    REACH("pre");
    r = Strcat(&TH, ARGS, N);
    CHECK("every argument was appended", I2 == N - 1);
    CHECK("the string returned has all arguments' length", MADE == 1 && r.type == TINY_VAL_STRING && r.obj == &OBJ && MADE_LEN == (size_t)TOTAL && P2 + (int64_t)S2.len == TOTAL);
    CHECK("each argument's bytes stand in their place", NEW[PA + OFF] == SA.p[OFF]);
    CHECK("the string returned is terminated", MADE_P[MADE_LEN] == 0);
#elif defined(STRCAT)
    Tiny_Value v[3];
    int n = (int)in_range(1, 3);
    static char want[3 * MAXN + 1];
    size_t t = 0;
    for (int k = 0; k < 3; k++) if (k < n) {
        Str s = string(ANYLEN);
        v[k] = s.v;
        for (size_t i = 0; i < MAXN; i++) if (i < s.len) want[t++] = s.p[i];
    }
    MAY_STOP = false;
    r = Strcat(&TH, v, n);
#ifdef VC_NATIVE
    STRING_IS(r, want, t);
#endif
#elif defined(NUMBERS)
    S = string(ANYLEN);
    a[0] = S.v;
    MAY_STOP = false;
#ifdef VC_NATIVE
    for (size_t i = 0; i < S.len; i++) S.p[i] = "0123456789-+.xe "[in_range(0, 15)];
    int64_t base = in_range(2, 36);
    a[1] = mk_int(base);
    r = Lib_Ston(&TH, a, 1);
    CHECK("a string's number", is_float(r, strtod(S.p, NULL)));
    r = Lib_Stoi(&TH, a, 2);
    CHECK("a string's integer", is_int(r, (uint64_t)strtoll(S.p, NULL, (int)base)));
#else
    VC_BULK(PARSED);
    PARSED_F = in_f64();
    REACH("pre");
    r = Lib_Ston(&TH, a, 1);
    CHECK("a string's number is what it reads as", is_float(r, PARSED_F));
    BASE = 10;
    r = Lib_Stoi(&TH, a, 1);
    CHECK("a string's integer is what it reads as", is_int(r, (uint64_t)PARSED));
    BASE = (int)in_range(0, 36);
    a[1] = mk_int(BASE);
    r = Lib_Stoi(&TH, a, 2);
    CHECK("a string's integer is what it reads as in the base given", is_int(r, (uint64_t)PARSED));
#endif
#elif defined(PRINTS)
    MAY_STOP = false;
#ifdef VC_NATIVE
    char b[64];
    a[0] = mk_int((int64_t)in_u64());
    sprintf(b, "%lld", (long long)a[0].i);
    STRING_IS(Lib_IntToStr(&TH, a, 1), b, strlen(b));
    a[0] = in_num();
    sprintf(b, "%g", num(a[0]));
    STRING_IS(Lib_Ntos(&TH, a, 1), b, strlen(b));
#else
    REACH("pre");
    IS_F = false;
    a[0] = mk_int(WANT_I = (int64_t)in_u64());
    r = Lib_IntToStr(&TH, a, 1);
    CHECK("the text of an integer is returned", r.type == TINY_VAL_STRING && r.obj == &OBJ && MADE == 1);
    IS_F = true;
    a[0] = in_num();
    int n = (int)in_range(0, 2);
    WANT_F = n ? num(a[0]) : 0;
    r = Lib_Ntos(&TH, a, n);
    CHECK("the text of a number is returned", r.type == TINY_VAL_STRING && r.obj == &OBJ && MADE == 2);
#endif
#elif defined(JSON)
    MAY_STOP = false;
#ifdef VC_NATIVE
    char b[64];
    S = string(ANYLEN);
    switch (in_range(0, 4)) {
        case 0: a[0] = mk_null(); strcpy(b, "null"); break;
        case 1: a[0] = mk_bool(in_bool()); strcpy(b, a[0].boolean ? "true" : "false"); break;
        case 2: a[0] = mk_int((int64_t)in_u64()); sprintf(b, "%lld", (long long)a[0].i); break;
        case 3: a[0] = mk_float(in_f64()); sprintf(b, "%g", a[0].f); break;
        default: a[0] = S.v; b[0] = '"'; memcpy(b + 1, S.p, S.len); strcpy(b + 1 + S.len, "\"");
    }
    STRING_IS(Lib_PrimitiveToJson(&TH, a, 1), b, a[0].type == TINY_VAL_STRING || a[0].type == TINY_VAL_CONST_STRING ? S.len + 2 : strlen(b));
#else
    a[0] = FWD = in_value();
    REACH("pre");
    r = Lib_PrimitiveToJson(&TH, a, 1);
    int t = FWD.type;
    if (t == TINY_VAL_INT) CHECK("an integer's text", FORWARDED == 2 && is_int(r, 2));
    else if (t == TINY_VAL_FLOAT) CHECK("a float's text", FORWARDED == 3 && is_int(r, 3));
    else if (t == TINY_VAL_STRING || t == TINY_VAL_CONST_STRING) CHECK("a string's text in quotes", FORWARDED == 1 && is_int(r, 1));
    else CHECK("the words null, true and false", r.type == TINY_VAL_CONST_STRING && r.cstr[0] == (t == TINY_VAL_BOOL ? (FWD.boolean ? 't' : 'f') : 'n') && !FORWARDED);
#endif
#endif
    REACH("post");
}
