/* Type checking (tiny.c: ResolveTypes, IsTagAssignableTo, CheckIndexArguments).
 * ResolveTypes is checked one construct at a time; the parts of the construct enter through the contract "ResolveTypes
 * gives a part its type".  The oracle is the rule table of the language, over a pool of types that has two of every kind. */
#include "vc.h"
#ifdef VC_NATIVE
#undef HOOKED
#undef SMALL
#define SMALL 3
#endif
#ifdef TINY_VERIFY
#ifdef ARGS
#define VC_LOOP_resolve_args(node, i) args_cut(&(node), &(i))
#endif
#ifdef CTOR
#define VC_LOOP_resolve_ctor(node, i, name) ctor_cut(&(node), &(i), &(name))
#define VC_LOOP_resolve_ctor_prev(prev) ctor_prev_cut(&(prev))
#define VC_LOOP_resolve_ctor_field(j) ctor_field_cut(&(j))
#endif
#ifdef BLOCK
#define VC_LOOP_resolve_block(node) block_cut(&(node))
#endif
#endif
#include <string.h>
struct Tiny_Expr;
struct Tiny_StringNode;
static void ctor_cut(struct Tiny_Expr **, int *, struct Tiny_StringNode **);
static void ctor_prev_cut(const struct Tiny_StringNode **);
static void ctor_field_cut(int *);
static void args_cut(struct Tiny_Expr **, int *);
static void block_cut(struct Tiny_Expr **);
#include "all_flat.h"

enum { VOID_, BOOL_, INT_, FLOAT_, STR_, ANY_, NAT_A, NAT_B, STRUCT_A, STRUCT_B, NULLABLE_A, NULLABLE_B, NTAGS };
static Tiny_Symbol SYM[4], FN, FN2, ARG[4];
static Tiny_State ST;
static Tiny_Expr E, CH[4];
static Tiny_Symbol *CTAG[4]; /* the types of the parts */
static bool PART[4], DONE[4];
static Tiny_Symbol *FUNC0, *FUNC1; /* the enclosing function, and the one whose body is resolved */
static bool OK;                    /* the rules allow the construct */
static Tiny_Symbol *WANT;          /* its type */
static Tiny_StringNode NAME = {NULL, (char *)"name"};
static struct { int m, n; Tiny_Symbol *p[4]; } LIST, LIST2;

static Tiny_Symbol P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, P10, P11; /* one object per type */
#ifdef VC_NATIVE
static Tiny_Symbol *T(int k) {
    Tiny_Symbol *const all[] = {NULL, NULL, NULL, NULL, NULL, NULL, &P6, &P7, &P8, &P9, &P10, &P11};
    return k <= ANY_ ? GetPrimTag((Tiny_SymbolType)(TINY_SYM_TAG_VOID + k)) : all[k];
}
#else
static Tiny_Symbol *T(int k) {
    switch (k) {
        case 0: return &P0; case 1: return &P1; case 2: return &P2; case 3: return &P3; case 4: return &P4; case 5: return &P5;
        case 6: return &P6; case 7: return &P7; case 8: return &P8; case 9: return &P9; case 10: return &P10; default: return &P11;
    }
}
Tiny_Symbol *Prim_spec(Tiny_SymbolType t) {
    CHECK("a primitive type is asked for", t >= TINY_SYM_TAG_VOID && t <= TINY_SYM_TAG_ANY);
    return T((int)t - (int)TINY_SYM_TAG_VOID);
}
#endif
static int idx(const Tiny_Symbol *p) {
    for (int k = 0; k < NTAGS; k++) if (p == T(k)) return k;
    CHECK("every type is one of the program's", false);
    return -1;
}
static Tiny_Symbol *any_tag(void) { return T((int)in_range(0, NTAGS - 1)); }
/* may a value of type s stand where d is expected? */
static int INNER[2];
static bool flows_i(int s, int d) {
    if (s == VOID_) return false;
    if (d == ANY_) return true;
    if (s == ANY_) return false;
    if (d < NULLABLE_A) return s == d;
    int e = INNER[d - NULLABLE_A], t = s < NULLABLE_A ? s : INNER[s - NULLABLE_A];
    return e == ANY_ || t == e;
}
static bool flows(const Tiny_Symbol *s, const Tiny_Symbol *d) { return flows_i(idx(s), idx(d)); }
#define num(t) ((t) == T(INT_) || (t) == T(FLOAT_))
#define isint(t) ((t) == T(INT_))

static void world(void) {
    HAVOC(ST);
    HAVOC(E);
    HAVOC(FN);
    HAVOC(FN2);
    for (int i = 0; i < 4; i++) { HAVOC(SYM[i]); HAVOC(ARG[i]); HAVOC(CH[i]); CH[i].tag = NULL; }
    E.tag = NULL;
#define MK(p, t, nm) HAVOC(p); p.type = t; p.name = (char *)nm
#ifndef VC_NATIVE
    MK(P0, TINY_SYM_TAG_VOID, "void"); MK(P1, TINY_SYM_TAG_BOOL, "bool"); MK(P2, TINY_SYM_TAG_INT, "int"); MK(P3, TINY_SYM_TAG_FLOAT, "float"); MK(P4, TINY_SYM_TAG_STR, "str"); MK(P5, TINY_SYM_TAG_ANY, "any");
#endif
    MK(P6, TINY_SYM_TAG_FOREIGN, "A"); MK(P7, TINY_SYM_TAG_FOREIGN, "B"); MK(P8, TINY_SYM_TAG_STRUCT, "A"); MK(P9, TINY_SYM_TAG_STRUCT, "C"); MK(P10, TINY_SYM_TAG_NULLABLE, "N?"); MK(P11, TINY_SYM_TAG_NULLABLE, "M?");
    P8.sstruct.defined = P9.sstruct.defined = true;
    INNER[0] = (int)in_range(BOOL_, STRUCT_B);
    INNER[1] = (int)in_range(BOOL_, STRUCT_B);
    ASSUME(INNER[0] != INNER[1]); /* nullable types are interned: one per inner type */
    P10.nullableTag = T(INNER[0]);
    P11.nullableTag = T(INNER[1]);
    FUNC0 = in_bool() ? &SYM[0] : NULL;
    FUNC1 = FUNC0;
    ST.currFunc = FUNC0;
    SYM[0].name = SYM[1].name = (char *)"f";
    E.lineNumber = 3;
}
/* part k of the construct: an identifier of an arbitrary type */
static Tiny_Expr *part(int k) {
    static Tiny_Symbol v[4];
    CTAG[k] = any_tag();
    HAVOC(v[k]);
    v[k].type = TINY_SYM_GLOBAL;
    v[k].var.tag = CTAG[k];
    v[k].name = (char *)"v";
    CH[k].type = TINY_EXP_ID;
    CH[k].id.name = &NAME;
    CH[k].id.sym = &v[k];
    PART[k] = true;
    return &CH[k];
}
#ifndef VC_NATIVE
void VC_REAL_ResolveTypes(Tiny_State *, Tiny_Expr *);
void ResolveTypes_spec(Tiny_State *s, Tiny_Expr *e) {
    if (e->tag) return;
    for (int k = 0; k < 4; k++) if (e == &CH[k]) {
        CHECK("only parts of the construct are resolved", PART[k]);
        CHECK("a part is resolved inside the function it belongs to", s->currFunc == FUNC1);
        CH[k].tag = CTAG[k];
        DONE[k] = true;
        return;
    }
    CHECK("only parts of the construct are resolved", false);
    ASSUME(false);
}
void ReportErrorE_spec(Tiny_State *s, const Tiny_Expr *e, const char *m, ...) {
    CHECK("a construct that follows the rules is not rejected", !OK);
#ifndef NOREJECT
    REACH("rejected");
#endif
    ASSUME(false);
}
Tiny_Symbol *VC_REAL_GetPrimTag(Tiny_SymbolType);
bool VC_REAL_IsTagAssignableTo(const Tiny_Symbol *, const Tiny_Symbol *);
bool Flows_spec(const Tiny_Symbol *s, const Tiny_Symbol *d) { return flows(s, d); }
#else
#define VC_REAL_ResolveTypes ResolveTypes
#define VC_REAL_GetPrimTag GetPrimTag
#define VC_REAL_IsTagAssignableTo IsTagAssignableTo
#endif
static void judge(void) {
    REACH("pre");
#ifdef VC_NATIVE
    ST.compileCallNestCount = 1;
    if (setjmp(ST.compileErrorJmpBufs[0])) { CHECK("a construct that follows the rules is not rejected", !OK); return; }
#endif
    VC_REAL_ResolveTypes(&ST, &E);
    CHECK("a construct that breaks a rule is rejected", OK);
    CHECK("the construct has the right type", E.tag == WANT);
    for (int k = 0; k < 4; k++) CHECK("every part is type-checked", !PART[k] || CH[k].tag == CTAG[k]);
    CHECK("the enclosing function is unchanged", ST.currFunc == FUNC0);
    REACH("post");
}
#define OPERATORS(...)                                                                            \
    static const int ops[] = {__VA_ARGS__};                                                       \
    E.type = TINY_EXP_BINARY;                                                                     \
    E.binary.op = ops[in_range(0, (int)(sizeof(ops) / sizeof(ops[0])) - 1)];                      \
    E.binary.lhs = part(0);                                                                       \
    E.binary.rhs = part(1)
#define A CTAG[0]
#define B CTAG[1]

#ifdef FLOWS
void harness(void) {
    world();
    Tiny_Symbol *s = any_tag(), *d = any_tag();
    REACH("pre");
    bool r = VC_REAL_IsTagAssignableTo(s, d);
    CHECK("a type may stand where another is expected exactly when the rules say so", r == flows(s, d));
    REACH("post");
}
#endif
#ifdef PRIM
void harness(void) {
    int a = (int)in_range(0, 5), b = (int)in_range(0, 5);
    REACH("pre");
    Tiny_Symbol *s = VC_REAL_GetPrimTag((Tiny_SymbolType)(TINY_SYM_TAG_VOID + a)), *t = VC_REAL_GetPrimTag((Tiny_SymbolType)(TINY_SYM_TAG_VOID + b));
    CHECK("a primitive type is of its kind", (int)s->type == (int)TINY_SYM_TAG_VOID + a && s->name != NULL);
    CHECK("there is one symbol per primitive type", (s == t) == (a == b));
    REACH("post");
}
#endif
#ifdef LEAF
void harness(void) {
    static const struct { int node, tag; } leaf[] = {{TINY_EXP_BREAK, VOID_}, {TINY_EXP_CONTINUE, VOID_}, {TINY_EXP_USE, VOID_}, {TINY_EXP_NULL, ANY_}, {TINY_EXP_BOOL, BOOL_},
                                                     {TINY_EXP_CHAR, INT_}, {TINY_EXP_INT, INT_}, {TINY_EXP_FLOAT, FLOAT_}, {TINY_EXP_STRING, STR_}};
    world();
    OK = true;
    switch (in_range(0, 8)) {
#define K(k) case k: E.type = leaf[k].node; WANT = T(leaf[k].tag); judge(); break;
        K(0) K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8)
    }
}
#endif
#ifdef ID
void harness(void) {
    world();
    E.type = TINY_EXP_ID;
    E.id.name = &NAME;
    SYM[2].type = in_bool() ? TINY_SYM_GLOBAL : in_bool() ? TINY_SYM_LOCAL : TINY_SYM_CONST;
    SYM[2].name = (char *)"x";
    WANT = any_tag();
    if (SYM[2].type == TINY_SYM_CONST) SYM[2].constant.tag = WANT; else SYM[2].var.tag = WANT;
    bool known = in_bool(), typed = SYM[2].type == TINY_SYM_CONST || in_bool(); /* untyped: its own initializer uses it */
    if (!typed) SYM[2].var.tag = NULL;
    OK = known && typed;
    E.id.sym = known ? &SYM[2] : NULL;
    judge();
}
#endif
#ifdef PAREN
void harness(void) { world(); E.type = TINY_EXP_PAREN; E.paren = part(0); OK = true; WANT = A; judge(); }
#endif
#ifdef ARITH
void harness(void) {
    world();
    OPERATORS(TINY_TOK_PLUS, TINY_TOK_MINUS, TINY_TOK_STAR, TINY_TOK_SLASH);
    OK = num(A) && num(B);
    WANT = isint(A) && isint(B) ? T(INT_) : T(FLOAT_);
    judge();
}
#endif
#ifdef BITS
void harness(void) { world(); OPERATORS(TINY_TOK_AND, TINY_TOK_OR, TINY_TOK_PERCENT, TINY_TOK_SHIFT_LEFT, TINY_TOK_SHIFT_RIGHT); OK = isint(A) && isint(B); WANT = T(INT_); judge(); }
#endif
#ifdef LOGIC
void harness(void) { world(); OPERATORS(TINY_TOK_LOG_AND, TINY_TOK_LOG_OR); OK = A == T(BOOL_) && B == T(BOOL_); WANT = T(BOOL_); judge(); }
#endif
#ifdef ORDER
void harness(void) { world(); OPERATORS(TINY_TOK_LT, TINY_TOK_GT, TINY_TOK_LTE, TINY_TOK_GTE); OK = num(A) && num(B); WANT = T(BOOL_); judge(); }
#endif
#ifdef EQUALITY
void harness(void) { world(); OPERATORS(TINY_TOK_EQUALS, TINY_TOK_NOTEQUALS); OK = A != T(VOID_) && B != T(VOID_); WANT = T(BOOL_); judge(); }
#endif
#ifdef DECLARE
void harness(void) {
    world();
    E.type = TINY_EXP_BINARY;
    E.binary.op = TINY_TOK_DECLARE;
    static Tiny_Symbol v;
    v.type = in_bool() ? TINY_SYM_GLOBAL : TINY_SYM_LOCAL;
    v.name = (char *)"v";
    CH[2].type = TINY_EXP_ID;
    CH[2].id.name = &NAME;
    CH[2].id.sym = &v;
    E.binary.lhs = &CH[2];
    E.binary.rhs = part(1);
    OK = B != T(VOID_);
    WANT = T(VOID_);
    judge();
    CHECK("the variable gets the type of its initializer", !OK || v.var.tag == B);
}
#endif
#ifdef ASSIGN
#define PLAIN_TARGET (E.binary.lhs->type != TINY_EXP_INDEX || !E.binary.lhs->index.setIndexFunc)
void harness(void) {
    world();
    OPERATORS(TINY_TOK_EQUAL, TINY_TOK_PLUSEQUAL, TINY_TOK_MINUSEQUAL, TINY_TOK_STAREQUAL, TINY_TOK_SLASHEQUAL, TINY_TOK_PERCENTEQUAL, TINY_TOK_OREQUAL, TINY_TOK_ANDEQUAL);
    int op = E.binary.op;
    OK = flows(B, A);
    if (op == TINY_TOK_PERCENTEQUAL || op == TINY_TOK_OREQUAL || op == TINY_TOK_ANDEQUAL) OK = OK && isint(A);
    else if (op != TINY_TOK_EQUAL) OK = OK && num(A);
#ifdef INDEXED /* container[key] = value is a call of the container's set_index function */
    bool foreign = in_bool(), varargs = foreign && in_bool();
    int n = (int)in_range(0, 4);
    CH[0].type = TINY_EXP_INDEX;
    CH[0].tag = A;
    CH[0].index.arr = &CH[2];
    CH[0].index.elem = &CH[3];
    CH[2].tag = any_tag();
    CH[3].tag = any_tag();
    FN.type = foreign ? TINY_SYM_FOREIGN_FUNCTION : TINY_SYM_FUNCTION;
    FN.name = (char *)"A_set_index";
    LIST.n = LIST.m = n;
    for (int i = 0; i < 4; i++) { ARG[i].type = TINY_SYM_LOCAL; ARG[i].var.tag = any_tag(); LIST.p[i] = foreign ? ARG[i].var.tag : &ARG[i]; }
    if (foreign) { FN.foreignFunc.argTags = LIST.p; FN.foreignFunc.varargs = varargs; } else FN.func.args = LIST.p;
    OK = OK && (n == 3 || (n < 3 && varargs)) && (n < 1 || flows(CH[2].tag, ARG[0].var.tag)) && (n < 2 || flows(CH[3].tag, ARG[1].var.tag)) && (n < 3 || flows(B, ARG[2].var.tag));
    bool has = in_bool(); /* without one code generation rejects the assignment */
    if (!has) OK = flows(B, A) && (op == TINY_TOK_EQUAL || isint(A) || (num(A) && op != TINY_TOK_PERCENTEQUAL && op != TINY_TOK_OREQUAL && op != TINY_TOK_ANDEQUAL));
    CH[0].index.setIndexFunc = has ? &FN : NULL;
#endif
    WANT = T(VOID_);
    judge();
}
#endif
#ifdef UNARY
void harness(void) {
    world();
    E.type = TINY_EXP_UNARY;
    E.unary.exp = part(0);
    E.unary.op = in_bool() ? TINY_TOK_MINUS : TINY_TOK_BANG;
    OK = E.unary.op == TINY_TOK_MINUS ? num(A) : A == T(BOOL_);
    WANT = A;
    judge();
}
#endif
#ifdef IFS
void harness(void) {
    world();
    E.type = TINY_EXP_IF;
    E.ifx.cond = part(0);
    E.ifx.body = part(1);
    E.ifx.alt = in_bool() ? part(2) : NULL;
    OK = A == T(BOOL_);
    WANT = T(VOID_);
    judge();
}
#endif
#ifdef WHILE
void harness(void) { world(); E.type = TINY_EXP_WHILE; E.whilex.cond = part(0); E.whilex.body = part(1); OK = A == T(BOOL_); WANT = T(VOID_); judge(); }
#endif
#ifdef FOR
void harness(void) {
    world();
    E.type = TINY_EXP_FOR;
    E.forx.init = part(1);
    E.forx.cond = part(0);
    E.forx.step = part(2);
    E.forx.body = part(3);
    OK = A == T(BOOL_);
    WANT = T(VOID_);
    judge();
}
#endif
#ifdef TERNARY
void harness(void) {
    world();
    E.type = TINY_EXP_IF_TERNARY;
    E.ifx.cond = part(0);
    E.ifx.body = part(1);
    E.ifx.alt = part(2);
    OK = A == T(BOOL_) && B == CTAG[2];
    WANT = B;
    judge();
}
#endif
#ifdef RETURN
void harness(void) {
    world();
    ASSUME(FUNC0 != NULL);
    bool has = in_bool();
    SYM[0].type = TINY_SYM_FUNCTION;
    Tiny_Symbol *r = any_tag();
    SYM[0].func.returnTag = r;
    E.type = TINY_EXP_RETURN;
    E.retExpr = has ? part(0) : NULL;
    OK = has ? flows(A, r) : r == T(VOID_);
    WANT = T(VOID_);
    judge();
}
#endif
#ifdef PROC
void harness(void) {
    world();
    SYM[1].type = TINY_SYM_FUNCTION;
    FUNC1 = &SYM[1];
    E.type = TINY_EXP_PROC;
    E.proc.decl = &SYM[1];
    E.proc.body = part(0);
    OK = true;
    WANT = T(VOID_);
    judge();
}
#endif
#ifdef CAST
void harness(void) {
    world();
    E.type = TINY_EXP_CAST;
    E.cast.value = part(0);
    E.cast.tag = WANT = any_tag();
    OK = A == T(ANY_) || WANT == T(ANY_);
    judge();
}
#endif
#ifdef DOT
static Tiny_Symbol *FIELD;
#ifndef VC_NATIVE
Tiny_Symbol *GetFieldTag_spec(Tiny_Symbol *s, const char *name, int *index) {
    CHECK("the field is looked up in the type of the value", s == A && name == NAME.value);
    return FIELD;
}
#endif
void harness(void) {
    world();
    E.type = TINY_EXP_DOT;
    E.dot.lhs = part(0);
    E.dot.field = &NAME;
    FIELD = in_bool() ? any_tag() : NULL;
#ifdef VC_NATIVE
    static Tiny_Symbol f;
    f.type = TINY_SYM_FIELD; f.name = (char *)"name"; f.fieldTag = FIELD;
    LIST.n = LIST.m = FIELD ? 1 : 0; LIST.p[0] = &f;
    P8.sstruct.fields = P9.sstruct.fields = LIST.p;
#endif
    OK = (A == T(STRUCT_A) || A == T(STRUCT_B)) && FIELD;
    WANT = FIELD;
    judge();
}
#endif
#ifdef INDEX
/* container[key] is a call of the function <type of the container>_get_index */
static Tiny_Symbol *GETS[NTAGS], *SETS[NTAGS];
static bool HAS, HAS_SET;
static int LOOKUP;
#ifndef VC_NATIVE
int snprintf_spec(char *buf, size_t n, const char *fmt, ...) {
    __builtin_va_list ap;
    __builtin_va_start(ap, fmt);
    const char *name = __builtin_va_arg(ap, const char *);
    __builtin_va_end(ap);
    CHECK("the name of the index function is made from the name of the type", name == A->name);
    CHECK("the name fits its buffer", n >= 16 && n <= 256);
    LOOKUP = !strcmp(fmt, "%s_get_index") ? 1 : !strcmp(fmt, "%s_set_index") ? 2 : 0;
    CHECK("it is a get_index or a set_index function", LOOKUP != 0);
    return (int)spec_range(0, 300);
}
Tiny_Symbol *ReferenceFunction_spec(Tiny_State *s, const char *name) { return LOOKUP == 1 ? (HAS ? &FN : NULL) : HAS_SET ? &FN2 : NULL; }
#endif
void harness(void) {
    world();
    E.type = TINY_EXP_INDEX;
    E.index.arr = part(0);
    E.index.elem = part(1);
    HAS = in_bool();
    HAS_SET = in_bool();
    bool foreign = in_bool(), varargs = foreign && in_bool();
    int n = (int)in_range(0, 4);
    FN.type = foreign ? TINY_SYM_FOREIGN_FUNCTION : TINY_SYM_FUNCTION;
    FN2.type = TINY_SYM_FUNCTION;
    LIST.n = LIST.m = n;
    for (int i = 0; i < 4; i++) { ARG[i].type = TINY_SYM_LOCAL; ARG[i].var.tag = any_tag(); LIST.p[i] = foreign ? ARG[i].var.tag : &ARG[i]; }
    WANT = any_tag();
    if (foreign) { FN.foreignFunc.argTags = LIST.p; FN.foreignFunc.varargs = varargs; FN.foreignFunc.returnTag = WANT; } else { FN.func.args = LIST.p; FN.func.returnTag = WANT; }
    OK = HAS && (n == 2 || (n < 2 && varargs)) && (n < 1 || flows(A, ARG[0].var.tag)) && (n < 2 || flows(B, ARG[1].var.tag));
#ifdef VC_NATIVE
    static char g[32], h[32];
    static struct { int m, n; Tiny_Symbol *p[2]; } syms;
    sprintf(g, "%s_get_index", A->name);
    sprintf(h, "%s_set_index", A->name);
    FN.name = g; FN2.name = h;
    if (HAS) syms.p[syms.n++] = &FN;
    if (HAS_SET) syms.p[syms.n++] = &FN2;
    ST.globalSymbols = syms.p;
#endif
    judge();
    CHECK("reading calls the get_index function", !OK || E.index.getIndexFunc == &FN);
    CHECK("writing calls the set_index function if there is one", !OK || E.index.setIndexFunc == (HAS_SET ? &FN2 : NULL));
}
#endif
#ifdef BLOCK /* any number of statements: the loop is cut at an arbitrary one */
static int CUT;
static bool LAST;
static void block_cut(Tiny_Expr **node) {
    if (CUT++ == 0) {
        CHECK("resolving starts with the first statement", *node == &CH[0]);
        if (in_bool()) return; /* the first statement itself */
        *node = part(1); /* or any other: its predecessors are resolved */
        CH[1].next = LAST ? NULL : part(2);
        CH[0].tag = CTAG[0];
    } else {
        Tiny_Expr *prev = CH[1].tag ? &CH[1] : &CH[0];
        CHECK("the statements are taken one after the other", *node == prev->next && prev->tag);
        REACH("loop");
        ASSUME(false);
    }
}
void harness(void) {
    world();
    E.type = TINY_EXP_BLOCK;
    LAST = in_bool();
    bool one = in_bool(), none = in_bool();
    E.blockHead = none ? NULL : part(0);
    if (!none && !one) CH[0].next = &CH[3];
#if !HOOKED
    if (!none && !one) CH[0].next = part(1);
#endif
    OK = true;
    WANT = T(VOID_);
    judge();
}
#endif
#ifdef ARGS /* a call with any number of arguments */
static Tiny_Symbol **TAGS; /* parameters; only the one under the cut is looked at */
static int N, CUT, AT;
static bool FOREIGN, VARARGS, LAST;
static bool fits(int i, Tiny_Symbol *t, Tiny_Symbol *param) { return i < N ? flows(t, param) : VARARGS; }
static Tiny_Symbol *PARAM;
static void args_cut(Tiny_Expr **node, int *i) {
    if (CUT++ == 0) {
        CHECK("arguments are counted from the first", *i == 0 && *node == &CH[0]);
        AT = (int)in_range(0, 1 << 20);
        *i = AT;
        PARAM = any_tag();
        if (FOREIGN) TAGS[AT < N ? AT : N] = PARAM;
        else { ARG[0].var.tag = PARAM; TAGS[AT < N ? AT : N] = &ARG[0]; }
        CH[0].next = LAST ? NULL : &CH[1];
        OK = fits(AT, CTAG[0], PARAM);
    } else {
        CHECK("an argument that breaks a rule is rejected", OK);
        CHECK("the next argument is checked against the next parameter", *i == AT + 1 && *node == &CH[1]);
        REACH("loop");
        ASSUME(false);
    }
}
#ifndef VC_NATIVE
Tiny_Symbol *ReferenceFunction_spec(Tiny_State *s, const char *name) {
    CHECK("the function is looked up by its name", name == NAME.value);
    return N < 0 ? NULL : &FN;
}
#endif
void harness(void) {
    world();
    FOREIGN = in_bool();
    VARARGS = FOREIGN && in_bool();
    LAST = in_bool();
    N = (int)in_range(-1, SMALL);
    E.type = TINY_EXP_CALL;
    E.call.calleeName = &NAME;
    FN.type = FOREIGN ? TINY_SYM_FOREIGN_FUNCTION : TINY_SYM_FUNCTION;
    FN.name = (char *)"name";
    WANT = any_tag();
    int n = (int)in_range(0, 3); /* arguments; with the loop cut: one, or none */
#if HOOKED
    if (n > 1) n = 1;
#endif
    E.call.argsHead = n > 0 ? part(0) : NULL;
    for (int k = 1; k < 3; k++) if (k < n) CH[k - 1].next = part(k);
#if HOOKED
    TAGS = malloc(sizeof(Tiny_Symbol *) * (size_t)(N < 0 ? 2 : N + 2));
    ((int *)TAGS)[0] = N;
    ((int *)TAGS)[1] = N;
    TAGS++;
    OK = N >= 0;
#else
    LIST.n = LIST.m = N;
    TAGS = LIST.p;
    OK = N >= 0;
    for (int i = 0; i < 4; i++) {
        ARG[i].type = TINY_SYM_LOCAL; ARG[i].var.tag = any_tag();
        TAGS[i] = FOREIGN ? ARG[i].var.tag : &ARG[i];
        if (i < n && OK) OK = fits(i, CTAG[i], ARG[i].var.tag);
    }
#endif
    if (FOREIGN) { FN.foreignFunc.argTags = TAGS; FN.foreignFunc.varargs = VARARGS; FN.foreignFunc.returnTag = WANT; } else { FN.func.args = TAGS; FN.func.returnTag = WANT; }
#ifdef VC_NATIVE
    static struct { int m, n; Tiny_Symbol *p[2]; } syms;
    syms.p[0] = &FN;
    syms.n = N >= 0;
    ST.globalSymbols = syms.p;
#endif
    judge();
}
#endif
#ifdef CTOR /* a constructor with any number of arguments, by position or by field name */
static Tiny_Symbol **FIELDS; /* the fields; only the one under the cut is looked at */
static int N, CUT, AT, PCUT, FCUT, FAT, FHIT;
static bool NAMED, LAST, PRESENT, DUP, MATCH;
static char S_CUR[2], S_SAME[2], S_OTHER[2], S_FIELD[2];
static Tiny_StringNode NHEAD, NCUR, NNEXT, NPREV, NPREV2;
static Tiny_StringNode *CUR;
static Tiny_Symbol *FTAG;
static void put_field(int i, bool hit) {
    ARG[0].type = TINY_SYM_FIELD;
    ARG[0].fieldTag = FTAG;
    ARG[0].name = hit ? S_SAME : S_OTHER;
    if (i >= 0 && i < N) FIELDS[i] = &ARG[0];
}
static void ctor_cut(Tiny_Expr **node, int *i, Tiny_StringNode **name) {
    if (CUT++ == 0) {
        CHECK("arguments are counted from the first", *i == 0 && *node == &CH[0] && *name == (NAMED ? &NHEAD : NULL));
        AT = (int)in_range(0, 1 << 20);
        *i = AT;
        CUR = AT == 0 ? &NHEAD : &NCUR;
        PRESENT = NAMED && (AT == 0 || in_bool());
        CUR->value = S_CUR;
        CUR->next = in_bool() ? &NNEXT : NULL;
        *name = PRESENT ? CUR : NULL;
        CH[0].next = LAST ? NULL : &CH[1];
        DUP = PRESENT && AT > 0 && in_bool();
        FHIT = (int)in_range(-1, SMALL);
        if (FHIT >= N) FHIT = -1;
        FTAG = any_tag();
        OK = AT < N && flows(CTAG[0], FTAG);
        if (NAMED) OK = OK && PRESENT && !DUP && FHIT >= 0;
        else put_field(AT, true);
        if (LAST) OK = OK && AT + 1 == N;
    } else {
        CHECK("an argument that breaks a rule is rejected", OK);
        CHECK("the next argument is checked against the next field", *i == AT + 1 && *node == &CH[1] && *name == (PRESENT ? CUR->next : NULL));
        REACH("loop");
        ASSUME(false);
    }
}
static void ctor_prev_cut(const Tiny_StringNode **prev) {
    if (PCUT++ == 0) {
        CHECK("names are compared with all names before", *prev == &NHEAD && AT > 0);
        bool here = DUP && in_bool(), last = !(DUP && !here) && in_bool();
        NPREV.value = here ? S_SAME : S_OTHER;
        NPREV.next = last ? CUR : &NPREV2;
        *prev = &NPREV;
        MATCH = here;
    } else {
        CHECK("a repeated name is rejected", !MATCH);
        CHECK("the next name is compared", *prev == &NPREV2);
        REACH("loop2");
        ASSUME(false);
    }
}
static void ctor_field_cut(int *j) {
    if (FCUT++ == 0) {
        CHECK("all fields are searched", *j == 0 && N > 0);
        FAT = (int)in_range(0, SMALL);
        ASSUME(FAT < N && (FHIT < 0 || FAT <= FHIT));
        *j = FAT;
        put_field(FAT, FAT == FHIT);
    } else {
        CHECK("the next field is searched", *j == FAT + 1 && FAT != FHIT);
        REACH("loop3");
        ASSUME(false);
    }
}
#ifndef VC_NATIVE
int strcmp_spec(const char *a, const char *b) { return a[0] == b[0] ? 0 : in_bool() ? 1 : -1; } /* names of one letter */
#endif
void harness(void) {
    world();
    NAMED = in_bool();
    LAST = in_bool();
    N = (int)in_range(0, SMALL);
    S_CUR[0] = S_SAME[0] = 'x'; S_OTHER[0] = 'y';
    E.type = TINY_EXP_CONSTRUCTOR;
    E.constructor.structTag = &P8;
    WANT = T(STRUCT_A);
    int n = (int)in_range(0, 3); /* arguments; with the loop cut: one, or none */
#if HOOKED
    if (n > 1) n = 1;
#endif
    E.constructor.argsHead = n > 0 ? part(0) : NULL;
    for (int k = 1; k < 3; k++) if (k < n) CH[k - 1].next = part(k);
    if (n == 0) NAMED = false;
    E.constructor.argNamesHead = NAMED ? &NHEAD : NULL;
#if HOOKED
    NHEAD.value = S_OTHER; NHEAD.next = &NPREV; /* looked at through the cuts */
    FIELDS = malloc(sizeof(Tiny_Symbol *) * (size_t)(N + 1));
    ((int *)FIELDS)[0] = N;
    ((int *)FIELDS)[1] = N;
    FIELDS++;
    OK = N == 0; /* with an argument: ctor_cut says */
#else
    static char nm[4][2] = {"p", "q", "r", "s"};
    static Tiny_StringNode names[3];
    LIST.n = LIST.m = N;
    FIELDS = LIST.p;
    OK = n == N;
    for (int i = 0; i < 3; i++) { ARG[i].type = TINY_SYM_FIELD; ARG[i].fieldTag = any_tag(); ARG[i].name = nm[i]; FIELDS[i] = &ARG[i]; }
    for (int i = 0; i < n && !NAMED; i++) if (i < N) OK = OK && flows(CTAG[i], ARG[i].fieldTag);
    if (NAMED) {
        int given = (int)in_range(1, 3), use[3];
        if (given > n) given = n;
        if (given < n) OK = false;
        static char copy[3][2];
        for (int i = 0; i < given; i++) {
            use[i] = (int)in_range(0, 3);
            copy[i][0] = nm[use[i]][0];
            names[i].value = copy[i];
            names[i].next = i + 1 < given ? &names[i + 1] : NULL;
            for (int k = 0; k < i; k++) if (use[k] == use[i]) OK = false;
            if (use[i] >= N) OK = false; else OK = OK && flows(CTAG[i], ARG[use[i]].fieldTag);
        }
        E.constructor.argNamesHead = &names[0];
    }
#endif
    P8.sstruct.fields = FIELDS;
    judge();
}
#endif
