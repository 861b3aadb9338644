/* CompileExpr under the contract of every expression: its code evaluates the operands it needs, in order, once, and
 * leaves exactly one value, the right one, on top of an otherwise unchanged stack. */
#include "vc.h"
#include "all_flat.h"
#include "codegen.h"

static char STRBUF[1];

static Tiny_Expr *E;
static void begin(int align, int nsyms) { world(align, nsyms); stack_setup(); E = &NODE[0]; FRESH(NODE[0]); FRESH(NODE[1]); E->lineNumber = 5; E->tag = NULL; E->next = NULL; }
#define TAG(t) GetPrimTag(TINY_SYM_TAG_##t)
#if defined(LIT_AT) && !defined(VC_NATIVE)
/* a literal is pushed by one of several instructions: take them (and the code's length) one at a time */
static bool run_lit(int n) {
    TH.pc = START;
    RAN = true;
    for (int i = 0; i < 4; i++) {
        if (TH.pc == START + n) return true;
        if (TH.pc != START && TH.pc != START + LIT_AT) return false;
        step();
    }
    return false;
}
static bool run_code(void) {
#define TRY(op) if (CODE.p[START + LIT_AT] == op) { CODE.p[START + LIT_AT] = op; return run_lit(n); }
    for (int n = 1; n <= 18; n++) if (CODE.n == START + n) {
        CODE.n = START + n;
#ifdef LIT_STR
        TRY(TINY_OP_PUSH_STRING) TRY(TINY_OP_PUSH_STRING_FF)
#else
        TRY(TINY_OP_PUSH_INT) TRY(TINY_OP_PUSH_0) TRY(TINY_OP_PUSH_1) TRY(TINY_OP_PUSH_CHAR)
#endif
        CHECK("the literal is pushed", false);
        return false;
    }
    CHECK("the literal's code is short", false);
    return false;
}
#else
#define run_code() execute(40)
#endif
/* compile, execute, check the shared part of the contract; the caller checks the value on top */
static void finish(const char *order) {
    REACH("pre");
#ifdef VC_NATIVE
    ST.compileCallNestCount = 1;
    if (setjmp(ST.compileErrorJmpBufs[0])) { CHECK("a valid node is not rejected", false); return; }
#endif
    VC_REAL_CompileExpr(&ST, E);
    CHECK("code is only appended", CODE.n >= START && CODE.n < NCODE);
    CHECK("execution arrives behind the expression's code", run_code());
    CHECK("exactly one value is left on the stack", TH.sp == SP0 + 1);
    CHECK("temporaries, locals and arguments are unchanged", below_unchanged(-1));
    CHECK("globals are unchanged", TH.globalVars == GV && same_bits(GV[GG], OLD_GG));
    CHECK("frames are unchanged", frame_ok());
    CHECK("operands are evaluated in order, each once", events(order));
    REACH("post");
}
#define R (TH.stack[SP0])

/* ---- leaves */
static void c_null(int al) { begin(al, 0); E->type = TINY_EXP_NULL; finish(""); CHECK("value", R.type == TINY_VAL_NULL); }
static void c_boolean(int al) { begin(al, 0); E->type = TINY_EXP_BOOL; bool b = al & 1; E->boolean = b; finish(""); CHECK("value", is_bool(R, b)); }
static void c_int0(int al) { begin(al, 0); E->type = al & 1 ? TINY_EXP_INT : TINY_EXP_CHAR; E->iValue = 0; finish(""); CHECK("value", is_int(R, 0)); }
static void c_int1(int al) { begin(al, 0); E->type = al & 1 ? TINY_EXP_INT : TINY_EXP_CHAR; E->iValue = 1; finish(""); CHECK("value", is_int(R, 1)); }
static void c_int(int al) { begin(al, 0); E->type = TINY_EXP_INT; int64_t v = (int64_t)in_u64(); ASSUME(v != 0 && v != 1); E->iValue = v; finish(""); CHECK("value", is_int(R, v)); }
static const int64_t SOME_INTS[8] = {2, -1, 127, 255, 256, INT64_MIN, INT64_MAX, 1LL << 32};
static void c_int_at(int al) { begin(al, 0); E->type = TINY_EXP_INT; int64_t v = SOME_INTS[al]; E->iValue = v; finish(""); CHECK("value", is_int(R, v)); }
static const int SOME_STRS[8] = {0, 1, 127, 128, 255, 256, 257, 1023};
static void c_str_at(int al) { begin(al, 0); E->type = TINY_EXP_STRING; int i = SOME_STRS[al]; ST.strings[i] = STRBUF; E->sIndex = i; finish(""); CHECK("value", R.type == TINY_VAL_CONST_STRING && R.cstr == STRBUF); }
static void c_char(int al) { begin(al, 0); E->type = TINY_EXP_CHAR; int64_t v = in_range(2, 255); E->iValue = v; finish(""); CHECK("value", is_int(R, v)); }
static void c_float(int al) { begin(al, 0); E->type = TINY_EXP_FLOAT; double f = in_f64(); E->fValue = f; finish(""); Tiny_Value w = mk_float(f); CHECK("value", same_bits(R, w)); }

static void c_str_small(int al) { begin(al, 0); E->type = TINY_EXP_STRING; int i = (int)in_range(0, 255); ST.strings[i] = STRBUF; E->sIndex = i; finish(""); CHECK("value", R.type == TINY_VAL_CONST_STRING && R.cstr == STRBUF); }
static void c_str_big(int al) { begin(al, 0); E->type = TINY_EXP_STRING; int i = (int)in_range(256, 1023); ST.strings[i] = STRBUF; E->sIndex = i; finish(""); CHECK("value", R.type == TINY_VAL_CONST_STRING && R.cstr == STRBUF); }
static Tiny_StringNode NM;
static void id_node(Tiny_SymbolType t) { NM.value = "x"; E->type = TINY_EXP_ID; E->id.name = &NM; E->id.sym = &SYM[0]; SYM[0].type = t; SYM[0].name = "x"; }
static void c_global(int al) { begin(al, 1); id_node(TINY_SYM_GLOBAL); SYM[0].var.index = GG; finish(""); CHECK("value", same_value(R, OLD_GG)); }
static void local_at(int al, int i) { begin(al, 1); id_node(TINY_SYM_LOCAL); SYM[0].var.index = i; finish(""); CHECK("value", same_value(R, OLDSTACK[FP0 + i])); }
static void c_local0(int al) { local_at(al, 0); }
static void c_arg(int al) { if (al & 1) local_at(al, -1); else local_at(al, -2); }
static void c_const_int(int al) { begin(al, 1); id_node(TINY_SYM_CONST); SYM[0].constant.tag = TAG(INT); int64_t v = (int64_t)in_u64(); ASSUME(v != 0 && v != 1); SYM[0].constant.iValue = v; finish(""); CHECK("value", is_int(R, v)); }
static void c_const_int01(int al) { begin(al, 1); id_node(TINY_SYM_CONST); SYM[0].constant.tag = TAG(INT); int v = al & 1; SYM[0].constant.iValue = v; finish(""); CHECK("value", is_int(R, v)); }
static void c_const_bool(int al) { begin(al, 1); id_node(TINY_SYM_CONST); SYM[0].constant.tag = TAG(BOOL); bool v = al & 1; SYM[0].constant.bValue = v; finish(""); CHECK("value", is_bool(R, v)); }
static void c_const_float(int al) { begin(al, 1); id_node(TINY_SYM_CONST); SYM[0].constant.tag = TAG(FLOAT); double f = in_f64(); SYM[0].constant.fValue = f; finish(""); Tiny_Value w = mk_float(f); CHECK("value", same_bits(R, w)); }
static void c_const_str(int al) { begin(al, 1); id_node(TINY_SYM_CONST); SYM[0].constant.tag = TAG(STR); int i = SOME_STRS[al]; ST.strings[i] = STRBUF; SYM[0].constant.sIndex = i; finish(""); CHECK("value", R.type == TINY_VAL_CONST_STRING && R.cstr == STRBUF); }

/* ---- operators */
static void bin(int al, int op, Tiny_Symbol *lt, Tiny_Symbol *rt) {
    begin(al, 0);
    E->type = TINY_EXP_BINARY;
    E->binary.op = op;
    mk_probe(0, lt);
    mk_probe(1, rt);
    E->binary.lhs = &PB[0];
    E->binary.rhs = &PB[1];
    E->tag = lt;
}
#define A VALUE[0]
#define B VALUE[1]
#define BIN(name, tok, ina, inb, pre, lt, rt, value) \
    static void c_##name(int al) { bin(al, TINY_TOK_##tok, TAG(lt), TAG(rt)); A = ina; B = inb; ASSUME(pre); finish("01"); CHECK("value", value); }
#define NI mk_int(in_u64())
#define NF mk_float(in_f64())
/* operand values that tell the arithmetic instructions apart; each instruction's result for all values is its own (vm_*) obligation */
static const int64_t SOME_A[8] = {7, -7, 1000003, INT64_MAX, INT64_MIN, 5, 0, -1}, SOME_B[8] = {2, 3, -17, 10, 3, -3, 9, 2};
static const double SOME_F[8] = {7.5, -0.25, 1e300, 1e-3, -1e-5, 0.1, 1e10, 6}, SOME_G[8] = {2, 3.5, -17, 1e-3, 0.5, -3, 9, 4};
#define SI mk_int(SOME_A[al])
#define SJ mk_int(SOME_B[al])
#define SF mk_float(SOME_F[al])
#define SG mk_float(SOME_G[al])
#define ARITH(name, tok, sym) \
    BIN(name##_ii, tok, NI, NI, true, INT, INT, is_int(R, (uint64_t)A.i sym (uint64_t)B.i)) \
    BIN(name##_ff, tok, SF, SG, true, FLOAT, FLOAT, is_float(R, A.f sym B.f)) \
    BIN(name##_if, tok, SI, SG, true, INT, FLOAT, is_float(R, (double)A.i sym B.f)) \
    BIN(name##_fi, tok, SF, SJ, true, FLOAT, INT, is_float(R, A.f sym (double)B.i))
ARITH(add, PLUS, +)
ARITH(sub, MINUS, -)
ARITH(mul, STAR, *)
BIN(mul_some, STAR, SI, SJ, true, INT, INT, is_int(R, (uint64_t)A.i * (uint64_t)B.i))
#define DIVPRE (B.i != 0 && !(B.i == -1 && A.i == INT64_MIN))
BIN(div_ii, SLASH, SI, SJ, true, INT, INT, is_int(R, (uint64_t)(A.i / B.i)))
BIN(div_ff, SLASH, SF, SG, true, FLOAT, FLOAT, is_float(R, A.f / B.f))
BIN(mod, PERCENT, SI, SJ, true, INT, INT, is_int(R, (uint64_t)(A.i % B.i)))
BIN(bor, OR, NI, NI, true, INT, INT, is_int(R, (uint64_t)(A.i | B.i)))
BIN(band, AND, NI, NI, true, INT, INT, is_int(R, (uint64_t)(A.i & B.i)))
BIN(shl, SHIFT_LEFT, NI, NI, B.i >= 0 && B.i < 64, INT, INT, is_int(R, (uint64_t)A.i << B.i))
BIN(shr, SHIFT_RIGHT, NI, NI, B.i >= 0 && B.i < 64, INT, INT, is_int(R, (uint64_t)(A.i >> B.i)))
#define CMP(name, tok, sym) \
    BIN(name##_ii, tok, NI, NI, true, INT, INT, is_bool(R, A.i sym B.i)) \
    BIN(name##_ff, tok, SF, SG, true, FLOAT, FLOAT, is_bool(R, A.f sym B.f))
CMP(lt, LT, <)
CMP(gt, GT, >)
CMP(lte, LTE, <=)
CMP(gte, GTE, >=)
BIN(equ, EQUALS, NI, NI, true, INT, INT, is_bool(R, A.i == B.i))
BIN(neq, NOTEQUALS, NI, NI, true, INT, INT, is_bool(R, A.i != B.i))
static void with_literal(int al, int op, Tiny_Symbol *lt, int64_t lit) {
    bin(al, op, lt, NULL);
    NODE[1].type = TINY_EXP_INT;
    NODE[1].iValue = lit;
    NODE[1].tag = TAG(INT);
    NODE[1].next = NULL;
    E->binary.rhs = &NODE[1];
}
static void c_add_lit1(int al) { with_literal(al, TINY_TOK_PLUS, TAG(INT), 1); A = NI; finish("0"); CHECK("value", is_int(R, (uint64_t)A.i + 1)); }
static void c_sub_lit1(int al) { with_literal(al, TINY_TOK_MINUS, TAG(INT), 1); A = NI; finish("0"); CHECK("value", is_int(R, (uint64_t)A.i - 1)); }
static void c_add_lit_at(int al) { with_literal(al, TINY_TOK_PLUS, TAG(INT), SOME_INTS[al]); A = NI; finish("0"); CHECK("value", is_int(R, (uint64_t)A.i + (uint64_t)SOME_INTS[al])); }
static void c_sub_lit_at(int al) { with_literal(al, TINY_TOK_MINUS, TAG(INT), SOME_INTS[al]); A = NI; finish("0"); CHECK("value", is_int(R, (uint64_t)A.i - (uint64_t)SOME_INTS[al])); }
static void c_fadd_lit1(int al) { with_literal(al, TINY_TOK_PLUS, TAG(FLOAT), 1); A = SF; finish("0"); CHECK("value", is_float(R, A.f + 1.0)); }
static void c_fsub_lit1(int al) { with_literal(al, TINY_TOK_MINUS, TAG(FLOAT), 1); A = SF; finish("0"); CHECK("value", is_float(R, A.f - 1.0)); }

static void c_and_f(int al) { bin(al, TINY_TOK_LOG_AND, TAG(BOOL), TAG(BOOL)); A = mk_bool(false); B = mk_bool(true); finish("0"); CHECK("value", is_bool(R, false)); }
static void c_and_t(int al) { bin(al, TINY_TOK_LOG_AND, TAG(BOOL), TAG(BOOL)); A = mk_bool(true); B = mk_bool(in_bool()); finish("01"); CHECK("value", is_bool(R, B.boolean)); }
static void c_or_t(int al) { bin(al, TINY_TOK_LOG_OR, TAG(BOOL), TAG(BOOL)); A = mk_bool(true); B = mk_bool(false); finish("0"); CHECK("value", is_bool(R, true)); }
static void c_or_f(int al) { bin(al, TINY_TOK_LOG_OR, TAG(BOOL), TAG(BOOL)); A = mk_bool(false); B = mk_bool(in_bool()); finish("01"); CHECK("value", is_bool(R, B.boolean)); }
static void tern(int al, bool c) {
    begin(al, 0);
    E->type = TINY_EXP_IF_TERNARY;
    mk_probe(0, TAG(BOOL));
    mk_probe(1, TAG(ANY));
    mk_probe(2, TAG(ANY));
    E->ifx.cond = &PB[0];
    E->ifx.body = &PB[1];
    E->ifx.alt = &PB[2];
    VALUE[0] = mk_bool(c);
    VALUE[1] = in_value();
    VALUE[2] = in_value();
    finish(c ? "01" : "02");
    CHECK("value", same_value(R, VALUE[c ? 1 : 2]));
}
static void c_tern_t(int al) { tern(al, true); }
static void c_tern_f(int al) { tern(al, false); }
static void un(int al, int op, Tiny_Symbol *t) { begin(al, 0); E->type = TINY_EXP_UNARY; E->unary.op = op; mk_probe(0, t); E->unary.exp = &PB[0]; E->tag = t; }
static void c_neg_lit(int al) { un(al, TINY_TOK_MINUS, TAG(INT)); int64_t k = (int64_t)in_u64(); ASSUME(k != 0 && k != 1); NODE[1].type = TINY_EXP_INT; NODE[1].iValue = k; NODE[1].tag = TAG(INT); E->unary.exp = &NODE[1]; finish(""); CHECK("value", is_int(R, -(uint64_t)k)); }
static void c_neg_lit01(int al) { un(al, TINY_TOK_MINUS, TAG(INT)); int64_t k = al & 1; NODE[1].type = TINY_EXP_INT; NODE[1].iValue = k; NODE[1].tag = TAG(INT); E->unary.exp = &NODE[1]; finish(""); CHECK("value", is_int(R, -(uint64_t)k)); }
static void c_neg_int(int al) { un(al, TINY_TOK_MINUS, TAG(INT)); A = NI; finish("0"); CHECK("value", is_int(R, -(uint64_t)A.i)); }
static void c_neg_float(int al) { un(al, TINY_TOK_MINUS, TAG(FLOAT)); A = NF; finish("0"); CHECK("value", is_float(R, -A.f)); }
static void c_not(int al) { un(al, TINY_TOK_BANG, TAG(BOOL)); A = mk_bool(in_bool()); finish("0"); CHECK("value", is_bool(R, !A.boolean)); }
static void c_paren(int al) { begin(al, 0); E->type = TINY_EXP_PAREN; mk_probe(0, TAG(ANY)); E->paren = &PB[0]; A = in_value(); finish("0"); CHECK("value", same_value(R, A)); }
static void c_cast(int al) { begin(al, 0); E->type = TINY_EXP_CAST; mk_probe(0, TAG(ANY)); E->cast.value = &PB[0]; E->tag = E->cast.tag = TAG(INT); A = in_value(); finish("0"); CHECK("value", same_value(R, A)); }

/* ---- fields, structs */
static struct { int m, n; Tiny_Symbol *p[4]; } FIELDS, ARGSYM;
static const char *FNAMES[3] = {"ab", "a", "b"};
static void struct_sym(Tiny_Symbol *s) {
    s->name = "S";
    for (int i = 0; i < 3; i++) {
        SYM[4 + i].type = TINY_SYM_FIELD;
        SYM[4 + i].name = (char *)FNAMES[i];
        SYM[4 + i].fieldTag = TAG(ANY);
        FIELDS.p[i] = &SYM[4 + i];
    }
    FIELDS.m = 4;
    FIELDS.n = 3;
    set_struct(s, FIELDS.p);
}
static Tiny_Value OBJV;
static Tiny_Object *mk_struct(void) {
    Tiny_Object *o = malloc(sizeof(Tiny_Object) + 3 * sizeof(Tiny_Value));
    o->type = TINY_VAL_STRUCT;
    o->ostruct.n = 3;
    for (int i = 0; i < 3; i++) o->ostruct.fields[i] = in_value();
    return o;
}
static void dot(int al, int f) {
    begin(al, 1);
    struct_sym(&SYM[0]);
    E->type = TINY_EXP_DOT;
    mk_probe(0, &SYM[0]);
    NM.value = (char *)FNAMES[f];
    E->dot.lhs = &PB[0];
    E->dot.field = &NM;
    E->tag = TAG(ANY);
    Tiny_Object *o = mk_struct();
    Tiny_Value v;
    v.type = TINY_VAL_STRUCT;
    v.obj = o;
    A = v;
    Tiny_Value want = o->ostruct.fields[f];
    finish("0");
    CHECK("value", same_value(R, want));
}
static void c_dot0(int al) { dot(al, 0); }
static void c_dot1(int al) { dot(al, 1); }
static void c_dot2(int al) { dot(al, 2); }
static void *heap(void *p, size_t n, void *u) { return malloc(n); }
static void construct(int al, int p0, int p1, int p2, bool named) {
    static Tiny_StringNode names[3];
    begin(al, 1);
    struct_sym(&SYM[0]);
    E->type = TINY_EXP_CONSTRUCTOR;
    E->constructor.structTag = &SYM[0];
    E->tag = &SYM[0];
    int perm[3] = {p0, p1, p2};
    for (int i = 0; i < 3; i++) {
        mk_probe(i, TAG(ANY));
        VALUE[i] = in_value();
        names[i].value = (char *)FNAMES[perm[i]];
        names[i].next = i < 2 ? &names[i + 1] : NULL;
    }
    PB[0].next = &PB[1];
    PB[1].next = &PB[2];
    E->constructor.argsHead = &PB[0];
    E->constructor.argNamesHead = named ? &names[0] : NULL;
    TH.ctx.alloc = heap;
    TH.gcHead = NULL;
    REACH("pre");
    VC_REAL_CompileExpr(&ST, E);
    CHECK("execution arrives behind the expression's code", execute(40));
    CHECK("exactly one value is left on the stack", TH.sp == SP0 + 1);
    CHECK("temporaries, locals and arguments are unchanged", below_unchanged(-1));
    CHECK("frames are unchanged", frame_ok());
    CHECK("every field expression is evaluated exactly once", NEV == 3 && EV[0] + EV[1] + EV[2] == 3 && EV[0] != EV[1] && EV[1] != EV[2] && EV[0] != EV[2]);
    CHECK("a new object of the right size", R.type == TINY_VAL_STRUCT && R.obj == TH.gcHead && R.obj->type == TINY_VAL_STRUCT && R.obj->ostruct.n == 3);
    for (int i = 0; i < 3; i++) CHECK("field values", same_value(R.obj->ostruct.fields[perm[i]], VALUE[i]));
    REACH("post");
}
static void c_new(int al) { construct(al, 0, 1, 2, false); }
static void c_new_012(int al) { construct(al, 0, 1, 2, true); }
static void c_new_021(int al) { construct(al, 0, 2, 1, true); }
static void c_new_102(int al) { construct(al, 1, 0, 2, true); }
static void c_new_120(int al) { construct(al, 1, 2, 0, true); }
static void c_new_201(int al) { construct(al, 2, 0, 1, true); }
static void c_new_210(int al) { construct(al, 2, 1, 0, true); }

/* ---- calls */
static void fn_syms_v(int nargs, bool varargs) {
    SYM[0].name = "host";
    SYM[1].name = "hos";
    for (int i = 0; i < 4; i++) ARGSYM.p[i] = TAG(ANY);
    ARGSYM.m = 4;
    ARGSYM.n = nargs;
    set_foreign(&SYM[0], 1, nargs ? ARGSYM.p : NULL, varargs, TAG(ANY));
    set_func(&SYM[1], 2, nargs ? ARGSYM.p : NULL, NULL, TAG(ANY));
}
static void fn_syms(int nargs) { fn_syms_v(nargs, false); }
static bool args_ok(bool script, int n) {
    if ((script ? FN_COUNT : F_COUNT) != n) return false;
    for (int i = 0; i < n; i++) if (!same_value(script ? FN_ARGS[i] : F_ARGS[i], VALUE[i])) return false;
    return true;
}
static void mk_args(int n) {
    for (int i = 0; i < n; i++) { mk_probe(i, TAG(ANY)); VALUE[i] = in_value(); }
    for (int i = 0; i + 1 < n; i++) PB[i].next = &PB[i + 1];
}
static void call(int al, bool script, int n) {
    static const char *const order[2][4] = {{"9", "09", "019", "0129"}, {"8", "08", "018", "0128"}};
    begin(al, 2);
    fn_syms(n);
    E->type = TINY_EXP_CALL;
    NM.value = script ? "hos" : "host";
    E->call.calleeName = &NM;
    mk_args(n);
    E->call.argsHead = n ? &PB[0] : NULL;
    finish(order[script][n]);
    CHECK("the callee sees exactly the arguments", args_ok(script, n));
    CHECK("the callee starts on a fresh frame above its arguments", !script || FN_SP == SP0 + n);
    CHECK("value", same_value(R, script ? FN_RESULT : F_RESULT));
}
static void c_callf0(int al) { call(al, false, 0); }
static void c_callf1(int al) { call(al, false, 1); }
static void c_callf3(int al) { call(al, false, 3); }
static void c_call0(int al) { call(al, true, 0); }
static void c_call1(int al) { call(al, true, 1); }
static void c_call3(int al) { call(al, true, 3); }
static void c_callv(int al) { /* varargs: more than declared */
    begin(al, 2);
    fn_syms_v(1, true);
    E->type = TINY_EXP_CALL;
    NM.value = "host";
    E->call.calleeName = &NM;
    mk_args(2);
    E->call.argsHead = &PB[0];
    finish("019");
    CHECK("the callee sees exactly the arguments", args_ok(false, 2));
    CHECK("value", same_value(R, F_RESULT));
}
static void index_(int al, bool script) {
    begin(al, 2);
    fn_syms(2);
    mk_args(2);
    PB[0].next = NULL;
    E->type = TINY_EXP_INDEX;
    E->index.arr = &PB[0];
    E->index.elem = &PB[1];
    E->index.getIndexFunc = &SYM[script];
    finish(script ? "018" : "019");
    CHECK("the accessor sees container and index", args_ok(script, 2));
    CHECK("value", same_value(R, script ? FN_RESULT : F_RESULT));
}
static void c_index_f(int al) { index_(al, false); }
static void c_index_s(int al) { index_(al, true); }
/* calls that must be rejected */
static void reject_call(int al, bool script, int declared, int given, bool varargs) {
    begin(al, 2);
    fn_syms_v(declared, varargs);
    E->type = TINY_EXP_CALL;
    NM.value = script ? "hos" : "host";
    E->call.calleeName = &NM;
    mk_args(given);
    E->call.argsHead = given ? &PB[0] : NULL;
    EXPECT_ERROR = true;
#ifdef VC_NATIVE
    ST.compileCallNestCount = 1;
    if (setjmp(ST.compileErrorJmpBufs[0])) return;
#endif
    VC_REAL_CompileExpr(&ST, E);
    CHECK("a call with the wrong number of arguments is rejected", false);
}
static void c_rej_few(int al) { reject_call(al, true, 2, 1, false); }
static void c_rej_many(int al) { reject_call(al, true, 1, 2, false); }
static void c_rej_ffew(int al) { reject_call(al, false, 2, 1, false); }
static void c_rej_fmany(int al) { reject_call(al, false, 1, 2, false); }
static void c_rej_var(int al) { reject_call(al, false, 2, 1, true); }
static void c_rej_undef(int al) { begin(al, 2); fn_syms(0); E->type = TINY_EXP_CALL; NM.value = "ho"; E->call.calleeName = &NM; E->call.argsHead = NULL; EXPECT_ERROR = true;
#ifdef VC_NATIVE
    ST.compileCallNestCount = 1;
    if (setjmp(ST.compileErrorJmpBufs[0])) return;
#endif
    VC_REAL_CompileExpr(&ST, E);
    CHECK("a call of an unknown function is rejected", false); }

#include "cases.h"
