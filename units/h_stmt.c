/* CompileStatement (and PatchBreakContinue, CompileProgram) under the contract of every statement: its code runs the
 * parts it should, in order, and arrives behind its last byte at the stack height it found, with only the assigned
 * variable changed; break, continue and return leave it where they must. */
#include "vc.h"
#include "all_flat.h"
#define STATE_SCALARS
#include "codegen.h"

static Tiny_Expr *E;
static Tiny_StringNode NM;
#define TAG(t) GetPrimTag(TINY_SYM_TAG_##t)
static void begin(int align, int nsyms) {
    world(align, nsyms);
    stack_setup();
    for (int i = 0; i < 5; i++) { FRESH(NODE[i]); NODE[i].lineNumber = 5; NODE[i].tag = NULL; NODE[i].next = NULL; }
    E = &NODE[0];
    for (int k = 0; k < NP; k++) for (int v = 0; v < 4; v++) OUTCOME[k][v] = FALL;
    CONDK = -1;
    CONDN = 0;
    RECORD_PATCH = false;
}
static int SETLOCAL = -1;
static bool GLOBAL_SET;
#ifdef VC_NATIVE
#define COMPILE() \
    ST.compileCallNestCount = 1; \
    if (setjmp(ST.compileErrorJmpBufs[0])) { CHECK("a valid node is not rejected", EXPECT_ERROR); return; } \
    VC_REAL_CompileStatement(&ST, E)
#else
#define COMPILE() VC_REAL_CompileStatement(&ST, E)
#endif
static bool arrives, finished;
static void run(int steps, const char *order) {
    CHECK("code is only appended", CODE.n >= START && CODE.n < NCODE);
    arrives = execute(steps);
    CHECK("the parts run in order", events(order));
    CHECK("globals are unchanged", TH.globalVars == GV && (GLOBAL_SET || same_bits(GV[GG], OLD_GG)));
    REACH("post");
}
static void falls(const char *order) {
    REACH("pre");
    COMPILE();
    run(60, order);
    CHECK("execution arrives behind the statement's code", arrives && !RETURNED);
    CHECK("nothing is left on the stack", TH.sp == SP0);
    CHECK("temporaries, locals and arguments are unchanged", below_unchanged(SETLOCAL));
    CHECK("frames are unchanged", frame_ok());
    finished = true;
}
static void returns(const char *order) {
    REACH("pre");
    COMPILE();
    run(60, order);
    CHECK("the statement returned", RETURNED && !arrives);
}
static void rejected(void) {
    EXPECT_ERROR = true;
    REACH("pre");
    COMPILE();
    CHECK("an invalid statement is rejected", false);
}

/* ---- simple statements */
static struct { int m, n; Tiny_Symbol *p[6]; } ARGSYM, LOCSYM;
static void fn_syms(int nargs) {
    SYM[0].name = "host";
    SYM[1].name = "hos";
    for (int i = 0; i < 4; i++) ARGSYM.p[i] = TAG(ANY);
    ARGSYM.m = 6;
    ARGSYM.n = nargs;
    set_foreign(&SYM[0], 1, nargs ? ARGSYM.p : NULL, false, TAG(ANY));
    set_func(&SYM[1], 2, nargs ? ARGSYM.p : NULL, NULL, TAG(ANY));
}
static void call(int al, bool script) {
    begin(al, 2);
    fn_syms(1);
    E->type = TINY_EXP_CALL;
    E->lineNumber = 5;
    NM.value = script ? "hos" : "host";
    E->call.calleeName = &NM;
    mk_probe(0, TAG(ANY));
    VALUE[0] = in_value();
    E->call.argsHead = &PB[0];
    falls(script ? "08" : "09");
    CHECK("the argument is passed", same_value(script ? FN_ARGS[0] : F_ARGS[0], VALUE[0]));
}
static void c_callf(int al) { call(al, false); }
static void c_call(int al) { call(al, true); }
static void c_use(int al) { begin(al, 0); E->type = TINY_EXP_USE; falls(""); }
static void block(int n) {
    E->type = TINY_EXP_BLOCK;
    E->blockHead = n ? &PB[0] : NULL;
    for (int i = 0; i < n; i++) mk_stmt(i, NULL);
    for (int i = 0; i + 1 < n; i++) PB[i].next = &PB[i + 1];
}
static void c_block0(int al) { begin(al, 0); block(0); falls(""); }
static void c_block3(int al) { begin(al, 0); block(3); falls("012"); }
static void c_block_ret(int al) { begin(al, 0); OUTCOME[1][0] = RETURNS; block(3); returns("01"); }

/* ---- assignment */
static void assign(int al, int op) {
    begin(al, 3);
    E->type = TINY_EXP_BINARY;
    E->binary.op = op;
    E->binary.lhs = &NODE[1];
    mk_probe(0, TAG(INT));
    E->binary.rhs = &PB[0];
}
static void to_id(Tiny_SymbolType t, int index) {
    NODE[1].type = TINY_EXP_ID;
    NM.value = "x";
    NODE[1].id.name = &NM;
    NODE[1].id.sym = &SYM[2];
    NODE[1].tag = TAG(INT);
    SYM[2].type = t;
    SYM[2].name = "x";
    SYM[2].var.index = index;
    SYM[2].var.tag = TAG(INT);
}
static void assign_global(int al, int op) {
    assign(al, op);
    to_id(TINY_SYM_GLOBAL, GG);
    GLOBAL_SET = true;
    VALUE[0] = in_value();
    falls("0");
    CHECK("the variable has the value", same_value(GV[GG], VALUE[0]));
}
static void c_set_global(int al) { assign_global(al, TINY_TOK_EQUAL); }
static void c_decl_global(int al) { assign_global(al, TINY_TOK_DECLARE); }
static void assign_local(int al, int op, int index) {
    assign(al, op);
    to_id(TINY_SYM_LOCAL, index);
    SETLOCAL = FP0 + index;
    VALUE[0] = in_value();
    falls("0");
    CHECK("the variable has the value", same_value(TH.stack[FP0 + index], VALUE[0]));
}
static void c_set_local(int al) { assign_local(al, TINY_TOK_EQUAL, 0); }
static void c_decl_local(int al) { assign_local(al, TINY_TOK_DECLARE, 0); }
static void c_set_arg(int al) { assign_local(al, TINY_TOK_EQUAL, al & 1 ? -1 : -2); }
static void c_declconst(int al) { assign(al, TINY_TOK_DECLARECONST); to_id(TINY_SYM_CONST, 0); falls(""); }
static const int64_t OLDV[8] = {7, -7, 1000003, INT64_MAX, INT64_MIN, 5, 0, -1}, RHSV[8] = {2, 3, -17, 10, 3, -3, 9, 2};
static Tiny_Value compound_result(int op, int64_t a, int64_t b) {
    uint64_t r = op == TINY_TOK_PLUSEQUAL ? (uint64_t)a + b : op == TINY_TOK_MINUSEQUAL ? (uint64_t)a - b : op == TINY_TOK_STAREQUAL ? (uint64_t)a * b
               : op == TINY_TOK_SLASHEQUAL ? a / b : op == TINY_TOK_PERCENTEQUAL ? a % b : op == TINY_TOK_ANDEQUAL ? a & b : a | b;
    return mk_int((int64_t)r);
}
static void compound_local(int al, int op) {
    assign(al, op);
    to_id(TINY_SYM_LOCAL, 0);
    SETLOCAL = FP0;
    TH.stack[FP0] = OLDSTACK[FP0] = mk_int(OLDV[al]);
    VALUE[0] = mk_int(RHSV[al]);
    falls("0");
    CHECK("the variable has the value", same_value(TH.stack[FP0], compound_result(op, OLDV[al], RHSV[al])));
}
static void compound_global(int al, int op) {
    assign(al, op);
    to_id(TINY_SYM_GLOBAL, GG);
    GLOBAL_SET = true;
    GV[GG] = OLD_GG = mk_int(OLDV[al]);
    VALUE[0] = mk_int(RHSV[al]);
    falls("0");
    CHECK("the variable has the value", same_value(GV[GG], compound_result(op, OLDV[al], RHSV[al])));
}
#define COMPOUND(name, tok) \
    static void c_##name##_l(int al) { compound_local(al, TINY_TOK_##tok); } \
    static void c_##name##_g(int al) { compound_global(al, TINY_TOK_##tok); }
COMPOUND(add, PLUSEQUAL)
COMPOUND(sub, MINUSEQUAL)
COMPOUND(mul, STAREQUAL)
COMPOUND(div, SLASHEQUAL)
COMPOUND(mod, PERCENTEQUAL)
COMPOUND(and, ANDEQUAL)
COMPOUND(or, OREQUAL)
static void inc(int al, int op, bool flt) {
    assign(al, op);
    to_id(TINY_SYM_LOCAL, 0);
    NODE[1].tag = SYM[2].var.tag = flt ? TAG(FLOAT) : TAG(INT);
    NODE[2].type = TINY_EXP_INT;
    NODE[2].iValue = 1;
    NODE[2].tag = TAG(INT);
    E->binary.rhs = &NODE[2];
    SETLOCAL = FP0;
    TH.stack[FP0] = OLDSTACK[FP0] = flt ? mk_float(2.5) : mk_int((int64_t)in_u64());
    falls("");
    double f = op == TINY_TOK_PLUSEQUAL ? 3.5 : 1.5;
    int64_t d = op == TINY_TOK_PLUSEQUAL ? 1 : -1;
    CHECK("the variable has the value", flt ? is_float(TH.stack[FP0], f) : is_int(TH.stack[FP0], (uint64_t)OLDSTACK[FP0].i + d));
}
static void c_inc_i(int al) { inc(al, TINY_TOK_PLUSEQUAL, false); }
static void c_dec_i(int al) { inc(al, TINY_TOK_MINUSEQUAL, false); }
static void c_inc_f(int al) { inc(al, TINY_TOK_PLUSEQUAL, true); }
static void c_dec_f(int al) { inc(al, TINY_TOK_MINUSEQUAL, true); }
static struct { int m, n; Tiny_Symbol *p[4]; } FIELDS;
static const char *FNAMES[3] = {"ab", "a", "b"};
static Tiny_Object *OBJ;
static Tiny_Value OLDF[3];
static void to_field(int f) {
    SYM[0].name = "S";
    for (int i = 0; i < 3; i++) {
        SYM[4 + i].type = TINY_SYM_FIELD;
        SYM[4 + i].name = (char *)FNAMES[i];
        SYM[4 + i].fieldTag = TAG(ANY);
        FIELDS.p[i] = &SYM[4 + i];
    }
    FIELDS.m = 4;
    FIELDS.n = 3;
    set_struct(&SYM[0], FIELDS.p);
    mk_probe(1, &SYM[0]);
    NM.value = (char *)FNAMES[f];
    NODE[1].type = TINY_EXP_DOT;
    NODE[1].dot.lhs = &PB[1];
    NODE[1].dot.field = &NM;
    NODE[1].tag = TAG(ANY);
    OBJ = malloc(sizeof(Tiny_Object) + 3 * sizeof(Tiny_Value));
    OBJ->type = TINY_VAL_STRUCT;
    OBJ->ostruct.n = 3;
    for (int i = 0; i < 3; i++) OBJ->ostruct.fields[i] = OLDF[i] = in_value();
    Tiny_Value v;
    v.type = TINY_VAL_STRUCT;
    v.obj = OBJ;
    VALUE[1] = v;
}
static void set_field(int al, int f) {
    assign(al, TINY_TOK_EQUAL);
    to_field(f);
    VALUE[0] = in_value();
    falls(NEV == 2 && EV[0] == 1 ? "10" : "01");
    CHECK("the field has the value", same_value(OBJ->ostruct.fields[f], VALUE[0]));
    for (int i = 0; i < 3; i++) CHECK("other fields are unchanged", i == f || same_bits(OBJ->ostruct.fields[i], OLDF[i]));
}
static void c_field0(int al) { set_field(al, 0); }
static void c_field1(int al) { set_field(al, 1); }
static void c_field2(int al) { set_field(al, 2); }
static void c_field_add(int al) {
    assign(al, TINY_TOK_PLUSEQUAL);
    to_field(1);
    OBJ->ostruct.fields[1] = mk_int(OLDV[al]);
    VALUE[0] = mk_int(RHSV[al]);
    falls("101");
    CHECK("the field has the value", is_int(OBJ->ostruct.fields[1], (uint64_t)OLDV[al] + (uint64_t)RHSV[al]));
    CHECK("other fields are unchanged", same_bits(OBJ->ostruct.fields[0], OLDF[0]) && same_bits(OBJ->ostruct.fields[2], OLDF[2]));
}
static void set_index(int al, bool script) {
    assign(al, TINY_TOK_EQUAL);
    fn_syms(3);
    mk_probe(1, TAG(ANY));
    mk_probe(2, TAG(ANY));
    NODE[1].type = TINY_EXP_INDEX;
    NODE[1].index.arr = &PB[1];
    NODE[1].index.elem = &PB[2];
    NODE[1].index.setIndexFunc = &SYM[script];
    NODE[1].index.getIndexFunc = NULL;
    for (int i = 0; i < 3; i++) VALUE[i] = in_value();
    falls(script ? "1208" : "1209");
    Tiny_Value *a = script ? FN_ARGS : F_ARGS;
    CHECK("the accessor sees container, index and value", (script ? FN_COUNT : F_COUNT) == 3 && same_value(a[0], VALUE[1]) && same_value(a[1], VALUE[2]) && same_value(a[2], VALUE[0]));
}
static void c_index_f(int al) { set_index(al, false); }
static void c_index_s(int al) { set_index(al, true); }
static void c_rej_const(int al) { assign(al, TINY_TOK_EQUAL); to_id(TINY_SYM_CONST, 0); rejected(); }
static void c_rej_undecl(int al) { assign(al, TINY_TOK_EQUAL); to_id(TINY_SYM_GLOBAL, 0); NODE[1].id.sym = NULL; rejected(); }
static void c_rej_lhs(int al) { assign(al, TINY_TOK_EQUAL); mk_probe(1, TAG(INT)); E->binary.lhs = &PB[1]; rejected(); }
static void c_rej_noset(int al) {
    assign(al, TINY_TOK_EQUAL);
    mk_probe(1, TAG(ANY));
    mk_probe(2, TAG(ANY));
    NODE[1].type = TINY_EXP_INDEX;
    NODE[1].index.arr = &PB[1];
    NODE[1].index.elem = &PB[2];
    NODE[1].index.setIndexFunc = NODE[1].index.getIndexFunc = NULL;
    rejected();
}

/* ---- if, while, for */
static void if_(int al, bool cond, bool body, bool alt) {
    E->type = TINY_EXP_IF;
    mk_probe(0, TAG(BOOL));
    if (body) mk_stmt(1, NULL);
    if (alt) mk_stmt(2, NULL);
    E->ifx.cond = &PB[0];
    E->ifx.body = body ? &PB[1] : NULL;
    E->ifx.alt = alt ? &PB[2] : NULL;
    CONDK = 0;
    CONDV[0] = cond;
}
static void c_if_t(int al) { begin(al, 0); if_(al, true, true, false); falls("01"); }
static void c_if_f(int al) { begin(al, 0); if_(al, false, true, false); falls("0"); }
static void c_ife_t(int al) { begin(al, 0); if_(al, true, true, true); falls("01"); }
static void c_ife_f(int al) { begin(al, 0); if_(al, false, true, true); falls("02"); }
static void c_ife_ret_t(int al) { begin(al, 0); OUTCOME[1][0] = RETURNS; if_(al, true, true, true); returns("01"); }
static void c_ife_ret_f(int al) { begin(al, 0); OUTCOME[2][0] = RETURNS; if_(al, false, true, true); returns("02"); }
static void while_(int o0, int o1, int o2, int ntrue) {
    OUTCOME[1][0] = o0; OUTCOME[1][1] = o1; OUTCOME[1][2] = o2;
    E->type = TINY_EXP_WHILE;
    mk_probe(0, TAG(BOOL));
    mk_stmt(1, NULL);
    E->whilex.cond = &PB[0];
    E->whilex.body = &PB[1];
    CONDK = 0;
    for (int i = 0; i < 4; i++) CONDV[i] = i < ntrue;
}
static void c_while0(int al) { begin(al, 0); while_(FALL, FALL, FALL, 0); falls("0"); }
static void c_while1(int al) { begin(al, 0); while_(FALL, FALL, FALL, 1); falls("010"); }
static void c_while3(int al) { begin(al, 0); while_(FALL, FALL, FALL, 3); falls("0101010"); }
static void c_while_b(int al) { begin(al, 0); while_(BREAKS, FALL, FALL, 4); falls("01"); }
static void c_while_fb(int al) { begin(al, 0); while_(FALL, BREAKS, FALL, 4); falls("0101"); }
static void c_while_c(int al) { begin(al, 0); while_(CONTINUES, FALL, CONTINUES, 3); falls("0101010"); }
static void c_while_cb(int al) { begin(al, 0); while_(CONTINUES, FALL, BREAKS, 4); falls("010101"); }
static void c_while_r(int al) { begin(al, 0); while_(FALL, RETURNS, FALL, 4); returns("0101"); }
static void c_while_empty(int al) { begin(al, 0); while_(FALL, FALL, FALL, 2); E->whilex.body = NULL; falls("000"); }
static void for_(int o0, int o1, int o2, int ntrue) {
    OUTCOME[3][0] = o0; OUTCOME[3][1] = o1; OUTCOME[3][2] = o2;
    E->type = TINY_EXP_FOR;
    mk_stmt(0, NULL);
    mk_probe(1, TAG(BOOL));
    mk_stmt(2, NULL);
    mk_stmt(3, NULL);
    E->forx.init = &PB[0];
    E->forx.cond = &PB[1];
    E->forx.step = &PB[2];
    E->forx.body = &PB[3];
    CONDK = 1;
    for (int i = 0; i < 4; i++) CONDV[i] = i < ntrue;
}
static void c_for0(int al) { begin(al, 0); for_(FALL, FALL, FALL, 0); falls("01"); }
static void c_for1(int al) { begin(al, 0); for_(FALL, FALL, FALL, 1); falls("01321"); }
static void c_for2(int al) { begin(al, 0); for_(FALL, FALL, FALL, 2); falls("01321321"); }
static void c_for_b(int al) { begin(al, 0); for_(BREAKS, FALL, FALL, 4); falls("013"); }
static void c_for_fb(int al) { begin(al, 0); for_(FALL, BREAKS, FALL, 4); falls("013213"); }
static void c_for_c(int al) { begin(al, 0); for_(CONTINUES, FALL, FALL, 2); falls("01321321"); }
static void c_for_cb(int al) { begin(al, 0); for_(CONTINUES, BREAKS, FALL, 4); falls("013213"); }
static void c_for_r(int al) { begin(al, 0); for_(FALL, RETURNS, FALL, 4); returns("013213"); }
static void c_rej_init(int al) { begin(al, 0); for_(FALL, FALL, FALL, 1); OUTCOME[0][0] = BREAKS; mk_stmt(0, NULL); rejected(); }
static void c_rej_step(int al) { begin(al, 0); for_(FALL, FALL, FALL, 1); OUTCOME[2][0] = CONTINUES; mk_stmt(2, NULL); rejected(); }

/* ---- return, functions */
static void c_ret(int al) { begin(al, 0); E->type = TINY_EXP_RETURN; E->retExpr = NULL; returns(""); CHECK("null is returned", TH.retVal.type == TINY_VAL_NULL && TH.fc == FC0 - 1 && TH.sp == FP0 - 2); }
static void c_retv(int al) { begin(al, 0); E->type = TINY_EXP_RETURN; mk_probe(0, TAG(ANY)); E->retExpr = &PB[0]; VALUE[0] = in_value(); returns("0"); CHECK("the value is returned", same_value(TH.retVal, VALUE[0]) && TH.fc == FC0 - 1 && TH.sp == FP0 - 2); }
static int LOCALS_SEEN;
/* the definition is skipped; calling what functionPcs names runs the body with null locals and returns */
static void proc_node(int al, int nlocals, bool body, int outcome) {
    begin(al, 2);
    fn_syms(1);
    for (int i = 0; i < 6; i++) LOCSYM.p[i] = &SYM[3];
    LOCSYM.m = 6;
    LOCSYM.n = nlocals;
    set_func(&SYM[3], 1, ARGSYM.p, nlocals ? LOCSYM.p : NULL, TAG(VOID));
    E->type = TINY_EXP_PROC;
    E->proc.decl = &SYM[3];
    OUTCOME[0][0] = outcome;
    if (body) mk_stmt(0, NULL);
    E->proc.body = body ? &PB[0] : NULL;
}
static void proc(int al, int nlocals, bool body, int outcome) {
    proc_node(al, nlocals, body, outcome);
    falls("");
    CHECK("the function is known", ST.functionPcs[1] >= START && ST.functionPcs[1] < CODE.n);
    /* call it the way CALL does (vm_CALL): argument pushed, frame pushed, pc at the entry */
    TH.stack[TH.sp++] = mk_int(5);
    TH.frames[TH.fc].pc = CODE.n;
    TH.frames[TH.fc].fp = TH.fp;
    TH.frames[TH.fc].nargs = 1;
    TH.fc++;
    TH.fp = TH.sp;
    TH.pc = ST.functionPcs[1];
    int end = CODE.n;
    bool back = false, nulls = false;
    FC0 = TH.fc;
    for (int i = 0; i < 12 && !back; i++) {
        if (TH.pc == end) { back = true; break; }
        CHECK("control stays in the code", TH.pc >= 0 && TH.pc < end);
        if (NEV == 0 && TH.sp == TH.fp + nlocals) { nulls = true; for (int j = 0; j < nlocals; j++) nulls &= TH.stack[TH.fp + j].type == TINY_VAL_NULL; }
#ifndef VC_NATIVE
        if (!step()) break;
#else
        ExecuteCycle(&TH);
#endif
    }
    CHECK("the body ran once", events(body ? "0" : ""));
    if (outcome == RETURNS) { CHECK("the body returned", RETURNED || back); return; }
    CHECK("the locals are null when the body starts", nulls || !body);
    CHECK("a function without return returns null to its caller", back && TH.retVal.type == TINY_VAL_NULL && TH.sp == SP0 && TH.fp == FP0 && TH.fc == FC0 - 1);
    CHECK("the caller's stack is unchanged", below_unchanged(-1));
}
static void c_proc0(int al) { proc(al, 0, true, FALL); }
static void c_proc2(int al) { proc(al, 2, true, FALL); }
static void c_proc_empty(int al) { proc(al, 1, false, FALL); }
static void c_proc_rejb(int al) { proc_node(al, 0, true, BREAKS); rejected(); }
static void c_proc_rejc(int al) { proc_node(al, 0, true, CONTINUES); rejected(); }

/* ---- break and continue: the jump goes where PatchBreakContinue says */
static void jump_patch(int al, bool brk) {
    begin(al, 0);
    E->type = brk ? TINY_EXP_BREAK : TINY_EXP_CONTINUE;
    COMPILE();
    int b = (int)in_range(0, 1 << 28), c = (int)in_range(0, 1 << 28);
    VC_REAL_PatchBreakContinue(&ST, E, b, c);
    REACH("pre");
    TH.pc = START;
    step();
    CHECK("the jump goes to its target", TH.pc == (brk ? b : c));
    CHECK("nothing else happens", TH.sp == SP0 && below_unchanged(-1) && frame_ok() && NEV == 0);
}
static void c_break(int al) { jump_patch(al, true); }
static void c_continue(int al) { jump_patch(al, false); }
static void reject_patch(int al, bool brk) {
    begin(al, 0);
    E->type = brk ? TINY_EXP_BREAK : TINY_EXP_CONTINUE;
    COMPILE();
    EXPECT_ERROR = true;
    REACH("pre");
    VC_REAL_PatchBreakContinue(&ST, E, -1, -1);
    CHECK("break and continue outside a loop are rejected", false);
}
static void c_rej_break(int al) { reject_patch(al, true); }
static void c_rej_continue(int al) { reject_patch(al, false); }
#ifndef VC_NATIVE
/* PatchBreakContinue reaches the statements of blocks and both arms of if, and nothing inside loops */
static void patch_of(int expect) {
    RECORD_PATCH = true;
    int b = (int)in_range(0, 1 << 28), c = (int)in_range(0, 1 << 28);
    for (int k = 0; k < NP; k++) if (E != &PB[k]) PB[k].type = (Tiny_ExprType)in_range(TINY_EXP_ID, TINY_EXP_FOREACH); /* parts of any kind */
    REACH("pre");
    VC_REAL_PatchBreakContinue(&ST, E, b, c);
    for (int k = 0; k < NP; k++) {
        CHECK("each reachable part is patched once", PATCHED[k] == ((expect >> k) & 1));
        CHECK("with the loop's targets", !PATCHED[k] || (BRK[k] == b && CNT[k] == c));
    }
    CHECK("no code is emitted", CODE.n == START);
}
static void c_patch_if(int al) { begin(al, 0); if_(al, true, true, al & 1); patch_of(al & 1 ? 6 : 2); }
static void c_patch_block(int al) { begin(al, 0); block(3); patch_of(7); }
static void c_patch_while(int al) { begin(al, 0); while_(FALL, FALL, FALL, 1); patch_of(0); }
static void c_patch_for(int al) { begin(al, 0); for_(FALL, FALL, FALL, 1); patch_of(0); }
static void c_patch_null(int al) { begin(al, 0); E = NULL; patch_of(0); }
#else
#define SKIP(n) static void c_##n(int al) {}
SKIP(patch_if) SKIP(patch_block) SKIP(patch_while) SKIP(patch_for) SKIP(patch_null)
#endif

/* ---- whole programs: the statements run in order */
static void c_program(int al) {
    begin(al, 0);
    for (int i = 0; i < 3; i++) mk_stmt(i, NULL);
    PB[0].next = &PB[1];
    PB[1].next = &PB[2];
    REACH("pre");
#ifdef VC_NATIVE
    ST.compileCallNestCount = 1;
    if (setjmp(ST.compileErrorJmpBufs[0])) { CHECK("a valid node is not rejected", false); return; }
#endif
    CompileProgram(&ST, &PB[0]);
    run(60, "012");
    CHECK("execution arrives at the end", arrives && TH.sp == SP0 && below_unchanged(-1) && frame_ok());
}
static void c_program_rej(int al) {
    begin(al, 0);
    OUTCOME[1][0] = BREAKS;
    for (int i = 0; i < 3; i++) mk_stmt(i, NULL);
    PB[0].next = &PB[1];
    PB[1].next = &PB[2];
    EXPECT_ERROR = true;
    REACH("pre");
#ifdef VC_NATIVE
    ST.compileCallNestCount = 1;
    if (setjmp(ST.compileErrorJmpBufs[0])) return;
#endif
    CompileProgram(&ST, &PB[0]);
    CHECK("a break outside every loop is rejected", false);
}

#include "cases.h"
