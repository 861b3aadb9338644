/* Compile-then-execute: CompileExpr / CompileStatement of one node whose children are probes.
 *
 * A probe is an arbitrary child, represented by the contract every compiled expression (statement) is checked
 * against: executing its code takes control at its first byte, leaves it behind its last one, changes nothing below the
 * operand stack height it found, and pushes one value (nothing).  Under the verifier the recursive calls are replaced by
 * CompileExpr_spec / CompileStatement_spec, which emit a marker; the executor below plays the marker's contract.
 * Natively (replay) a probe is a real call of a host function, so the same harness runs the real code only. */
#ifndef CODEGEN_H
#define CODEGEN_H
#include "values.h"
#define NCODE 240
#define NP 8
#ifndef PAD
#define PAD 0
#endif
static struct { int m, n; Word p[NCODE]; } CODE;
static Tiny_State ST;
static Tiny_StateThread TH;
static Tiny_Expr NODE[12], PB[NP];
static Tiny_Value VALUE[NP]; /* what probe k evaluates to */
static int EV[24], NEV;
static int START, SP0, FP0, FC0;
static Tiny_Value OLDSTACK[TINY_THREAD_STACK_SIZE], F_RESULT, FN_RESULT;
static Tiny_Value F_ARGS[4], FN_ARGS[4];
static int F_COUNT, FN_COUNT, FN_SP;
static Tiny_Symbol SYM[12];
static Tiny_Symbol *SYMPTR[12];
static Tiny_ForeignFunction FTAB[4];
static int PCS[4];
static struct { int m, n; Tiny_PCToFileLine p[16]; } PCL;
static bool EXPECT_ERROR, RAN;
static Tiny_Value *GV;
static int NGLOB, GG;
static Tiny_Value OLD_GG;
static int OUTCOME[NP][4], VISITS[NP]; /* statement probes: 0 falls through, 1 break, 2 continue, 3 return */
static int BRK[NP], CNT[NP], PATCHED[NP];
static bool RECORD_PATCH;
static bool RETURNED;
enum { FALL, BREAKS, CONTINUES, RETURNS };

/* a zero-initialised union hides from constant propagation what is stored in it; a fresh one does not */
#ifdef VC_NATIVE
#define FRESH(lv) memset(&(lv), 0, sizeof(lv))
#else
#define FRESH(lv) VC_BULK(lv)
#endif
#define FUNC_EVENT 8  /* the script function ran */
#define HOST_EVENT 9  /* the host function ran */
static void event(int k) { if (NEV < 24) EV[NEV++] = k; }
static bool events(const char *s) {
    int i = 0;
    for (; s[i]; i++) if (i >= NEV || EV[i] != s[i] - '0') return false;
    return i == NEV;
}
static void put(int w) { CODE.p[CODE.n++] = (Word)w; }
static void put32(uint32_t v) { put(v); put(v >> 8); put(v >> 16); put(v >> 24); }
static Tiny_Value host_fn(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
    event(HOST_EVENT);
    F_COUNT = count;
    for (int i = 0; i < 4; i++) if (i < count) F_ARGS[i] = args[i];
    return F_RESULT;
}
static Tiny_Value wrong_fn(Tiny_StateThread *thread, const Tiny_Value *args, int count) { event(7); return F_RESULT; }

/* ---- probes */
static int CONDK = -1, CONDN; /* expression probe CONDK is a condition: true while CONDV says so, then false */
static bool CONDV[4];
static Tiny_Value expr_probe(int k) {
    event(k);
    if (k == CONDK) return mk_bool(CONDN < 4 && CONDV[CONDN++]);
    return VALUE[k];
}
static void emit(Tiny_State *s, int w) { sb_push(&s->ctx, s->program, (Word)w); }
static void on_func(Tiny_StateThread *t) {
    event(FUNC_EVENT);
    FN_SP = t->sp;
    FN_COUNT = t->fc > 0 ? t->frames[t->fc - 1].nargs : -1;
    for (int i = 0; i < 4; i++) if (i < FN_COUNT) FN_ARGS[i] = t->stack[t->fp - FN_COUNT + i];
}
static int stmt_probe(int k) {
    event(k);
    int v = VISITS[k]++;
    return OUTCOME[k][v < 4 ? v : 3];
}
#ifndef VC_NATIVE
#ifdef REJECT
#define REACH_REJECTED REACH("rejected")
#else
#define REACH_REJECTED
#endif
#define M_EXPR 0xEE
#define M_STMT 0xEF
#define M_FUNC 0xF0
void VC_REAL_CompileExpr(Tiny_State *, Tiny_Expr *);
void VC_REAL_CompileStatement(Tiny_State *, Tiny_Expr *);
void VC_REAL_PatchBreakContinue(Tiny_State *, Tiny_Expr *, int, int);
void CompileExpr_spec(Tiny_State *s, Tiny_Expr *e) {
    int k = e->type == TINY_EXP_CALL ? e->lineNumber - 1000 : -1;
    if (k < 0) { VC_REAL_CompileExpr(s, e); return; }
    CHECK("only operands of the node are compiled", k < NP && e == &PB[k]);
    emit(s, M_EXPR); emit(s, k);
    for (int i = 0; i < PAD; i++) emit(s, 0xFF);
}
void CompileStatement_spec(Tiny_State *s, Tiny_Expr *e) {
    int k = e->type == TINY_EXP_CALL ? e->lineNumber - 1000 : -1;
    CHECK("only parts of the node are compiled", k >= 0 && k < NP && e == &PB[k]);
    emit(s, M_STMT); emit(s, k);
    for (int i = 0; i < PAD; i++) emit(s, 0xFF);
}
void ReportErrorE_spec(Tiny_State *s, const Tiny_Expr *e, const char *m, ...) { CHECK("a valid node is not rejected", EXPECT_ERROR); REACH_REJECTED; ASSUME(false); }
void PatchBreakContinue_spec(Tiny_State *s, Tiny_Expr *e, int b, int c) {
    if (!e) return;
    int k = e->type == TINY_EXP_CALL || RECORD_PATCH ? e->lineNumber - 1000 : -1;
    CHECK("only parts of the node are patched", k >= 0 && k < NP && e == &PB[k]);
    bool brk = false, cnt = false;
    for (int v = 0; v < 4; v++) { brk |= OUTCOME[k][v] == BREAKS; cnt |= OUTCOME[k][v] == CONTINUES; }
    if (brk && b < 0 || cnt && c < 0) ReportErrorE_spec(s, e, "");
    if (!brk && !cnt && !RECORD_PATCH) return;
    PATCHED[k]++;
    BRK[k] = b;
    CNT[k] = c;
}
void GarbageCollect_spec(Tiny_StateThread *t) {}
bool AreValuesEqual_spec(Tiny_Value a, Tiny_Value b) { return a.type == TINY_VAL_INT && b.type == TINY_VAL_INT && a.i == b.i; }
static void *no_alloc(void *p, size_t n, void *u) { CHECK("no allocation is needed", false); ASSUME(false); return NULL; }
static void mk_probe(int k, Tiny_Symbol *tag) {
    FRESH(PB[k]);
    PB[k].type = TINY_EXP_CALL;
    PB[k].lineNumber = 1000 + k;
    PB[k].tag = tag;
    PB[k].next = NULL;
}
#define mk_stmt mk_probe
static void probe_setup(void) { ST.ctx.alloc = no_alloc; }
static void put_function(void) { put(M_FUNC); put(TINY_OP_RETURN_VALUE); }
static bool step(void) {
    Word op = CODE.p[TH.pc];
    if (op == M_EXPR) {
        int k = CODE.p[TH.pc + 1];
        TH.pc += 2 + PAD;
        TH.stack[TH.sp++] = expr_probe(k);
        return true;
    }
    if (op == M_STMT) {
        int k = CODE.p[TH.pc + 1];
        int o = stmt_probe(k);
        if (o == FALL) TH.pc += 2 + PAD;
        else if (o == RETURNS) { RETURNED = true; return false; }
        else { CHECK("break and continue in the body are patched once", PATCHED[k] == 1); TH.pc = o == BREAKS ? BRK[k] : CNT[k]; }
        return true;
    }
    if (op == M_FUNC) { on_func(&TH); TH.pc += 1; TH.stack[TH.sp++] = FN_RESULT; return true; }
    return ExecuteCycle(&TH);
}
#else
#define VC_REAL_CompileExpr CompileExpr
#define VC_REAL_CompileStatement CompileStatement
#define VC_REAL_PatchBreakContinue PatchBreakContinue
static Tiny_Expr EXTRA[NP * 12];
static int nextra;
static Tiny_StringNode PNAME = {NULL, "probe"}, SNAME = {NULL, "sprobe"}, ONAME = {NULL, "oprobe"};
static int LASTOUT[NP];
static Tiny_Value probe_fn(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    if (a[0].i == 100) { on_func(t); return FN_RESULT; }
    return expr_probe((int)a[0].i);
}
static Tiny_Value sprobe_fn(Tiny_StateThread *t, const Tiny_Value *a, int n) { LASTOUT[a[0].i] = stmt_probe((int)a[0].i); return mk_null(); }
static Tiny_Value oprobe_fn(Tiny_StateThread *t, const Tiny_Value *a, int n) { return mk_bool(LASTOUT[a[0].i / 8] == a[0].i % 8); }
static Tiny_Expr *extra(Tiny_ExprType t) { Tiny_Expr *e = &EXTRA[nextra++]; memset(e, 0, sizeof *e); e->type = t; e->lineNumber = 5; return e; }
static void mk_call(Tiny_Expr *e, Tiny_StringNode *name, int arg) {
    Tiny_Expr *a = extra(TINY_EXP_INT);
    a->iValue = arg;
    a->tag = GetPrimTag(TINY_SYM_TAG_INT);
    e->type = TINY_EXP_CALL;
    e->call.calleeName = name;
    e->call.argsHead = a;
}
static void mk_probe(int k, Tiny_Symbol *tag) { memset(&PB[k], 0, sizeof PB[k]); PB[k].lineNumber = 1000 + k; PB[k].tag = tag; mk_call(&PB[k], &PNAME, k); }
static void mk_stmt(int k, Tiny_Symbol *tag) {
    memset(&PB[k], 0, sizeof PB[k]);
    PB[k].type = TINY_EXP_BLOCK;
    Tiny_Expr *c = extra(TINY_EXP_CALL);
    mk_call(c, &SNAME, k);
    PB[k].blockHead = c;
    static const Tiny_ExprType kinds[4] = {0, TINY_EXP_BREAK, TINY_EXP_CONTINUE, TINY_EXP_RETURN};
    for (int o = 1; o < 4; o++) {
        bool used = false;
        for (int v = 0; v < 4; v++) used |= OUTCOME[k][v] == o;
        if (!used) continue;
        Tiny_Expr *i = extra(TINY_EXP_IF);
        i->ifx.cond = extra(TINY_EXP_CALL);
        mk_call(i->ifx.cond, &ONAME, k * 8 + o);
        i->ifx.body = extra(kinds[o]);
        c->next = i;
        c = i;
    }
}
static struct { int m, n; Tiny_Symbol *p[8]; } GSYM;
static Tiny_Symbol PSYM[3];
static void probe_setup(void) {
    ST.ctx = Tiny_DefaultContext;
    static const char *names[3] = {"probe", "sprobe", "oprobe"};
    static const Tiny_ForeignFunction fns[3] = {probe_fn, sprobe_fn, oprobe_fn};
    int n = 0;
    while (n < 5 && SYMPTR[n]) { GSYM.p[n] = SYMPTR[n]; n++; }
    for (int i = 0; i < 3; i++) {
        PSYM[i].type = TINY_SYM_FOREIGN_FUNCTION;
        PSYM[i].name = (char *)names[i];
        PSYM[i].foreignFunc.index = 4 + i;
        PSYM[i].foreignFunc.varargs = true;
        GSYM.p[n++] = &PSYM[i];
    }
    GSYM.m = 9;
    GSYM.n = n;
    ST.globalSymbols = GSYM.p;
    static Tiny_ForeignFunction tab[8];
    for (int i = 0; i < 4; i++) tab[i] = FTAB[i];
    for (int i = 0; i < 3; i++) tab[4 + i] = fns[i];
    ST.foreignFunctions = tab;
}
static void put_function(void) {
    put(TINY_OP_PUSH_CHAR); put(100); put(TINY_OP_CALLF); put(1);
    while (CODE.n % 4) put(0xFF);
    put32(4);
    put(TINY_OP_GET_RETVAL);
    put(TINY_OP_RETURN_VALUE);
}
static bool step(void) { return ExecuteCycle(&TH); }
#endif

/* members of a union are set as a whole, for the same reason */
static void set_func(Tiny_Symbol *s, int index, Tiny_Symbol **args, Tiny_Symbol **locals, Tiny_Symbol *ret) {
    __typeof__(s->func) f;
    f.index = index; f.args = args; f.locals = locals; f.returnTag = ret;
    s->type = TINY_SYM_FUNCTION;
    s->func = f;
}
static void set_foreign(Tiny_Symbol *s, int index, Tiny_Symbol **args, bool varargs, Tiny_Symbol *ret) {
    __typeof__(s->foreignFunc) f;
    f.index = index; f.argTags = args; f.varargs = varargs; f.returnTag = ret; f.callee = NULL;
    s->type = TINY_SYM_FOREIGN_FUNCTION;
    s->foreignFunc = f;
}
static void set_struct(Tiny_Symbol *s, Tiny_Symbol **fields) {
    __typeof__(s->sstruct) f;
    f.defined = true; f.fields = fields;
    s->type = TINY_SYM_TAG_STRUCT;
    s->sstruct = f;
}
/* ---- world */
static struct { int m, n; Tiny_Symbol *p[8]; } GLOBALS_SYM;
static void world(int align, int nsyms) {
#ifndef STATE_SCALARS /* h_stmt.c: with all of it arbitrary the solver does not finish */
    HAVOC(ST);
#else
    HAVOC(ST.numFunctions);
    HAVOC(ST.numForeignFunctions);
    HAVOC(ST.currScope);
    HAVOC(ST.l.pos);
    HAVOC(ST.l.lineNumber);
    HAVOC(ST.currFunc);
#endif
    HAVOC(CODE);
    HAVOC(TH);
    CODE.m = NCODE;
    CODE.n = 0;
    ST.program = CODE.p;
    PCL.m = 16;
    PCL.n = 0;
    ST.pcToFileLine = PCL.p;
    ST.functionPcs = PCS;
    ST.foreignFunctions = FTAB;
    FTAB[0] = FTAB[2] = FTAB[3] = wrong_fn;
    FTAB[1] = host_fn;
    F_RESULT = in_value();
    FN_RESULT = in_value();
    for (int i = 0; i < 12; i++) FRESH(SYM[i]);
    for (int i = 0; i < nsyms; i++) GLOBALS_SYM.p[i] = SYMPTR[i] = &SYM[i];
    GLOBALS_SYM.m = 8;
    GLOBALS_SYM.n = nsyms;
    ST.globalSymbols = nsyms ? GLOBALS_SYM.p : NULL;
    probe_setup();
    for (int k = 0; k < NP; k++) { VISITS[k] = PATCHED[k] = 0; }
    put_function(); /* the script function, index 2 */
    PCS[2] = 0;
    PCS[0] = PCS[1] = PCS[3] = NCODE - 1;
    while (CODE.n < 32) put(0xFF);
    START = CODE.n = 32 + align;
    TH.state = &ST;
    NGLOB = (int)in_range(1, 1 << 20);
    GV = malloc(sizeof(Tiny_Value) * NGLOB);
#ifdef VC_NATIVE
    for (int i = 0; i < NGLOB; i++) GV[i] = mk_int(i);
#endif
    ST.numGlobalVars = NGLOB;
    TH.globalVars = GV;
    GG = (int)in_range(0, (1 << 20) - 1);
    ASSUME(GG < NGLOB);
    OLD_GG = GV[GG];
    TH.sp = SP0 = 4;
    TH.fp = FP0 = 3;
    TH.fc = FC0 = 1;
    TH.frames[0].pc = NCODE - 2;
    TH.frames[0].fp = 1;
    TH.frames[0].nargs = 2;
    TH.maxNumObjects = 1 << 20;
    TH.numObjects = 0;
    TH.retVal = in_value();
    NEV = 0;
    RETURNED = false;
}
static void stack_setup(void) { for (int i = 0; i < SP0; i++) TH.stack[i] = OLDSTACK[i] = in_value(); }
/* runs what was compiled; true if control arrived behind the last byte */
static bool execute(int maxsteps) {
    RAN = true;
    int end = CODE.n;
    TH.pc = START;
    for (int i = 0; i < maxsteps; i++) {
        if (TH.fc < FC0) { RETURNED = true; return false; }
        if (TH.pc == end) return true;
        CHECK("control stays in the code", TH.pc >= 0 && TH.pc < end);
        if (!step()) return false;
    }
    return false;
}
static bool below_unchanged(int setlocal) {
    for (int i = 0; i < SP0; i++) if (i != setlocal && !same_value(TH.stack[i], OLDSTACK[i])) return false;
    return true;
}
static bool frame_ok(void) {
    return TH.fp == FP0 && TH.fc == FC0 && TH.frames[0].pc == NCODE - 2 && TH.frames[0].fp == 1 && TH.frames[0].nargs == 2 && TH.state == &ST && ST.program == CODE.p;
}
#endif
