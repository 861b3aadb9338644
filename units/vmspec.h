/* the world a VM instruction runs in, and the values the contracts talk about */
#ifndef VMSPEC_H
#define VMSPEC_H
#include "values.h"
#define NPROG 40
static Tiny_State ST;
static struct { Word p[NPROG]; } CODE_;
#define PROG (CODE_.p)
static Tiny_StateThread TH;
static Tiny_Value *GV;
static int PC, SP, FP, FC, G, GG, GF, GP, NGLOB, OLD_NUM;
static Word OLD_GP;
static Tiny_Value A, B, OLD_G, OLD_GG, OLD_RET; /* A: second from top, B: top */
static Tiny_Frame OLD_FR, RETFRAME;
static Tiny_Object *OLD_HEAD, *OBJ;
static int GFLD;
static Tiny_Value OLD_FLD;
static int gc_runs;
static int OPND8;     /* byte operand */
static int64_t OPNDX; /* aligned operand */
static char *STR;
static int TARGET;
static Tiny_Value F_RESULT;
static int F_CALLS;
static bool FN_OK;
static Tiny_Value EQ_A, EQ_B;
static bool EQ_RESULT;

#define BOTHINT (A.type == TINY_VAL_INT && B.type == TINY_VAL_INT)
#define TOP (thread->stack[thread->sp - 1])

/* callee contracts used at the call sites in ExecuteCycle */
void GarbageCollect_spec(Tiny_StateThread *thread) { gc_runs++; }
bool AreValuesEqual_spec(Tiny_Value a, Tiny_Value b) { EQ_A = a; EQ_B = b; return EQ_RESULT; }
#ifdef VC_NATIVE
#define GC_OK true
#else
#define GC_OK (gc_runs == (thread->numObjects >= thread->maxNumObjects))
#endif
static int align_up(int x, int a) { return x % a == 0 ? x : x + (a - x % a); }
static void put8(int at, int v) { PROG[at] = (Word)v; }
static void put32(int at, uint32_t v) { PROG[at] = v; PROG[at + 1] = v >> 8; PROG[at + 2] = v >> 16; PROG[at + 3] = v >> 24; }
static void put64(int at, uint64_t v) { put32(at, (uint32_t)v); put32(at + 4, (uint32_t)(v >> 32)); }
static void *test_alloc(void *p, size_t n, void *u) { return malloc(n); }
static void strings_setup(int i) { STR = malloc(1); ST.strings[i] = STR; }
static void struct_setup(int at) {
    int n = (int)in_range(1, 255);
    OBJ = malloc(sizeof(Tiny_Object) + 255 * sizeof(Tiny_Value));
#ifdef VC_NATIVE
    vc_bulk(OBJ->ostruct.fields, 255 * sizeof(Tiny_Value));
#endif
    OBJ->type = TINY_VAL_STRUCT;
    OBJ->marked = false;
    OBJ->ostruct.n = n;
    ASSUME(OPND8 < n);
    GFLD = (int)in_range(0, 254);
    ASSUME(GFLD < n);
    OLD_FLD = OBJ->ostruct.fields[GFLD];
    Tiny_Value v;
    v.type = TINY_VAL_STRUCT;
    v.obj = OBJ;
    TH.stack[at] = v;
    OLD_G = TH.stack[G];
}
static int pcs[8];
static void func_setup(void) {
    OPNDX = in_range(0, 7);
    TARGET = (int)in_range(0, 1 << 30);
    pcs[OPNDX] = TARGET;
    ST.functionPcs = pcs;
    ASSUME(FC < TINY_THREAD_MAX_CALL_DEPTH);
}
static void ret_setup(void) {
    ASSUME(FC > 0);
    RETFRAME.pc = (int)in_range(0, 1 << 30);
    RETFRAME.fp = (int)in_range(0, TINY_THREAD_STACK_SIZE);
    RETFRAME.nargs = (uint8_t)in_range(0, 255);
    ASSUME(FP <= SP && RETFRAME.nargs <= FP && RETFRAME.fp <= FP);
    TH.frames[FC - 1] = RETFRAME;
    OLD_FR = TH.frames[GF];
}
static Tiny_Value the_foreign(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
    F_CALLS++;
    int k = G - (SP - OPND8);
    FN_OK = thread == &TH && count == OPND8 && args == &thread->stack[SP - OPND8] && (k < 0 || k >= count || same_value(args[k], OLD_G)) && thread->sp == SP;
    return F_RESULT;
}
static Tiny_Value other_foreign(Tiny_StateThread *thread, const Tiny_Value *args, int count) { F_CALLS += 2; return F_RESULT; }
static Tiny_ForeignFunction ftab[4];
static void foreign_setup(void) {
    OPNDX = in_range(0, 3);
    F_CALLS = 0;
    FN_OK = false;
    F_RESULT = in_value();
    ftab[0] = ftab[1] = ftab[2] = ftab[3] = other_foreign;
    ftab[OPNDX] = the_foreign;
    ST.foreignFunctions = ftab;
    ASSUME(OPND8 <= SP);
}

#ifndef MINSP
#define MINSP (POPS)
#endif
#ifndef MAXSP
#define MAXSP (TINY_THREAD_STACK_SIZE - ((DELTA) > 0 ? (DELTA) : 0))
#endif
#ifndef IN_AB
#define IN_AB in_value()
#endif
#ifndef IN_A
#define IN_A IN_AB
#endif
#ifndef IN_B
#define IN_B IN_AB
#endif
#ifndef SETUP
#define SETUP
#endif
static Tiny_Object OLDEST;
static void vm_world(int align) {
    HAVOC(TH);
    HAVOC(ST);
    HAVOC(CODE_);
    TH.pc = PC = align;
    OPND8 = (int)in_range(0, 255);
    OPNDX = (int64_t)in_u64();
    for (int i = 0; i < TINY_THREAD_STACK_SIZE; i++) VC_BULK(TH.stack[i]);
    TH.state = &ST;
    ST.program = PROG;
    NGLOB = (int)in_range(1, 1 << 20);
#ifdef VC_NATIVE
    NGLOB = 1 + (NGLOB & 0xfffff);
#endif
    GV = malloc(sizeof(Tiny_Value) * NGLOB);
#ifdef VC_NATIVE
    for (int i = 0; i < NGLOB; i++) GV[i] = mk_int(i);
#endif
    ST.numGlobalVars = NGLOB;
    TH.globalVars = GV;
    SP = TH.sp = (int)in_range(MINSP, MAXSP);
    FP = TH.fp = (int)in_range(0, TINY_THREAD_STACK_SIZE - 1);
    FC = TH.fc = (int)in_range(0, TINY_THREAD_MAX_CALL_DEPTH);
    for (int i = 0; i < TINY_THREAD_MAX_CALL_DEPTH; i++) VC_BULK(TH.frames[i]);
    TH.numObjects = OLD_NUM = (int)in_range(0, 1 << 20);
    TH.maxNumObjects = (int)in_range(0, 1 << 20);
#ifdef VC_NATIVE
    TH.maxNumObjects = TH.numObjects + 2;
#endif
    TH.gcHead = OLD_HEAD = &OLDEST;
    OLD_RET = TH.retVal = in_value();
    if (SP >= 2) A = TH.stack[SP - 2] = IN_A; else A = mk_null();
    if (SP >= 1) B = TH.stack[SP - 1] = IN_B; else B = mk_null();
    G = (int)in_range(0, TINY_THREAD_STACK_SIZE - 1);
    OLD_G = TH.stack[G];
    GG = (int)in_range(0, (1 << 20) - 1);
    ASSUME(GG < NGLOB);
    OLD_GG = GV[GG];
    GF = (int)in_range(0, TINY_THREAD_MAX_CALL_DEPTH - 1);
    OLD_FR = TH.frames[GF];
    gc_runs = 0;
    EQ_RESULT = in_bool();
    SETUP;
    ASSUME(PRE);
    PROG[PC] = OP;
    PUT;
    GP = (int)in_range(0, NPROG - 1);
    OLD_GP = PROG[GP];
}
#endif
