/* Tiny_CallFunction: a nested call made by the host from an arbitrary idle or running thread.
 * The callee runs through the contract of ExecuteCycle, seen from the caller: any number of instructions change
 * anything above the height at which the callee was entered, the globals and the return register, and end with the
 * frame popped (or with the thread halted anywhere deeper). */
#include "vc.h"
#include "all.h"
#include "values.h"

static Tiny_State ST;
static Tiny_StateThread TH;
static int pcs[4];
static int PC, SP, FP, FC, FN, COUNT, G, GF, GG, GA, STEPS, ENTRY, ALLOCS;
static Tiny_Value OLD_G, OLD_RET, RESULT, ARGV[TINY_THREAD_STACK_SIZE], OLD_ARG;
static const Tiny_Value *ARGS;
static Tiny_Frame OLD_FR;
static Tiny_Value GLOBALS[4];
static bool HAD_GLOBALS;

static Tiny_Value any_value(void) {
    Tiny_Value v;
#ifndef VC_NATIVE
    v.type = (uint8_t)spec_u64();
    v.i = (int64_t)spec_u64();
#endif
    return v;
}
static void *host(void *p, size_t n, void *u) {
    CHECK("only the globals are allocated", p == NULL && n == 4 * sizeof(Tiny_Value) && !HAD_GLOBALS);
    ALLOCS++;
    return GLOBALS;
}

#ifndef VC_NATIVE
bool ExecuteCycle_spec(Tiny_StateThread *thread) {
    if (STEPS++ == 0) {
        ENTRY = thread->sp;
        CHECK("the callee starts at the function's code", thread == &TH && thread->pc == pcs[FN]);
        CHECK("one frame is added", thread->fc == FC + 1 && thread->frames[FC].nargs == COUNT);
        CHECK("the frame begins behind the arguments", thread->fp == thread->sp && thread->sp >= SP + COUNT && thread->sp <= TINY_THREAD_STACK_SIZE);
        CHECK("the arguments are on top of the stack", GA >= COUNT || same_value(thread->stack[thread->sp - COUNT + GA], OLD_ARG));
        CHECK("globals exist", thread->globalVars == GLOBALS && ALLOCS == (HAD_GLOBALS ? 0 : 1));
        CHECK("fresh globals are null", HAD_GLOBALS || GLOBALS[GG].type == TINY_VAL_NULL);
#ifndef STOPS
        REACH("enter");
#endif
    }
    if (OLD_RET.type >= TINY_VAL_STRING && OLD_RET.type != TINY_VAL_LIGHT_NATIVE) {
        bool rooted = same_bits(thread->retVal, OLD_RET);
        for (int k = 0; k < TINY_THREAD_STACK_SIZE; k++) rooted = rooted || (k < thread->sp && same_bits(thread->stack[k], OLD_RET));
        CHECK("the suspended return value stays reachable for the collector", rooted);
    }
    /* the callee owns its arguments and everything above them; a callee that returns pops its frame */
    bool done = STEPS >= 2 || spec_bool(), halted = done && spec_bool();
    for (int k = 0; k < TINY_THREAD_STACK_SIZE; k++)
        if (k >= ENTRY - COUNT) thread->stack[k] = any_value();
    for (int k = 0; k < TINY_THREAD_MAX_CALL_DEPTH; k++)
        if (k > FC) thread->frames[k] = (Tiny_Frame){(int)spec_u64(), (int)spec_u64(), (uint8_t)spec_u64()};
    for (int k = 0; k < 4; k++) thread->globalVars[k] = any_value();
    thread->retVal = RESULT = any_value();
    thread->numObjects = (int)spec_range(0, 1 << 20);
    if (done && !halted) {
        thread->fc = FC;
        thread->sp = ENTRY - thread->frames[FC].nargs;
        thread->fp = thread->frames[FC].fp;
        thread->pc = thread->frames[FC].pc;
        return spec_bool();
    }
    thread->fc = (int)spec_range(FC + 1, TINY_THREAD_MAX_CALL_DEPTH);
    thread->sp = (int)spec_range(ENTRY, TINY_THREAD_STACK_SIZE);
    thread->fp = (int)spec_range(ENTRY, TINY_THREAD_STACK_SIZE);
    thread->pc = halted ? -1 : (int)spec_range(0, 1 << 30);
    return !halted;
}
void vc_assert_fail(const char *a, const char *f, unsigned l, const char *fn) {
#ifdef STOPS
    CHECK("the caller's stack is intact when an overflow stops the program", G >= SP || same_value(TH.stack[G], OLD_G));
    REACH("stop");
#else
    CHECK("no assertion of the library fails", false);
#endif
    ASSUME(false);
}
#endif

#ifdef STOPS
#define FITS (SP + 1 + COUNT > TINY_THREAD_STACK_SIZE || FC >= TINY_THREAD_MAX_CALL_DEPTH)
#else
#define FITS (SP + 1 + COUNT + ROOM_NEEDED <= TINY_THREAD_STACK_SIZE && FC < TINY_THREAD_MAX_CALL_DEPTH)
#endif
#ifdef STOPS
#define ENDED(x) false
#else
#define ENDED(x) (x)
#endif
#ifdef VC_NATIVE /* four small functions; the frame's local -1 is the last argument */
static Word CODE[64];
static int natives(int k) {
    static const Word f0[] = {TINY_OP_PUSH_1, TINY_OP_PUSH_1, TINY_OP_ADD, TINY_OP_RETURN_VALUE};
    static const Word f1[] = {TINY_OP_RETURN};
    static const Word f2[] = {TINY_OP_PUSH_NULL, TINY_OP_PUSH_1, TINY_OP_SETLOCAL, 0, 0, 0, 0, 0, TINY_OP_PUSH_TRUE, TINY_OP_PUSH_0, TINY_OP_RETURN_VALUE};
    static const Word f3[] = {TINY_OP_HALT};
    memset(CODE, TINY_OP_HALT, sizeof CODE);
    memcpy(CODE + 1, f0, sizeof f0);
    memcpy(CODE + 9, f1, sizeof f1);
    memcpy(CODE + 17, f2, sizeof f2);
    memcpy(CODE + 33, f3, sizeof f3);
    ST.program = CODE;
    STEPS = 1;
    RESULT = k == 0 ? mk_int(2) : k == 1 ? mk_null() : k == 2 ? mk_int(0) : OLD_RET;
    static const int at[] = {1, 9, 17, 33};
    return at[k];
}
#define ROOM_NEEDED 2
#else
#define ROOM_NEEDED 0
#endif
#define CONTRACT_call                                                                                                  \
    REQUIRES(FITS)                                                                                                     \
    ENSURES("only calls that fit return", ENDED(true))                                                                 \
    ENSURES("the function ran", STEPS >= 1)                                                                            \
    ENSURES("its return value is the result", same_bits(RV, RESULT))                                                   \
    ENSURES("position restored", thread->pc == PC)                                                                     \
    ENSURES("frame base restored", thread->fp == FP)                                                                   \
    ENSURES("stack height restored", thread->sp == SP)                                                                 \
    ENSURES("call depth restored", thread->fc == FC)                                                                   \
    ENSURES("pending return value restored", same_bits(thread->retVal, OLD_RET))                                       \
    ENSURES("operand stack restored", G >= SP || same_value(thread->stack[G], OLD_G))                                  \
    ENSURES("frames restored", GF >= FC || (thread->frames[GF].pc == OLD_FR.pc && thread->frames[GF].fp == OLD_FR.fp && thread->frames[GF].nargs == OLD_FR.nargs)) \
    ENSURES("the shared program is not replaced", thread->state == &ST && ST.functionPcs == pcs)
VC_DECLARE(Tiny_Value, call, (Tiny_StateThread *thread, int fn, const Tiny_Value *args, int count))

void harness(void) {
    Tiny_StateThread *thread = &TH;
    HAVOC(TH);
    HAVOC(ST);
    for (int i = 0; i < TINY_THREAD_STACK_SIZE; i++) TH.stack[i] = in_value();
    for (int i = 0; i < TINY_THREAD_MAX_CALL_DEPTH; i++) VC_BULK(TH.frames[i]);
    for (int i = 0; i < 4; i++) { VC_BULK(GLOBALS[i]); VC_BULK(pcs[i]); }
    TH.state = &ST;
    TH.ctx = (Tiny_Context){host, NULL};
    ST.numGlobalVars = 4;
    ST.functionPcs = pcs;
    HAD_GLOBALS = in_bool();
    TH.globalVars = HAD_GLOBALS ? GLOBALS : NULL;
    FN = (int)in_range(0, 3);
    pcs[FN] = (int)in_range(0, 1 << 30);
    PC = TH.pc = (int)in_range(-1, 1 << 30);
    SP = TH.sp = (int)in_range(0, TINY_THREAD_STACK_SIZE);
    FP = TH.fp = (int)in_range(0, TINY_THREAD_STACK_SIZE);
    FC = TH.fc = (int)in_range(0, TINY_THREAD_MAX_CALL_DEPTH);
    OLD_RET = TH.retVal = in_value();
    COUNT = (int)in_range(0, TINY_THREAD_STACK_SIZE);
    GA = (int)in_range(0, TINY_THREAD_STACK_SIZE - 1);
    GG = (int)in_range(0, 3);
    G = (int)in_range(0, TINY_THREAD_STACK_SIZE - 1);
    GF = (int)in_range(0, TINY_THREAD_MAX_CALL_DEPTH - 1);
#ifdef ARGS_ON_STACK /* a host function passes on its own arguments */
    int from = (int)in_range(0, TINY_THREAD_STACK_SIZE);
    ASSUME(from + COUNT <= SP);
    ARGS = &TH.stack[from];
#else
    for (int i = 0; i < TINY_THREAD_STACK_SIZE; i++) VC_BULK(ARGV[i]);
    ARGS = ARGV;
#endif
    if (GA < COUNT) OLD_ARG = ARGS[GA];
    OLD_G = TH.stack[G];
    OLD_FR = TH.frames[GF];
    ASSUME(FITS);
#ifdef VC_NATIVE
    pcs[FN] = natives(FN);
    TH.maxNumObjects = 1 << 20;
#endif
    REACH("pre");
    Tiny_Value r = VC_ENFORCE(Tiny_Value, call, Tiny_CallFunction(thread, FN, ARGS, COUNT));
    (void)r;
#ifndef STOPS
    REACH("post");
#endif
}
