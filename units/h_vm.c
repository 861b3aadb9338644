/* One virtual-machine instruction, ExecuteCycle, under one contract per opcode (select with -DOP=...).
 * Operand stack, globals, call frames, return value and operands are arbitrary. */
#include "vc.h"
#include "all.h"

#ifndef LEN
#define LEN 1
#endif
#ifndef DELTA
#define DELTA 0
#endif
#ifndef POPS
#define POPS 0
#endif
#ifndef NEWPC
#define NEWPC (PC + LEN)
#endif
#ifndef VALUE
#define VALUE true
#endif
#ifndef EXTRA
#define EXTRA true
#endif
#ifndef PRE
#define PRE true
#endif
#ifndef PUT
#define PUT
#endif
#ifndef NEWFC
#define NEWFC FC
#endif
#ifndef NEWFP
#define NEWFP FP
#endif
#ifndef NEWSP
#define NEWSP (SP + (DELTA))
#endif
#ifndef STACKFROM
#define STACKFROM (SP - (POPS))
#endif
#ifndef SETS_GLOBAL
#define SETS_GLOBAL -1
#endif
#ifndef SETS_STACK
#define SETS_STACK -1
#endif
#include "vmspec.h"

/* frame condition: the stack below what the instruction pops, every global, call frame, the return value,
 * the object list and the shared program state keep their values (G, GG, GF: arbitrary indices) */
static bool stack_ok(Tiny_StateThread *t) { return G >= STACKFROM || G >= NEWSP || G == SETS_STACK || same_value(t->stack[G], OLD_G); }
static bool globals_ok(Tiny_StateThread *t) { return t->globalVars == GV && (GG == SETS_GLOBAL || same_bits(GV[GG], OLD_GG)); }
static bool frames_ok(Tiny_StateThread *t) {
#ifdef PUSHES_FRAME
    if (GF == FC) return true;
#endif
    return GF >= FC || (t->frames[GF].pc == OLD_FR.pc && t->frames[GF].fp == OLD_FR.fp && t->frames[GF].nargs == OLD_FR.nargs);
}
static bool heap_ok(Tiny_StateThread *t) {
#ifdef NEWOBJ
    return true;
#else
    return t->gcHead == OLD_HEAD && t->numObjects == OLD_NUM;
#endif
}
static bool ret_ok(Tiny_StateThread *t) {
#ifdef SETS_RET
    return true;
#else
    return same_value(t->retVal, OLD_RET);
#endif
}
static bool state_ok(Tiny_StateThread *t) {
    return t->state == &ST && ST.program == PROG && PROG[GP] == OLD_GP && ST.numGlobalVars == NGLOB;
}

#define CONTRACT_step                                                                                   \
    REQUIRES(thread->pc == PC && thread->sp == SP && thread->fp == FP && thread->fc == FC && (PRE))     \
    ENSURES("the instruction executes", RV == true)                                                     \
    ENSURES("pc after the instruction", thread->pc == (NEWPC))                                          \
    ENSURES("stack height", thread->sp == (NEWSP))                                                      \
    ENSURES("call depth and frame base", thread->fc == (NEWFC) && thread->fp == (NEWFP))                \
    ENSURES("result value", (VALUE))                                                                    \
    ENSURES("instruction specific effect", (EXTRA))                                                     \
    ENSURES("other stack cells unchanged", stack_ok(thread))                                            \
    ENSURES("other globals unchanged", globals_ok(thread))                                              \
    ENSURES("other call frames unchanged", frames_ok(thread))                                           \
    ENSURES("return register unchanged", ret_ok(thread))                                                \
    ENSURES("object list unchanged", heap_ok(thread))                                                   \
    ENSURES("the shared program is not written", state_ok(thread))                                      \
    ENSURES("collected exactly when the threshold is reached, after the instruction", GC_OK)
VC_DECLARE(bool, step, (Tiny_StateThread *thread))

static void one(int align) {
    Tiny_StateThread *thread = &TH;
    vm_world(align);
    REACH("pre");
    VC_ENFORCE(bool, step, ExecuteCycle(thread));
    REACH("post");
}
#ifndef ALIGNS
#define ALIGNS 1
#endif
void harness(void) {
    switch (in_range(0, ALIGNS - 1)) {
#if ALIGNS > 1
        case 1: one(1); break;
        case 2: one(2); break;
        case 3: one(3); break;
#endif
#if ALIGNS > 4
        case 4: one(4); break;
        case 5: one(5); break;
        case 6: one(6); break;
        case 7: one(7); break;
#endif
        default: one(0); break;
    }
}
