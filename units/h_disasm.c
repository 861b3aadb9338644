/* Tiny_DisasmOne (tiny.c): one instruction at an arbitrary place of a program of any length.  What an instruction
 * consumes is the table below, the same the interpreter's units (vm_*) prove for ExecuteCycle. */
#include "vc.h"
#ifdef VC_NATIVE
#undef HOOKED
#endif
#include <stdint.h>
#if HOOKED
static void callf_cut(int *i);
#define VC_LOOP_disasm_name(i) callf_cut(&(i))
#endif
#include "all_flat.h"
#define MAXLEN (1 << 20)
static Tiny_State ST;
static Word *PROG;
static int N, PC, PAD; /* length of the program, where the instruction is */
static int OP;
enum { NONE, BYTE, INDEX, INT64, FLOAT64, BYTE_INDEX };
typedef struct { const char *name; int operands; } Instr;
static Instr instr(int op) {
    switch (op) {
#define I(n, k) case TINY_OP_##n: return (Instr){#n, k}
        I(PUSH_NULL, NONE); I(PUSH_NULL_N, BYTE); I(PUSH_TRUE, NONE); I(PUSH_FALSE, NONE); I(PUSH_INT, INT64); I(PUSH_0, NONE); I(PUSH_1, NONE);
        I(PUSH_CHAR, BYTE); I(PUSH_FLOAT, FLOAT64); I(PUSH_STRING, INDEX); I(PUSH_STRING_FF, BYTE); I(PUSH_STRUCT, BYTE); I(STRUCT_GET, BYTE); I(STRUCT_SET, BYTE);
        I(ADD, NONE); I(SUB, NONE); I(MUL, NONE); I(DIV, NONE); I(MOD, NONE); I(OR, NONE); I(AND, NONE); I(SHIFT_LEFT, NONE); I(SHIFT_RIGHT, NONE);
        I(LT, NONE); I(LTE, NONE); I(GT, NONE); I(GTE, NONE); I(ADD1, NONE); I(SUB1, NONE); I(EQU, NONE); I(LOG_NOT, NONE);
        I(SET, INDEX); I(GET, INDEX); I(GOTO, INDEX); I(GOTOZ, INDEX); I(CALL, BYTE_INDEX); I(RETURN, NONE); I(RETURN_VALUE, NONE); I(CALLF, BYTE_INDEX);
        I(GETLOCAL, INDEX); I(GETLOCAL_W, BYTE); I(SETLOCAL, INDEX); I(GET_RETVAL, NONE); I(HALT, NONE); I(MISALIGNED_INSTRUCTION, NONE);
#undef I
    }
    return (Instr){NULL, NONE};
}
static int align_to(int at, int a) { int r = at & (a - 1); return r ? at + a - r : at; }
static uint32_t u32(int at) { return PROG[at] | (uint32_t)PROG[at + 1] << 8 | (uint32_t)PROG[at + 2] << 16 | (uint32_t)PROG[at + 3] << 24; }
static uint64_t u64(int at) { return u32(at) | (uint64_t)u32(at + 4) << 32; }
static Instr IN;
static int BYTEV, INDEXV, NEXT;
static int64_t INTV, RAW;
static int OPAT, OPSIZE;
static double FLOATV;
static int NSTR, NFN;
static char NAME1[8], FNAME[8];
static Tiny_Symbol FSYM, OTHER;
/* reads the operands of the instruction at PC; false: they do not lie in the program */
static bool operands(void) {
    int at = PC + 1, size = IN.operands == INDEX || IN.operands == BYTE_INDEX ? 4 : IN.operands == INT64 || IN.operands == FLOAT64 ? 8 : 0;
    if (IN.operands == BYTE || IN.operands == BYTE_INDEX) {
        if (at >= N) return false;
        BYTEV = PROG[at++];
    }
    if (size) {
        at = align_to(at, size);
        if (at + size > N) return false;
        OPAT = at;
        OPSIZE = size;
#ifdef VC_NATIVE
        RAW = size == 4 ? (int64_t)u32(at) : (int64_t)u64(at);
#else
        RAW = (int64_t)in_u64(); /* the bytes there, read through the contract of memcpy */
#endif
        if (size == 4) INDEXV = (int)RAW;
        else INTV = RAW;
        if (IN.operands == FLOAT64) { union { int64_t i; double d; } c; c.i = INTV; FLOATV = c.d; }
        at += size;
    }
    NEXT = at;
    return true;
}
#ifndef VC_NATIVE
#include <stdarg.h>
static char BUF[64];
static size_t ROOM;
static int HEAD, LINE, WRITES, CUT, I0, AT, NSYM;
static Tiny_Symbol **SYMS;
void FileLine_spec(const Tiny_State *s, int pc, const char **f, int *l) {
    CHECK("the position is that of the instruction", s == &ST && pc == PC);
    *f = FNAME;
    *l = LINE;
}
/* the instruction a format starts with the name of; formats are constants, so this is decided while the code is read */
static int named(const char *fmt) {
    for (int op = 0; op <= TINY_OP_MISALIGNED_INSTRUCTION; op++) {
        const char *n = instr(op).name;
        int i = 0;
        while (n[i] && n[i] == fmt[i]) i++;
        if (!n[i] && (fmt[i] == 0 || fmt[i] == ' ' || fmt[i] == '(')) return op;
    }
    return -1;
}
void *memcpy_spec(void *to, const void *from, size_t n) {
    CHECK("operands are four or eight bytes", n == 4 || n == 8);
    CHECK("the operand is read where it is", from == PROG + OPAT && n == (size_t)OPSIZE);
    if (n == 8) *(int64_t *)to = RAW; else *(int32_t *)to = (int32_t)RAW;
    return to;
}
int snprintf_spec(char *p, size_t n, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    if (WRITES++ == 0) {
        CHECK("the text goes into the buffer", p == BUF && n == ROOM);
        if (PC < 0 || PC >= N) return 3;
        CHECK("the position is printed", va_arg(ap, int) == PC && va_arg(ap, char *) == FNAME && va_arg(ap, int) == LINE);
        va_end(ap);
        return HEAD;
    }
    CHECK("the text goes behind the position, within the buffer", p == BUF + HEAD && n <= ROOM - (size_t)HEAD && n > 0);
    int op = named(fmt);
    CHECK("the instruction is named", op == OP || op < 0 && OP > TINY_OP_MISALIGNED_INSTRUCTION);
    if (op >= 0) switch (instr(op).operands) {
        case BYTE:
            if (op == TINY_OP_PUSH_STRING_FF) CHECK("the operand is printed", va_arg(ap, int) == BYTEV && va_arg(ap, char *) == ST.strings[BYTEV]);
            else CHECK("the operand is printed", va_arg(ap, Word) == BYTEV);
            break;
        case INT64: CHECK("the operand is printed", va_arg(ap, int64_t) == INTV); break;
        case FLOAT64: { union { double d; int64_t i; } c; c.d = va_arg(ap, double); CHECK("the operand is printed", c.i == INTV); } break;
        case INDEX:
            CHECK("the operand is printed", va_arg(ap, int) == INDEXV);
            if (op == TINY_OP_PUSH_STRING) CHECK("the string is printed", va_arg(ap, char *) == ST.strings[INDEXV]);
            break;
        case BYTE_INDEX:
            if (op == TINY_OP_CALL) CHECK("the operands are printed", va_arg(ap, Word) == BYTEV && va_arg(ap, int) == INDEXV && va_arg(ap, int) == ST.functionPcs[INDEXV]);
            else CHECK("the function called is named", va_arg(ap, char *) == (AT >= 0 ? NAME1 : NULL) && va_arg(ap, Word) == BYTEV);
            break;
    }
    va_end(ap);
    return (int)in_range(0, 1000);
}
#if HOOKED
static void callf_cut(int *i) {
    if (CUT++ == 0) {
        CHECK("all symbols are searched", *i == 0);
        I0 = (int)in_range(0, MAXLEN);
        ASSUME(I0 < NSYM && (AT < 0 || I0 <= AT));
        SYMS[I0] = I0 == AT ? &FSYM : &OTHER;
        *i = I0;
    } else {
        CHECK("the search ends at the function called", *i == I0 + 1 && I0 != AT);
        REACH("loop");
        ASSUME(false);
    }
}
#endif
static void run(int op) {
    OP = op;
    IN = instr(op);
    ASSUME(operands()); /* a compiled program holds whole instructions */
    if (op == TINY_OP_PUSH_STRING) ASSUME(INDEXV >= 0 && INDEXV < NSTR);
    if (op == TINY_OP_PUSH_STRING_FF) ASSUME(BYTEV < NSTR);
    if (op == TINY_OP_CALL) ASSUME(INDEXV >= 0 && INDEXV < NFN);
    if (op == TINY_OP_PUSH_STRUCT) ASSUME(BYTEV > 0);
    if (op == TINY_OP_CALLF) ASSUME(!(OTHER.type == TINY_SYM_FOREIGN_FUNCTION && OTHER.foreignFunc.index == INDEXV));
    FSYM.foreignFunc.index = INDEXV;
    int pc = PC;
    bool r = Tiny_DisasmOne(&ST, &pc, BUF, ROOM);
    if ((size_t)HEAD >= ROOM) {
        CHECK("a buffer too small for the position is reported", !r && pc == PC && WRITES == 1);
        return;
    }
    CHECK("one instruction is printed", WRITES == 2);
    if (!IN.name) { CHECK("an unknown opcode is reported", !r && pc == PC); return; }
    CHECK("exactly the bytes of the instruction are consumed", r && pc == (NEXT < N ? NEXT : -1));
    if (op == TINY_OP_CALLF && CUT) CHECK("the search ends at the function called", I0 == (AT >= 0 ? AT : NSYM - 1));
    if (op == TINY_OP_CALLF) CHECK("the function called is found if it is there", CUT || AT < 0);
    REACH("post");
}
void harness(void) {
    HAVOC(ST);
    HAVOC(FSYM);
    HAVOC(OTHER);
    N = (int)in_range(1, MAXLEN);
    PC = (int)in_range(-2, MAXLEN + 2);
    Word *block = malloc(8 + (size_t)N);
    ((int *)block)[0] = N;
    ((int *)block)[1] = N;
    ST.program = PROG = block + 8;
    ROOM = (size_t)in_range(0, MAXLEN);
    HEAD = (int)in_range(0, 64);
    LINE = (int)in_range(0, MAXLEN);
    NSTR = (int)in_range(0, (int)(sizeof ST.strings / sizeof *ST.strings));
    NFN = (int)in_range(0, MAXLEN);
    ST.numStrings = NSTR;
    ST.numFunctions = NFN;
    REACH("pre");
    if (PC < 0 || PC >= N) {
        int pc = PC;
        CHECK("outside the program there is no instruction", !Tiny_DisasmOne(&ST, &pc, BUF, ROOM) && pc == PC);
        REACH("outside");
        return;
    }
    ST.functionPcs = malloc(sizeof(int) * ((size_t)NFN + 1));
    FSYM.type = TINY_SYM_FOREIGN_FUNCTION;
    FSYM.name = NAME1;
    NSYM = (int)in_range(1, MAXLEN);
    AT = (int)in_range(-1, MAXLEN);
    ASSUME(AT < NSYM);
    Tiny_Symbol **b = malloc(sizeof(Tiny_Symbol *) * ((size_t)NSYM + 1));
    ((int *)b)[0] = ((int *)b)[1] = NSYM;
    ST.globalSymbols = SYMS = b + 1;
    OTHER.type = (Tiny_SymbolType)in_range(0, 40);
    OTHER.foreignFunc.index = (int)in_range(-MAXLEN, MAXLEN);
    run(PROG[PC]);
}
#else
/* the real text, on random programs of whole instructions */
#include <stdio.h>
void harness(void) {
    Tiny_State *s = Tiny_CreateState();
    N = (int)in_range(1, 40);
    PC = (int)in_range(0, N - 1);
    int op = (int)in_range(0, TINY_OP_MISALIGNED_INSTRUCTION + 2);
    int *h = malloc(8 + (size_t)N);
    h[0] = h[1] = N;
    s->program = PROG = (Word *)(h + 2);
    for (int i = 0; i < N; i++) PROG[i] = (Word)in_u64();
    PROG[PC] = (Word)op;
    IN = instr(op);
    OP = op;
    char *strs[4] = {"a", "bc", "", "def"};
    int pcs[3] = {(int)in_range(0, 1000), 7, 300};
    for (int i = 0; i < 4; i++) s->strings[i] = strs[i];
    s->numStrings = 4;
    s->functionPcs = pcs; s->numFunctions = 3;
    int limit = op == TINY_OP_PUSH_STRING || op == TINY_OP_PUSH_STRING_FF ? 4 : op == TINY_OP_CALL ? 3 : 0;
    if (limit) { /* make the index one that exists */
        if (IN.operands == BYTE && PC + 1 < N) PROG[PC + 1] = (Word)in_range(0, limit - 1);
        else { int at = align_to(PC + 1 + (IN.operands == BYTE_INDEX), 4); for (int i = 0; i < 4; i++) if (at + i < N) PROG[at + i] = (Word)(i ? 0 : in_range(0, limit - 1)); }
    }
    ASSUME(operands());
    if (op == TINY_OP_PUSH_STRUCT) ASSUME(BYTEV > 0);
    FSYM.type = TINY_SYM_FOREIGN_FUNCTION; FSYM.name = "target"; FSYM.foreignFunc.index = INDEXV;
    OTHER.type = in_bool() ? TINY_SYM_FOREIGN_FUNCTION : TINY_SYM_FUNCTION; OTHER.name = "other"; OTHER.foreignFunc.index = OTHER.type == TINY_SYM_FOREIGN_FUNCTION ? INDEXV + 1 : INDEXV;
    struct { int cap, n; Tiny_Symbol *t[3]; } syms = {3, 3, {&OTHER, &OTHER, &OTHER}};
    int where = (int)in_range(0, 3);
    if (where < 3) syms.t[where] = &FSYM;
    s->globalSymbols = syms.t;
    char *buf = malloc(200), want[300];
    int line = 0; const char *f = NULL;
    GetFileLineForPC(s, PC, &f, &line);
    int n = sprintf(want, "%d (%s:%d)\t", PC, f ? f : "(null)", line);
    if (!IN.name) sprintf(want + n, "(unknown opcode %d)", op);
    else {
        n += sprintf(want + n, "%s", IN.name);
        switch (IN.operands) {
            case BYTE: sprintf(want + n, op == TINY_OP_PUSH_CHAR ? " '%c'" : op == TINY_OP_PUSH_STRING_FF ? " %d (\"%s\")" : " %d", BYTEV, strs[BYTEV & 3]); break;
            case INDEX: sprintf(want + n, op == TINY_OP_PUSH_STRING ? " %d (\"%s\")" : " %d", INDEXV, strs[INDEXV & 3]); break;
            case INT64: sprintf(want + n, " %lld", (long long)INTV); break;
            case FLOAT64: sprintf(want + n, " %g", FLOATV); break;
            case BYTE_INDEX: if (op == TINY_OP_CALL) sprintf(want + n, " %d %d (%d)", BYTEV, INDEXV, pcs[INDEXV]); else sprintf(want + n, " %s(%d)", where < 3 ? "target" : "(null)", BYTEV); break;
        }
    }
    int pc = PC;
    bool r = Tiny_DisasmOne(s, &pc, buf, 200);
    if (strcmp(buf, want)) printf("got  %s\nwant %s\n", buf, want);
    CHECK("the instruction and its operands are printed", !strcmp(buf, want));
    CHECK("exactly the bytes of the instruction are consumed", IN.name ? r && pc == (NEXT < N ? NEXT : -1) : !r && pc == PC);
    char *small = malloc(9);
    pc = PC;
    int size = (int)in_range(0, 9);
    bool r2 = Tiny_DisasmOne(s, &pc, small, (size_t)size);
    CHECK("a small buffer is not overrun", size == 0 || strlen(small) < (size_t)size);
    CHECK("an instruction that is printed is consumed", !r2 || pc == (NEXT < N ? NEXT : -1));
}
#endif
