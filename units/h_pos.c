/* Positions: pos.c (Tiny_PosToFriendlyPos), util.c (Tiny_TranslatePosToLineNumber), tiny.c (position table).
 * Texts and tables are of any size; loops are cut at an arbitrary iteration. */
#include "vc.h"
#ifdef VC_NATIVE
#undef HOOKED
#endif
#include <stdint.h>
struct Tiny_FriendlyPos;
#if HOOKED
static void line_cut(const char **src, struct Tiny_FriendlyPos *p);
static void char_cut(const char **cursor);
static void number_cut(int *cur, int *line);
static void table_cut(int *lo, int *hi, int *cur);
#define VC_LOOP_friendly_line(src, p) line_cut(&(src), &(p))
#define VC_LOOP_friendly_char(cursor) char_cut(&(cursor))
#define VC_LOOP_line_number(c, l) number_cut(&(c), &(l))
#define VC_LOOP_file_line(lo, hi, cur) table_cut(&(lo), &(hi), &(cur))
#endif
#include "all_flat.h"
static int CUT, CUT2;
#ifdef VC_NATIVE
#define NEW(t) calloc(1, sizeof(t))
#else
#define NEW(t) malloc(sizeof(t)) /* arbitrary contents */
#endif

#ifdef FRIENDLY
/* the text: LS, an arbitrary line's start at or before the position, with K newlines before it; the line ends at LE
 * (a newline, or the end of the text if LAST) */
static char *TEXT;
static uint32_t POS, LS, LE, K, LEN, AT;
static bool LAST;
#if HOOKED
char *strchr_spec(const char *s, int c) {
    CHECK("a newline is looked for from the start of a line", c == '\n' && s == TEXT + LS);
    return LAST ? NULL : TEXT + LE;
}
static void line_cut(const char **src, Tiny_FriendlyPos *p) {
    if (CUT++ == 0) {
        CHECK("lines are counted from the start of the text", *src == TEXT && p->lineIndex == 0);
        *src = TEXT + LS;
        p->lineIndex = K;
    } else {
        CHECK("a line before the position is counted once", LE < POS && !LAST && *src == TEXT + LE + 1 && p->lineIndex == K + 1);
        REACH("loop");
        ASSUME(false);
    }
}
static void char_cut(const char **cursor) {
    if (CUT2++ == 0) {
        CHECK("columns are counted from the start of the line", *cursor == TEXT + LS);
        AT = (uint32_t)in_range(0, 1 << 20);
        ASSUME(AT >= LS && AT < POS);
        *cursor = TEXT + AT;
    } else {
        CHECK("columns go up by one", *cursor == TEXT + AT + 1);
        REACH("loop2");
        ASSUME(false);
    }
}
#endif
void harness(void) {
    POS = (uint32_t)in_range(0, 1 << 20);
    LEN = (uint32_t)in_range(0, 1 << 20);
    LS = (uint32_t)in_range(0, 1 << 20);
    LE = (uint32_t)in_range(0, 1 << 20);
    K = (uint32_t)in_range(0, 1 << 20);
    LAST = in_bool();
#if HOOKED
    ASSUME(POS < LEN && LS <= POS && LE >= LS && LE <= LEN && K <= LS && (K > 0) == (LS > 0) && (LAST ? LE == LEN : LE < LEN));
    TEXT = malloc(LEN + 1);
#else
    static char text[9];
    static const char pick[] = {'\n', 'a', '\r'};
    ASSUME(LEN <= 8);
    LEN = 0;
    for (int i = 0; i < 8; i++) { text[i] = pick[in_range(0, 2)]; }
    LEN = (uint32_t)in_range(1, 8);
    text[LEN] = 0;
    POS %= LEN;
    LS = K = 0;
    for (uint32_t i = 0; i < POS; i++) if (text[i] == '\n') { K++; LS = i + 1; }
    LAST = true;
    TEXT = text;
#endif
    REACH("pre");
    Tiny_Pos p = {POS};
    Tiny_FriendlyPos r = Tiny_PosToFriendlyPos(p, TEXT, LEN);
    CHECK("the line is the number of newlines before the position", r.lineIndex == K);
    CHECK("the column is the distance from the last newline", r.charIndex == POS - LS);
    CHECK("the position is on the line", LAST || LE >= POS || !HOOKED);
    REACH("post");
}
#endif

#ifdef LINENUMBER
static char *TEXT;
static int POS, AT, K, WANT;
#if HOOKED
static void number_cut(int *cur, int *line) {
    if (CUT++ == 0) {
        CHECK("newlines are counted from the start of the text", *cur == 0 && *line == 1);
        *cur = AT;
        *line = K + 1;
    } else {
        CHECK("a newline counts once", *cur == AT + 1 && *line == K + 1 + (TEXT[AT] == '\n'));
        REACH("loop");
        ASSUME(false);
    }
}
#endif
void harness(void) {
    POS = (int)in_range(0, 1 << 20);
    AT = (int)in_range(0, 1 << 20);
    K = (int)in_range(0, 1 << 20);
    static char text[9];
#if HOOKED
    ASSUME((POS == 0 || AT < POS) && K <= AT);
    TEXT = malloc((size_t)POS + 1);
    char c = (char)in_u64();
    ASSUME(c != 0);
    TEXT[AT < POS ? AT : 0] = c;
    WANT = POS == 0 ? 1 : K + 1 + (c == '\n');
#else
    POS %= 9;
    static const char pick[] = {'\n', 'a', '\r'};
    WANT = 1;
    for (int i = 0; i < 8; i++) { text[i] = pick[in_range(0, 2)]; if (i < POS && text[i] == '\n') WANT++; }
    TEXT = text;
#endif
    REACH("pre");
    CHECK("the line number is one more than the newlines before the position", Tiny_TranslatePosToLineNumber(TEXT, POS) == WANT);
    REACH("post");
}
#endif

#if defined(TABLE) || defined(ADD)
static Tiny_State *STP;
#define ST (*STP)
static Tiny_PCToFileLine *TAB;
static int N, PC, ANS, LO, HI;
static char *STRINGS[3] = {(char *)"a", (char *)"b", (char *)"c"};
#if HOOKED
#define MAXN (1 << 20)
#else
#define MAXN 5
#endif
static void entry(int i) {
#if HOOKED /* the table's contents are arbitrary */
    ASSUME(TAB[i].pc >= 0 && TAB[i].fileStrIndex >= -1 && TAB[i].fileStrIndex <= 2 && TAB[i].line >= 0);
#else
    TAB[i].pc = (int)in_range(0, INT32_MAX);
    TAB[i].fileStrIndex = (int)in_range(-1, 2);
    TAB[i].line = (int)in_range(0, INT32_MAX);
#endif
}
static Tiny_PCToFileLine *table(int n, int room) {
    /* a stretchy buffer: the two ints in front of it are the last two of the record in front of it */
    Tiny_PCToFileLine *b = malloc(sizeof(Tiny_PCToFileLine) * (size_t)(1 + n + room));
    b->fileStrIndex = n + room;
    b->line = n;
    return b + 1;
}
#endif
#ifdef TABLE
/* ANS is the last entry at or before PC (the first entry if there is none); the table is sorted */
#if HOOKED
static void table_cut(int *lo, int *hi, int *cur) {
    if (CUT++ == 0) {
        CHECK("the whole table is searched", *lo == 0 && *hi == N);
        LO = (int)in_range(0, MAXN);
        HI = (int)in_range(0, MAXN);
        ASSUME(LO <= ANS && ANS < HI && HI <= N);
        *lo = LO;
        *hi = HI;
        *cur = (int)in_range(0, MAXN);
        ASSUME(*cur < N);
        int mid = (LO + HI) / 2;
        if (mid != ANS && mid != ANS + 1) entry(mid);
        if (mid < ANS) ASSUME(TAB[mid].pc < TAB[ANS].pc);
        if (mid > ANS && mid != ANS + 1) ASSUME(TAB[mid].pc > TAB[ANS + 1].pc);
    } else {
        CHECK("the searched part still holds the answer", *lo <= ANS && ANS < *hi && *lo >= 0 && *hi <= N);
        CHECK("the searched part shrinks", *hi - *lo < HI - LO);
        REACH("loop");
        ASSUME(false);
    }
}
#endif
static void run(void) {
    for (int i = 0; i < 3; i++) ST.strings[i] = STRINGS[i];
    ST.numStrings = 3;
    static char other[1];
    const char *file = other;
    int line = -7;
    bool wantfile = in_bool(), wantline = in_bool();
    Tiny_StateThread *th = NEW(Tiny_StateThread);
    th->state = &ST;
    th->pc = PC;
    if (wantfile && wantline && in_bool()) Tiny_GetExecutingFileLine(th, &file, &line);
    else GetFileLineForPC(&ST, PC, wantfile ? &file : NULL, wantline ? &line : NULL);
    if (N == 0 || PC < 0) {
        CHECK("without a position there is no file and line 0", (!wantfile || file == NULL) && (!wantline || line == 0));
    } else {
        CHECK("the file is that of the last record at or before the instruction", !wantfile || file == (TAB[ANS].fileStrIndex < 0 ? NULL : STRINGS[TAB[ANS].fileStrIndex]));
        CHECK("the line is that of the last record at or before the instruction", !wantline || line == TAB[ANS].line);
    }
}
void harness(void) {
    STP = NEW(Tiny_State);
    PC = (int)in_range(-1, INT32_MAX);
    N = (int)in_range(0, MAXN);
    ANS = (int)in_range(0, MAXN);
    REACH("pre");
    if (N == 0) {
        ST.pcToFileLine = NULL;
        run();
        return;
    }
    ASSUME(ANS < N);
    ST.pcToFileLine = TAB = table(N, 0);
#if HOOKED
    entry(ANS);
    if (ANS + 1 < N) { entry(ANS + 1); ASSUME(TAB[ANS + 1].pc > TAB[ANS].pc && TAB[ANS + 1].pc > PC); }
    ASSUME(ANS == 0 || TAB[ANS].pc <= PC);
#else
    int pc = (int)in_range(0, 3);
    for (int i = 0; i < MAXN; i++) if (i < N) { entry(i); TAB[i].pc = pc; pc += (int)in_range(1, 3); }
    PC = (int)in_range(-1, 20);
    for (ANS = N - 1; ANS > 0 && TAB[ANS].pc > PC; ANS--);
#endif
    run();
    REACH("post");
}
#endif
#ifdef ADD
static int I;
static bool NEWTAB, FULL;
#ifndef VC_NATIVE
void *Grow_spec(Tiny_Context *ctx, void *arr, int inc, int itemsize) {
    CHECK("the table grows by one record", inc == 1 && itemsize == sizeof(Tiny_PCToFileLine) && arr == (N == 0 ? NULL : (void *)TAB));
    CHECK("the table only grows when it is full", N == 0 || FULL);
#ifdef MOVED
    Tiny_PCToFileLine *b = table(N, 2);
    for (int i = 0; i < N; i++) b[i] = TAB[i];
#else /* the allocator may return the same block */
    Tiny_PCToFileLine *b = TAB;
    (b - 1)->fileStrIndex += 2;
#endif
    NEWTAB = true;
    TAB = b;
    return b;
}
#else
static void *host_alloc(void *p, size_t n, void *u) { /* the buffer here starts inside its block */
    char *q = malloc(n);
    if (p) memcpy(q, p, n < 8 + 12 * (size_t)N ? n : 8 + 12 * (size_t)N);
    return q;
}
#endif
/* table of N records in place; rec is added */
static void run(Tiny_PCToFileLine old, Tiny_PCToFileLine last) {
    Tiny_PCToFileLine rec = {(int)in_range(0, INT32_MAX), (int)in_range(-1, 2), (int)in_range(0, INT32_MAX)};
    ASSUME(N == 0 || rec.pc >= last.pc); /* code is only appended */
    AddPCFileLineRecord(&ST, rec);
    bool same = N > 0 && rec.pc == last.pc;
    int n = same ? N : N + 1;
    CHECK("there is one record per instruction", sb_count(ST.pcToFileLine) == n);
    Tiny_PCToFileLine *t = ST.pcToFileLine + n - 1;
    CHECK("the last record is the new one", t->pc == rec.pc && t->fileStrIndex == rec.fileStrIndex && t->line == rec.line);
    if (N > 0 && I != n - 1) {
        Tiny_PCToFileLine *o = ST.pcToFileLine + I;
        CHECK("the other records stay", o->pc == old.pc && o->fileStrIndex == old.fileStrIndex && o->line == old.line);
        CHECK("the table stays sorted", o->pc < t->pc);
    }
}
void harness(void) {
    STP = NEW(Tiny_State);
#ifdef MOVED
    N = MOVED;
#else
    N = (int)in_range(0, MAXN);
#endif
    I = (int)in_range(0, MAXN);
    FULL = in_bool();
    REACH("pre");
#ifdef VC_NATIVE
    ST.ctx.alloc = host_alloc;
#endif
#if defined(MOVED) && !MOVED
    Tiny_PCToFileLine none = {0, 0, 0};
    ST.pcToFileLine = NULL;
    run(none, none);
#else
    ASSUME(I < N);
    ST.pcToFileLine = TAB = table(N, 2);
    if (FULL) (TAB - 1)->fileStrIndex = N;
    entry(I);
    if (I != N - 1) { entry(N - 1); ASSUME(TAB[I].pc < TAB[N - 1].pc); }
    run(TAB[I], TAB[N - 1]);
#endif
    REACH("post");
}
#endif

#ifdef STATEMENT /* a statement of any kind records its position under the instruction that comes next, before it emits code */
static Tiny_State *STP;
#define ST (*STP)
static struct { int m, n; Word p[4]; } CODE;
static Tiny_Expr NODE[2];
static Tiny_Symbol FN, TAGSYM;
static Tiny_StringNode NM;
static char NAME[2];
static bool RECORDED, FILE_GIVEN;
static int STRIDX, LINE;
void VC_REAL_CompileStatement(Tiny_State *, Tiny_Expr *);
#ifndef VC_NATIVE
static void emits(void) { CHECK("the position is recorded before the statement's code", RECORDED); REACH("emits"); ASSUME(false); }
void Record_spec(Tiny_State *s, const Tiny_PCToFileLine r) {
    CHECK("a statement records its position once", !RECORDED);
    CHECK("the record is for the next instruction", r.pc == CODE.n);
    CHECK("the record's line is the statement's", r.line == LINE);
    CHECK("the record's file is the one being compiled", r.fileStrIndex == (FILE_GIVEN ? STRIDX : -1));
    RECORDED = true;
}
int Register_spec(Tiny_State *s, const char *t) {
    CHECK("the file's name is registered", FILE_GIVEN && t == NAME);
    return STRIDX;
}
void GenerateCode_spec(Tiny_State *s, Word w) { emits(); }
Tiny_ConstantIndex GenerateJump_spec(Tiny_State *s, Word w, Tiny_ConstantIndex to) { emits(); return 0; }
void CompileExpr_spec(Tiny_State *s, Tiny_Expr *e) { emits(); }
void CompileGetLHS_spec(Tiny_State *s, Tiny_Expr *e) { emits(); }
void CompileCall_spec(Tiny_State *s, Tiny_Expr *e) { emits(); }
void CompileStatement_spec(Tiny_State *s, Tiny_Expr *e) { emits(); }
void ReportErrorE_spec(Tiny_State *s, const Tiny_Expr *e, const char *m, ...) { ASSUME(false); }
#endif
void harness(void) {
    STP = NEW(Tiny_State);
    static const Tiny_ExprType types[] = {TINY_EXP_CALL, TINY_EXP_BLOCK, TINY_EXP_BINARY, TINY_EXP_PROC, TINY_EXP_IF, TINY_EXP_WHILE, TINY_EXP_FOR, TINY_EXP_RETURN, TINY_EXP_BREAK, TINY_EXP_CONTINUE, TINY_EXP_USE};
    Tiny_Expr *e = &NODE[0], *sub = &NODE[1];
    CODE.m = 4;
    CODE.n = (int)in_range(0, INT32_MAX);
    ST.program = CODE.p;
    FILE_GIVEN = in_bool();
    ST.l.fileName = FILE_GIVEN ? NAME : NULL;
    STRIDX = (int)in_range(0, 1023);
    e->type = types[in_range(0, 10)];
    e->lineNumber = LINE = (int)in_range(0, INT32_MAX);
    sub->type = TINY_EXP_ID;
    sub->id.name = &NM;
    NM.value = NAME;
    REACH("pre");
    switch (e->type) { /* the parts are there; what they are does not matter */
        case TINY_EXP_CALL: e->call.calleeName = &NM; break;
        case TINY_EXP_BLOCK: e->blockHead = sub; break;
        case TINY_EXP_BINARY: e->binary.lhs = sub; e->binary.rhs = sub; e->binary.op = (Tiny_TokenKind)in_range(0, TINY_TOK_EOF); break;
        case TINY_EXP_PROC: e->proc.decl = &FN; FN.func.locals = NULL; ST.functionPcs = NULL; e->proc.body = sub; break;
        case TINY_EXP_IF: e->ifx.cond = e->ifx.body = e->ifx.alt = sub; break;
        case TINY_EXP_WHILE: e->whilex.cond = e->whilex.body = sub; break;
        case TINY_EXP_FOR: e->forx.init = e->forx.cond = e->forx.step = e->forx.body = sub; break;
        case TINY_EXP_RETURN: e->retExpr = in_bool() ? sub : NULL; break;
        default: break;
    }
#ifndef VC_NATIVE
    VC_REAL_CompileStatement(&ST, e);
    CHECK("every statement records its position", RECORDED);
#endif
    REACH("post");
}
#endif
