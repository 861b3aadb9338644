/* Names and storage (tiny.c: ReferenceVariable, ReferenceFunction, Declare*, OpenScope, CloseScope) over symbol tables of
 * any size.  Each search loop is cut at an arbitrary entry; a table enters through its first entry that answers the
 * search (HIT, -1 if there is none) and the entry under the cut. */
#include "vc.h"
#ifdef VC_NATIVE
#undef HOOKED
#endif
#if HOOKED
static void cut(int table, int *i);
#define VC_LOOP_ref_locals(i) cut(0, &(i))
#define VC_LOOP_declare_local(i) cut(0, &(i))
#define VC_LOOP_close_scope(i) cut(0, &(i))
#define VC_LOOP_ref_args(i) cut(1, &(i))
#define VC_LOOP_declare_arg(i) cut(1, &(i))
#define VC_LOOP_ref_globals(i) cut(2, &(i))
#define VC_LOOP_ref_function(i) cut(2, &(i))
#define MAXN (1 << 20)
#else
#define MAXN 3
#endif
#include "all_flat.h"

static char THE_NAME[] = "x", OTHER_NAME[] = "y", FUNC_NAME[] = "f"; /* names are compared, nothing else */
static char COPY[2];
static Tiny_State ST;
static Tiny_Symbol F, NEW, ENTRY[3][3 + 1];
static Tiny_Symbol **TAB[3], *PICK[3];
static int N[3], HIT[3], AT[3], CUTS[3];
static bool INFUNC;

/* does an entry answer the search? */
static bool answers(int t, const Tiny_Symbol *s) {
    bool named = s->name == THE_NAME;
#ifdef CLOSE
    return false;
#endif
    if (t == 0) return named && !s->var.scopeEnded;
    if (t == 1) return named;
#if defined(REFFN)
    return named && (s->type == TINY_SYM_FUNCTION || s->type == TINY_SYM_FOREIGN_FUNCTION);
#else
    return named && (s->type == TINY_SYM_GLOBAL || s->type == TINY_SYM_CONST);
#endif
}
static void any_entry(int t, Tiny_Symbol *s, int i) {
    HAVOC(*s);
    s->name = in_bool() ? THE_NAME : OTHER_NAME;
    if (t == 2) {
        s->type = (Tiny_SymbolType)in_range(TINY_SYM_GLOBAL, TINY_SYM_TAG_NULLABLE);
        ASSUME(s->type != TINY_SYM_LOCAL);
        if (s->type == TINY_SYM_GLOBAL) s->var.index = (int)in_range(0, MAXN);
    } else {
        s->type = TINY_SYM_LOCAL;
        s->var.scopeEnded = t == 0 && in_bool();
        s->var.scope = t == 0 ? (int)in_range(0, 1000) : 0;
        s->var.index = t == 0 ? i : i - N[1];
    }
    ASSUME(HIT[t] < 0 || i <= HIT[t]);
    ASSUME(answers(t, s) == (i == HIT[t]));
}
static void set(int t, int i, Tiny_Symbol *s) { TAB[t][i] = s; }
#if HOOKED
static int OLD_SCOPE;
static bool OLD_ENDED;
static void cut(int t, int *i) {
    if (CUTS[t]++ == 0) {
        CHECK("a search starts with the first entry", *i == 0);
        int k = (int)in_range(0, MAXN);
        ASSUME(k < N[t] && (HIT[t] < 0 || k <= HIT[t]));
        *i = AT[t] = k;
        any_entry(t, &ENTRY[t][0], k);
        set(t, k, &ENTRY[t][0]);
#ifdef CLOSE
        OLD_ENDED = ENTRY[0][0].var.scopeEnded;
#endif
    } else {
        CHECK("a search stops at the first answer", AT[t] != HIT[t]);
        CHECK("a search goes on to the next entry", *i == AT[t] + 1);
#ifdef CLOSE
        CHECK("exactly the variables of the closed block end", ENTRY[0][0].var.scopeEnded == (OLD_ENDED || ENTRY[0][0].var.scope == OLD_SCOPE));
#endif
        REACH("loop");
        ASSUME(false);
    }
}
#endif
static Tiny_Symbol *hit(int t) {
#if HOOKED
    return HIT[t] >= 0 ? &ENTRY[t][0] : NULL;
#else
    return HIT[t] >= 0 ? &ENTRY[t][HIT[t]] : NULL;
#endif
}
static Tiny_Symbol **table(int t, int room) { /* a stretchy buffer of N[t] entries and room for more */
#if HOOKED
    Tiny_Symbol **b = malloc(sizeof(Tiny_Symbol *) * (size_t)(1 + N[t] + room));
#else
    Tiny_Symbol **b = malloc(sizeof(Tiny_Symbol *) * (size_t)(1 + 8));
#endif
    ((int *)b)[0] = N[t] + room;
    ((int *)b)[1] = N[t];
    TAB[t] = b + 1;
#if !HOOKED
    for (int i = 0; i < MAXN; i++) if (i < N[t]) {
        if (HIT[t] < 0 || i <= HIT[t]) any_entry(t, &ENTRY[t][i], i);
        else { ENTRY[t][i].name = in_bool() ? THE_NAME : OTHER_NAME; ENTRY[t][i].type = t == 2 ? TINY_SYM_GLOBAL : TINY_SYM_LOCAL; ENTRY[t][i].var.scopeEnded = true; }
        set(t, i, &ENTRY[t][i]);
    }
#endif
    return TAB[t];
}
static int ROOM;
static void world(bool infunc) {
    INFUNC = infunc;
    ROOM = (int)in_range(0, 3);
    for (int t = 0; t < 3; t++) {
        N[t] = (int)in_range(0, MAXN);
        HIT[t] = (int)in_range(-1, MAXN);
#ifdef CLOSE
        HIT[t] = -1;
#endif
        ASSUME(HIT[t] < N[t]);
        Tiny_Symbol **b = N[t] == 0 && in_bool() ? NULL : table(t, ROOM);
        if (t == 0) F.func.locals = b;
        if (t == 1) F.func.args = b;
        if (t == 2) ST.globalSymbols = b;
    }
    F.type = TINY_SYM_FUNCTION;
    F.name = FUNC_NAME;
    ST.currFunc = infunc ? &F : NULL;
    ST.currScope = (int)in_range(0, 1000);
    ST.numGlobalVars = (int)in_range(0, MAXN);
    ST.numFunctions = (int)in_range(0, MAXN);
}
static bool OK;
static int PUSHES;
#ifndef VC_NATIVE
static bool named(const char *p) { return p == THE_NAME; }
int strcmp_spec(const char *a, const char *b) {
    CHECK("names are compared with the one looked for", (named(a) || a == OTHER_NAME) && (named(b) || b == OTHER_NAME));
    return a == b ? 0 : 1;
}
Tiny_Symbol *Create_spec(Tiny_SymbolType type, const char *name, Tiny_State *state) {
    CHECK("one symbol is made, with the declared name", named(name) && PUSHES++ == 0);
    NEW.type = type;
    NEW.name = COPY;
    if (type == TINY_SYM_GLOBAL || type == TINY_SYM_LOCAL) NEW.var.tag = &NEW; /* a fresh symbol holds anything */
    return &NEW;
}
void ReportErrorSL_spec(Tiny_State *s, const char *m, ...) {
    CHECK("a declaration is rejected only if its name is taken", !OK);
#ifdef REJECTS
    REACH("rejected");
#endif
    ASSUME(false);
}
/* growth of a table: more room, same entries (unit sb_grow) */
void *Grow_spec(Tiny_Context *ctx, void *arr, int inc, int itemsize) {
    CHECK("a table grows by one entry", inc == 1 && itemsize == sizeof(Tiny_Symbol *));
    int t = arr == F.func.locals ? 0 : arr == F.func.args ? 1 : 2;
    int n = arr ? N[t] : 0;
    Tiny_Symbol **b = malloc(sizeof(Tiny_Symbol *) * (size_t)(1 + n + 2));
    ((int *)b)[0] = n + 2;
    ((int *)b)[1] = n;
#if HOOKED
    if (CUTS[t]) b[1 + AT[t]] = ((Tiny_Symbol **)arr)[AT[t]];
#else
    for (int i = 0; i < MAXN; i++) if (i < n) b[1 + i] = ((Tiny_Symbol **)arr)[i];
#endif
    return b + 1;
}
#endif
#ifdef VC_NATIVE
#define GUARD                                                                                     \
    ST.compileCallNestCount = 1;                                                                  \
    if (setjmp(ST.compileErrorJmpBufs[0])) { CHECK("a declaration is rejected only if its name is taken", !OK); return; }
static bool is_name(const char *p) { return !strcmp(p, "x"); }
static void *host_alloc(void *p, size_t n, void *u) { if (!n) { free(p); return NULL; } return realloc(p, n); }
#else
#define GUARD
static bool is_name(const char *p) { return p == COPY; }
#endif
/* the declared symbol is the last entry of its table, and the others stay */
static void declared(int t, Tiny_Symbol **tab, Tiny_Symbol *s, Tiny_SymbolType type) {
    CHECK("a declaration whose name is taken is rejected", OK);
    CHECK("the new symbol carries the declared name", s && s->type == type && is_name(s->name));
    CHECK("the new symbol is added to its table", sb_count(tab) == N[t] + 1 && tab[N[t]] == s);
#if HOOKED
    if (CUTS[t]) CHECK("the other entries stay", tab[AT[t]] == &ENTRY[t][0]);
#else
    for (int i = 0; i < N[t]; i++) CHECK("the other entries stay", tab[i] == &ENTRY[t][i]);
#endif
}
static void init(void) {
    HAVOC(ST);
    HAVOC(F);
    HAVOC(NEW);
#ifdef VC_NATIVE
    ST.ctx.alloc = host_alloc;
    ST.l.src = "x";
    ST.l.fileName = (char *)"f";
#endif
}

#ifdef REFVAR
void harness(void) {
    init();
    world(in_bool());
    REACH("pre");
    Tiny_Symbol *r = ReferenceVariable(&ST, THE_NAME), *want = NULL;
    if (INFUNC) want = hit(0) ? hit(0) : hit(1);
    if (!want) want = hit(2);
    CHECK("a name is its live local, else its parameter, else its global", r == want);
    REACH("post");
}
#endif
#ifdef REFFN
void harness(void) {
    init();
    world(in_bool());
    REACH("pre");
    CHECK("a function's name is its first function", ReferenceFunction(&ST, THE_NAME) == hit(2));
    REACH("post");
}
#endif
#ifdef DLOCAL
void harness(void) {
    init();
    world(true);
    OK = HIT[0] < 0;
    REACH("pre");
    GUARD
    Tiny_Symbol *s = DeclareLocal(&ST, THE_NAME);
    declared(0, F.func.locals, s, TINY_SYM_LOCAL);
    CHECK("a local has a slot of its own", s->var.index == N[0]);
    CHECK("a new variable has no type yet", s->var.tag == NULL);
    CHECK("a local is live until its block ends", !s->var.scopeEnded && s->var.scope == ST.currScope);
    REACH("post");
}
#endif
#ifdef DARG
void harness(void) {
    init();
    world(true);
    OK = HIT[1] < 0;
    int nargs = (int)in_range(1, MAXN);
    ASSUME(nargs > N[1]);
    Tiny_Symbol tag;
    REACH("pre");
    GUARD
    Tiny_Symbol *s = DeclareArgument(&ST, THE_NAME, &tag, nargs);
    declared(1, F.func.args, s, TINY_SYM_LOCAL);
    CHECK("parameter i of n is i - n from the frame", s->var.index == N[1] - nargs);
    CHECK("a parameter has its declared type", s->var.tag == &tag);
    CHECK("a parameter is visible in the whole function", !s->var.scopeEnded && s->var.scope == 0);
    REACH("post");
}
#endif
#ifdef DGLOBAL
void harness(void) {
    init();
    world(false);
    OK = HIT[2] < 0;
    int n = ST.numGlobalVars;
    REACH("pre");
    GUARD
    Tiny_Symbol *s = DeclareGlobalVar(&ST, THE_NAME);
    declared(2, ST.globalSymbols, s, TINY_SYM_GLOBAL);
    CHECK("a global has a slot of its own", s->var.index == n && ST.numGlobalVars == n + 1);
    CHECK("a new variable has no type yet", s->var.tag == NULL);
    REACH("post");
}
#endif
#ifdef DCONST
void harness(void) {
    init();
    world(in_bool());
    OK = HIT[2] < 0 && (!INFUNC || (HIT[0] < 0 && HIT[1] < 0));
    int n = ST.numGlobalVars;
    Tiny_Symbol tag;
    REACH("pre");
    GUARD
    Tiny_Symbol *s = DeclareConst(&ST, THE_NAME, &tag);
    declared(2, ST.globalSymbols, s, TINY_SYM_CONST);
    CHECK("a constant has its type", s->constant.tag == &tag);
    CHECK("a constant takes no storage", ST.numGlobalVars == n);
    REACH("post");
}
#endif
#ifdef DFUNC
void harness(void) {
    init();
    world(false);
    OK = true;
    int n = ST.numFunctions;
    REACH("pre");
    GUARD
    Tiny_Symbol *s = DeclareFunction(&ST, THE_NAME);
    declared(2, ST.globalSymbols, s, TINY_SYM_FUNCTION);
    CHECK("a function has an index of its own", s->func.index == n && ST.numFunctions == n + 1);
    CHECK("a function starts without parameters and locals", sb_count(s->func.args) == 0 && sb_count(s->func.locals) == 0);
    REACH("post");
}
#endif
#ifdef CLOSE
void harness(void) {
    init();
    world(in_bool());
    int scope = ST.currScope;
#if HOOKED
    OLD_SCOPE = scope;
#else
    bool ended[MAXN];
    for (int i = 0; i < MAXN; i++) ended[i] = ENTRY[0][i].var.scopeEnded;
#endif
    REACH("pre");
    if (in_bool()) {
        OpenScope(&ST);
        CHECK("a block opens a scope of its own", ST.currScope == scope + 1);
    } else {
        CloseScope(&ST);
        CHECK("a block that ends returns to the scope around it", ST.currScope == scope - 1);
#if !HOOKED
        for (int i = 0; i < N[0]; i++) CHECK("exactly the variables of the closed block end", ENTRY[0][i].var.scopeEnded == (ended[i] || (INFUNC && ENTRY[0][i].var.scope == scope)));
#endif
    }
    CHECK("the tables are unchanged", sb_count(F.func.locals) == N[0] && sb_count(F.func.args) == N[1] && sb_count(ST.globalSymbols) == N[2]);
    REACH("post");
}
#endif
