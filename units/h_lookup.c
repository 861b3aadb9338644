/* Lookup by name (tiny.c: GetFieldTag, GetTagFromName, GetStructTag, DeclareStruct, GetOrCreateNullable, RegisterString) in
 * tables of any size.  A search loop is cut at an arbitrary entry; a table enters through its first entry that answers
 * the search (HIT, -1 if there is none) and the entry under the cut. */
#include "vc.h"
#ifdef VC_NATIVE
#undef HOOKED
#endif
#if HOOKED
static void cut(int *i);
#define VC_LOOP_register_string(i) cut(&(i))
#define VC_LOOP_tag_from_name(i) cut(&(i))
#define VC_LOOP_struct_tag(i) cut(&(i))
#define VC_LOOP_nullable(i) cut(&(i))
#define VC_LOOP_field_tag(i) cut(&(i))
#define MAXN (1 << 20)
#else
#define MAXN 3
#endif
#include "all_flat.h"

static char THE_BUF[] = "x", OTHER_NAME[] = "y";
static const char *const PRIMS[] = {"void", "bool", "int", "float", "str", "any"};
#ifdef VC_NATIVE
static const char *THE_NAME;
#else
#define THE_NAME ((const char *)THE_BUF)
#endif
static char COPY[2];
static Tiny_State ST;
static Tiny_Symbol S, NEW, INNER, OUTER, ENTRY[3 + 1];
static Tiny_Symbol **TAB;
static int N, HIT, AT, CUTS, PRIMK, PUSHES, DECLARES, ROOM;
static bool MAY;
static Tiny_Context *CTX;

static bool answers(const Tiny_Symbol *s) {
    bool n = s->name == THE_NAME;
#if defined(FIELD)
    return n;
#elif defined(NULLABLE)
    return s->type == TINY_SYM_TAG_NULLABLE && s->nullableTag == &INNER;
#elif defined(DSTRUCT) || defined(GETSTRUCT)
    return n && s->type == TINY_SYM_TAG_STRUCT;
#else
    return n && (s->type == TINY_SYM_TAG_STRUCT || s->type == TINY_SYM_TAG_FOREIGN);
#endif
}
static void any_entry(Tiny_Symbol *s, int i) {
    HAVOC(*s);
    s->name = (char *)(in_bool() ? THE_NAME : OTHER_NAME);
    s->type = (Tiny_SymbolType)in_range(TINY_SYM_GLOBAL, TINY_SYM_TAG_NULLABLE);
    ASSUME(s->type != TINY_SYM_LOCAL);
#ifdef FIELD
    s->type = TINY_SYM_FIELD;
    s->fieldTag = in_bool() ? &INNER : &OUTER;
#endif
#ifdef NULLABLE
    s->nullableTag = in_bool() ? &INNER : &OUTER;
#endif
    ASSUME(HIT < 0 || i <= HIT);
    ASSUME(answers(s) == (i == HIT));
}
static int SLOTI;
#if HOOKED
static void cut(int *i) {
    if (CUTS++ == 0) {
        CHECK("a search starts with the first entry", *i == 0);
        int k = (int)in_range(0, MAXN);
        ASSUME(k < N && (HIT < 0 || k <= HIT));
        *i = AT = k;
#ifdef REGSTR
        bool same = in_bool();
        ASSUME(same == (k == HIT));
        ST.strings[k] = (char *)(same ? THE_NAME : OTHER_NAME);
#else
        any_entry(&ENTRY[0], k);
        TAB[k] = &ENTRY[0];
#endif
    } else {
        CHECK("a search stops at the first answer", AT != HIT);
        CHECK("a search goes on to the next entry", *i == AT + 1);
#ifndef DSTRUCT
        REACH("loop");
#endif
        ASSUME(false);
    }
}
#endif
#if HOOKED
static Tiny_Symbol *hit(void) { return HIT >= 0 ? &ENTRY[0] : NULL; }
#else
static Tiny_Symbol *hit(void) { return HIT >= 0 ? &ENTRY[HIT] : NULL; }
#endif
static Tiny_Symbol **table(void) {
    N = (int)in_range(0, MAXN);
    HIT = (int)in_range(-1, MAXN);
    ROOM = (int)in_range(0, 3);
    ASSUME(HIT < N);
    if (N == 0 && in_bool()) return TAB = NULL;
#if HOOKED
    Tiny_Symbol **b = malloc(sizeof(Tiny_Symbol *) * (size_t)(1 + N + ROOM));
#else
    Tiny_Symbol **b = malloc(sizeof(Tiny_Symbol *) * (size_t)(1 + 8));
#endif
    ((int *)b)[0] = N + ROOM;
    ((int *)b)[1] = N;
    TAB = b + 1;
#if !HOOKED
    for (int i = 0; i < MAXN; i++) if (i < N) {
        if (HIT < 0 || i <= HIT) any_entry(&ENTRY[i], i);
        else {
            ENTRY[i].name = (char *)(in_bool() ? THE_NAME : OTHER_NAME); ENTRY[i].type = TINY_SYM_GLOBAL;
#ifdef FIELD
            ENTRY[i].type = TINY_SYM_FIELD; ENTRY[i].fieldTag = &OUTER;
#endif
        }
        TAB[i] = &ENTRY[i];
    }
#endif
    return TAB;
}
#ifndef VC_NATIVE
static int prim_of(const char *p) {
    for (int k = 0; k < 6; k++) {
        int i = 0;
        while (PRIMS[k][i] && PRIMS[k][i] == p[i]) i++;
        if (!PRIMS[k][i] && !p[i]) return k;
    }
    return -1;
}
static bool known(const char *p) { return p == THE_NAME || p == OTHER_NAME; }
int strcmp_spec(const char *a, const char *b) {
    if (a == b) return 0;
    const char *o = a == THE_NAME ? b : a;
    CHECK("names are compared with the one looked for", a == THE_NAME || b == THE_NAME);
#ifndef TAG
    CHECK("names are compared with names in the table", o == OTHER_NAME);
    return 1;
#endif
    if (o == OTHER_NAME) return 1;
    int k = prim_of(o);
    CHECK("names are compared with names of types", k >= 0);
    return k == PRIMK ? 0 : 1;
}
Tiny_Symbol *Create_spec(Tiny_SymbolType type, const char *name, Tiny_State *state) {
    CHECK("one symbol is made", PUSHES++ == 0);
#ifndef NULLABLE
    CHECK("the symbol has the name looked for", name == THE_NAME);
#endif
    NEW.type = type;
    NEW.name = COPY;
    return &NEW;
}
Tiny_Symbol *Struct_spec(Tiny_State *s, const char *name, bool search) {
    CHECK("an unknown type is declared as a struct once, if that is wanted", s == &ST && name == THE_NAME && MAY && HIT < 0 && PRIMK < 0 && DECLARES++ == 0);
    return &NEW;
}
char *Clone_spec(Tiny_Context *c, const char *p) {
    CHECK("a new string is copied, once", p == THE_NAME && c == &ST.ctx && PUSHES++ == 0);
    return COPY;
}
const char *TagName_spec(const Tiny_Symbol *s) { CHECK("the inner type gives the name", s == &INNER); return OTHER_NAME; }
int snprintf_spec(char *p, size_t n, const char *f, ...) { p[0] = 'y'; p[1] = '?'; p[2] = 0; return 2; }
void *Grow_spec(Tiny_Context *ctx, void *arr, int inc, int itemsize) {
    CHECK("the table grows by one entry", inc == 1 && itemsize == sizeof(Tiny_Symbol *) && arr == TAB);
    int n = arr ? N : 0;
    Tiny_Symbol **b = malloc(sizeof(Tiny_Symbol *) * (size_t)(1 + n + 2));
    ((int *)b)[0] = n + 2;
    ((int *)b)[1] = n;
#if HOOKED
    if (CUTS) b[1 + AT] = ((Tiny_Symbol **)arr)[AT];
#else
    for (int i = 0; i < 3; i++) if (i < n) b[1 + i] = ((Tiny_Symbol **)arr)[i];
#endif
    return b + 1;
}
#else
static void *host_alloc(void *p, size_t n, void *u) { if (!n) { free(p); return NULL; } return realloc(p, n); }
#endif
static void begin(void) {
    HAVOC(S); HAVOC(NEW); HAVOC(INNER); HAVOC(OUTER);
    PRIMK = -1;
#ifdef TAG
    PRIMK = (int)in_range(-1, 5);
#endif
#ifdef VC_NATIVE
    ST.ctx.alloc = host_alloc;
    THE_NAME = PRIMK >= 0 ? PRIMS[PRIMK] : THE_BUF;
    INNER.type = TINY_SYM_TAG_STRUCT; INNER.name = OTHER_NAME;
#endif
    MAY = in_bool();
}
static void pushed(Tiny_Symbol *s, Tiny_SymbolType type) {
    Tiny_Symbol **t = ST.globalSymbols;
    CHECK("a new symbol of the right kind is made", s && s->type == type);
    CHECK("the new symbol is added to the table", sb_count(t) == N + 1 && t[N] == s);
#if HOOKED
    if (CUTS) CHECK("the other entries stay", t[AT] == &ENTRY[0]);
#else
    for (int i = 0; i < N; i++) CHECK("the other entries stay", t[i] == &ENTRY[i]);
#endif
}
#ifdef FIELD
void harness(void) {
    begin();
    S.type = TINY_SYM_TAG_STRUCT;
    S.sstruct.defined = true;
    S.sstruct.fields = table();
    int at = 77;
    REACH("pre");
    Tiny_Symbol *r = GetFieldTag(&S, THE_NAME, MAY ? &at : NULL);
    CHECK("a field's type is found by its name", r == (hit() ? hit()->fieldTag : NULL));
    CHECK("a field's place in the struct is found by its name", at == (MAY ? HIT : 77));
    CHECK("the struct is unchanged", S.sstruct.fields == TAB);
    REACH("post");
}
#endif
#ifdef TAG
void harness(void) {
    begin();
    ST.globalSymbols = table();
    REACH("pre");
    Tiny_Symbol *r = GetTagFromName(&ST, THE_NAME, MAY);
    if (PRIMK >= 0) CHECK("a primitive type is found by its name", r == GetPrimTag((Tiny_SymbolType)(TINY_SYM_TAG_VOID + PRIMK)));
    else if (HIT >= 0) CHECK("a struct or host type is found by its name", r == hit());
    else if (!MAY) CHECK("an unknown name is no type", r == NULL && ST.globalSymbols == TAB);
#ifdef VC_NATIVE
    else pushed(r, TINY_SYM_TAG_STRUCT);
#else
    else CHECK("an unknown type becomes a struct to be defined", r == &NEW);
#endif
    REACH("post");
}
#endif
#ifdef NULLABLE
void harness(void) {
    begin();
    ST.globalSymbols = table();
    REACH("pre");
    Tiny_Symbol *r = GetOrCreateNullable(&ST, &INNER);
    if (HIT >= 0) CHECK("there is one nullable type per type", r == hit() && ST.globalSymbols == TAB);
    else { pushed(r, TINY_SYM_TAG_NULLABLE); CHECK("the nullable type is the one of its inner type", r->nullableTag == &INNER && r->name != NULL); }
    REACH("post");
}
#endif
#ifdef GETSTRUCT
void harness(void) {
    begin();
    ST.globalSymbols = table();
    REACH("pre");
    CHECK("a struct type is found by its name", GetStructTag(&ST, THE_NAME) == hit());
    CHECK("the table is unchanged", ST.globalSymbols == TAB);
    REACH("post");
}
#endif
#ifdef DSTRUCT
#ifndef VC_NATIVE
Tiny_Symbol *GetStruct_spec(Tiny_State *s, const char *name) {
    CHECK("the struct is looked for by its name", s == &ST && name == THE_NAME && MAY);
    return HIT >= 0 ? &ENTRY[0] : NULL;
}
#endif
void harness(void) {
    begin();
    ST.globalSymbols = table();
    REACH("pre");
    Tiny_Symbol *r = DeclareStruct(&ST, THE_NAME, MAY);
    if (MAY && HIT >= 0) CHECK("there is one struct type per name", r == hit() && ST.globalSymbols == TAB);
    else { pushed(r, TINY_SYM_TAG_STRUCT); CHECK("a declared struct is not defined yet and has no fields", !r->sstruct.defined && sb_count(r->sstruct.fields) == 0); }
    REACH("post");
}
#endif
#ifdef REGSTR
#define MAXS ((int)(sizeof ST.strings / sizeof *ST.strings))
void harness(void) {
    begin();
    N = ST.numStrings = (int)in_range(0, MAXS);
#ifdef VC_NATIVE
    N = ST.numStrings = N % 4;
    for (int i = 0; i < N; i++) ST.strings[i] = in_bool() ? OTHER_NAME : (char *)"z";
#endif
    HIT = (int)in_range(-1, MAXS - 1);
    ASSUME(HIT < N && (HIT >= 0 || N < MAXS)); /* the pool has room; RegisterString asserts it */
    int g = (int)in_range(0, MAXS - 1);
    ASSUME(g < N);
    char *old = OTHER_NAME;
#ifndef VC_NATIVE
    HAVOC(ST.ctx);
    ST.strings[g] = old;
#if !HOOKED
    ASSUME(N <= MAXN);
    for (int i = 0; i < MAXN; i++) if (i < N) ST.strings[i] = i == HIT ? (char *)THE_NAME : OTHER_NAME;
    if (g == HIT) old = (char *)THE_NAME;
#endif
#endif
#ifdef VC_NATIVE
    if (HIT >= 0) ST.strings[HIT] = (char *)THE_NAME;
    old = ST.strings[g];
    int r = RegisterString(&ST, THE_NAME);
#else
    REACH("pre");
    int r = RegisterString(&ST, THE_NAME);
#endif
    if (HIT >= 0) CHECK("a known string keeps its index", r == HIT && ST.numStrings == N && PUSHES == 0);
    else CHECK("a new string gets the next index", r == N && ST.numStrings == N + 1);
#ifdef VC_NATIVE
    CHECK("the index denotes the string", !strcmp(ST.strings[r], THE_NAME));
    CHECK("the other strings keep their indexes", ST.strings[g] == old);
#else
    CHECK("the index denotes the string", ST.strings[r] == (HIT >= 0 ? THE_NAME : COPY));
    CHECK("the other strings keep their indexes", g == r || (CUTS && g == AT) || ST.strings[g] == old);
#endif
    REACH("post");
}
#endif
