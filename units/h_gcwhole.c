/* Native companion of the collector's units: a whole collection, or the end of a thread, on a small arbitrary heap,
 * against reachability computed here.  It decides nothing; it looks for an input that shows a failed proof on the real code. */
#include "vc.h"
#define TINY_THREAD_STACK_SIZE 8
#define TINY_THREAD_MAX_CALL_DEPTH 4
#include "all.h"
#include "array.c"
#include "dict.c"
#include "std.c"
#include "values.h"
#define NO 10
enum { STR_OWN, STR_COPY, STRUCT_, LIST_, PRIMS_, DICT_, CUSTOM_, PLAIN_, NKINDS };
static Tiny_StateThread TH;
static Tiny_State ST;
static int N, LIVE, KINDS[NO], NREF[NO], REF[NO][6], FINALS[NO];
static Tiny_Value VAL[NO], GLOB[3];
static Tiny_Value REFS[NO][3];
static void *host(void *p, size_t n, void *u) {
    CHECK("the thread's context is used", u == (void *)&ST);
    if (n == 0) { if (p) LIVE--; free(p); return NULL; }
    if (!p) LIVE++;
    return realloc(p, n);
}
static void custom_mark(void *a) { int k = (int)((char *)a - (char *)FINALS) / (int)sizeof(int); for (int i = 0; i < NREF[k]; i++) Tiny_ProtectFromGC(REFS[k][i]); }
static void custom_final(Tiny_Context *c, void *a) { CHECK("the finalizer gets the thread's context", c == &TH.ctx); ++*(int *)a; }
static Tiny_NativeProp CUSTOM = {"custom", custom_mark, custom_final}, PLAIN = {"plain", NULL, custom_final};
static Tiny_Value any_ref(int *to) {
    int k = (int)in_range(-2, N - 1);
    *to = k;
    if (k == -1) return mk_int(7);
    if (k < 0) { Tiny_Value v = mk_null(); v.i = (int64_t)(uintptr_t)VAL[0].obj; v.type = in_bool() ? TINY_VAL_LIGHT_NATIVE : TINY_VAL_INT; return v; }
    return VAL[k];
}
static bool is_object_of(Tiny_Value v, int r) { return (v.type == TINY_VAL_STRING || v.type == TINY_VAL_NATIVE || v.type == TINY_VAL_STRUCT) && v.obj == VAL[r].obj; }
static bool REACHED[NO];
static void reach(int k) {
    if (k < 0 || REACHED[k]) return;
    REACHED[k] = true;
    for (int i = 0; i < NREF[k]; i++) reach(REF[k][i]);
}
void harness(void) {
    ST.ctx = TH.ctx = (Tiny_Context){host, &ST};
    TH.state = &ST;
    HAVOC(TH.frames);
    N = (int)in_range(1, NO);
    for (int k = 0; k < N; k++) {
        KINDS[k] = (int)in_range(0, NKINDS - 1);
        int f = 1 + (int)in_range(0, 2);
        switch (KINDS[k]) {
            case STR_OWN: { char *t = host(NULL, 3, &ST); memcpy(t, "ab", 3); VAL[k] = Tiny_NewString(&TH, t, 2); } break;
            case STR_COPY: VAL[k] = Tiny_NewStringCopy(&TH, "xyz", 3); break;
            case STRUCT_: VAL[k].type = TINY_VAL_STRUCT; VAL[k].obj = NewStructObject(&TH, (Word)f); NREF[k] = f; break;
            case LIST_: VAL[k] = Tiny_NewNative(&TH, host(NULL, sizeof(Array), &ST), &ArrayProp); NREF[k] = f; break;
            case PRIMS_: VAL[k] = Tiny_NewNative(&TH, host(NULL, sizeof(Array), &ST), &PrimitiveArrayProp); break;
            case DICT_: VAL[k] = Tiny_NewNative(&TH, host(NULL, sizeof(Dict), &ST), &DictProp); NREF[k] = f; break;
            case CUSTOM_: VAL[k] = Tiny_NewNative(&TH, &FINALS[k], &CUSTOM); NREF[k] = f; break;
            default: VAL[k] = in_bool() ? Tiny_NewNative(&TH, &FINALS[k], &PLAIN) : Tiny_NewNative(&TH, &FINALS[k], NULL);
        }
    }
    for (int k = 0; k < N; k++) {
        for (int i = 0; i < NREF[k]; i++) REFS[k][i] = any_ref(&REF[k][i]);
        switch (KINDS[k]) {
            case STRUCT_: for (int i = 0; i < NREF[k]; i++) VAL[k].obj->ostruct.fields[i] = REFS[k][i]; break;
            case LIST_: case PRIMS_: InitArray(VAL[k].obj->nat.addr, TH.ctx); for (int i = 0; i < NREF[k]; i++) ArrayPush(VAL[k].obj->nat.addr, REFS[k][i]); break;
            case DICT_:
                InitDict(VAL[k].obj->nat.addr, TH.ctx);
                for (int i = 0; i < NREF[k]; i++) { /* values, or keys where a key is allowed */
                    int r = REF[k][i];
                    if (r >= 0 && KINDS[r] == STRUCT_ && in_bool()) DictSet(VAL[k].obj->nat.addr, REFS[k][i], mk_int(1));
                    else DictSet(VAL[k].obj->nat.addr, mk_int((int64_t)in_range(1, 40) * 3 + i), REFS[k][i]);
                }
                break;
        }
    }
    /* entries that share a key overwrite each other: read the edges back */
    for (int k = 0; k < N; k++) if (KINDS[k] == DICT_) {
        Dict *d = VAL[k].obj->nat.addr;
        NREF[k] = 0;
        for (int b = 0; b < d->bucketCount; b++) for (int s = 0; s < 2; s++) {
            Tiny_Value v = *ArrayGet(s ? &d->values : &d->keys, b);
            for (int r = 0; r < N; r++) if (is_object_of(v, r)) REF[k][NREF[k]++] = r;
        }
    }
    int to;
    TH.sp = (int)in_range(0, TINY_THREAD_STACK_SIZE);
    TH.fp = (int)in_range(0, TH.sp);
    TH.fc = (int)in_range(0, TINY_THREAD_MAX_CALL_DEPTH);
    for (int i = 0; i < TINY_THREAD_STACK_SIZE; i++) { if (in_bool()) TH.stack[i] = mk_null(), to = -1; else TH.stack[i] = any_ref(&to); if (i < TH.sp) reach(to); }
    ST.numGlobalVars = (int)in_range(0, 3);
    TH.globalVars = host(NULL, sizeof GLOB, &ST);
    for (int i = 0; i < ST.numGlobalVars; i++) { TH.globalVars[i] = in_bool() ? mk_null() : any_ref(&to); if (!Tiny_IsNull(TH.globalVars[i])) reach(to); }
    to = -1;
    TH.retVal = in_bool() ? mk_null() : any_ref(&to);
    reach(to);
    int kept = 0;
    CHECK("every object is counted", TH.numObjects == N);
    GarbageCollect(&TH);
    Tiny_Object *o = TH.gcHead;
    for (int k = N - 1; k >= 0; k--) {
        if (!REACHED[k]) { CHECK("the finalizer of an unreachable object has run once", KINDS[k] < CUSTOM_ || FINALS[k] <= 1); if (KINDS[k] == CUSTOM_) CHECK("the finalizer of an unreachable object has run", FINALS[k] == 1); continue; }
        kept++;
        CHECK("exactly the reachable objects stay on the list, in order", o == VAL[k].obj);
        CHECK("a surviving object is unmarked", !o->marked);
        CHECK("no finalizer of a survivor has run", FINALS[k] == 0);
        if (KINDS[k] == STR_OWN) CHECK("a surviving string keeps its text", o->string.len == 2 && !memcmp(o->string.ptr, "ab", 3));
        if (KINDS[k] == STR_COPY) CHECK("a surviving string keeps its text", o->string.len == 3 && !memcmp(o->string.ptr, "xyz", 4));
        if (KINDS[k] == STRUCT_) for (int i = 0; i < NREF[k]; i++) CHECK("a surviving struct keeps its fields", same_value(o->ostruct.fields[i], REFS[k][i]));
        o = o->next;
    }
    CHECK("exactly the reachable objects stay on the list, in order", o == NULL);
    CHECK("the survivors are counted", TH.numObjects == kept);
    Tiny_DestroyThread(&TH);
    for (int k = 0; k < N; k++) if (KINDS[k] == CUSTOM_) CHECK("every finalizer has run once in the end", FINALS[k] == 1);
    CHECK("all memory is given back", LIVE == 0);
}
