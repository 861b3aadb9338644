/* tiny/src/dict.c: one operation on an arbitrary well-formed table, for every table size the code can create (32 * 2^k).
 * The table is seen through the contracts of the array and value functions it calls: reading slot x yields
 * the key that the well-formedness of the table allows there.  d(x) is the distance of x from the key's home slot;
 *   T      distance of the first empty slot (there is one: at most half the slots are filled)
 *   DW     distance of the slot that holds the key, if PRESENT (then DW < T, and no other slot holds an equal key)
 * Keys and values are opaque to the table: a key is known by the slot it is in. */
#include "vc.h"
#ifndef VC_NATIVE
#ifdef TINY_VERIFY
#define VC_LOOP_dict_set(index) set_cut(&(index))
#define VC_LOOP_dict_get(index) get_cut(&(index))
#define VC_LOOP_dict_remove(index, dict) remove_cut(&(index), (dict))
#define VC_LOOP_dict_clear(i) clear_cut(&(i))
#define VC_LOOP_dict_grow(i) clear_cut(&(i))
static void set_cut(unsigned long *index);
static void get_cut(unsigned long *index);
#include "dict.h"
static void remove_cut(unsigned long *index, Dict *dict);
static void clear_cut(int *i);
#endif
#include "dict.c"
const Tiny_Value Tiny_Null = {0};
#include "values.h"
#ifndef SIZES
#define SIZES 5
#endif
static Dict D, *TAB;
static unsigned long H, HOME;
static int BC, T, DW, F0;
static bool PRESENT;
static Tiny_Value K0, V0;
static Tiny_Value KC, VC;      /* cells handed out */
static int KWRITES, KAT, VWRITES, VAT, NULLED, NULLS, SETS, CUR, grown;
static Tiny_Value KW, VW;
static bool other_write;
#define SLOT_KEY 1000000000000ll
#define SLOT_VAL 2000000000000ll

static long dist(unsigned long x) { return x >= HOME ? (long)(x - HOME) : (long)(x + BC - HOME); }
static unsigned long slot_at(long d) { unsigned long x = HOME + d; return x >= BC ? x - BC : x; }
static Tiny_Value slot_key(long x) { Tiny_Value v = mk_int(SLOT_KEY + x); v.type = (uint8_t)spec_range(TINY_VAL_BOOL, TINY_VAL_STRUCT); return v; }
static Tiny_Value slot_val(long x) { Tiny_Value v = mk_int(SLOT_VAL + x); v.type = (uint8_t)spec_range(TINY_VAL_NULL, TINY_VAL_STRUCT); return v; }
static bool is_slot_key(Tiny_Value v, long x) { return v.type != TINY_VAL_NULL && v.i == SLOT_KEY + x; }
static bool is_slot_val(Tiny_Value v, long x) { return v.i == SLOT_VAL + x; }

static bool HOME_HERE; /* the key of the slot DictRemove is at has its home there */
unsigned long HashValue_spec(Tiny_Value v) {
    if (v.i == K0.i) return H;
    CHECK("only keys are hashed", v.type != TINY_VAL_NULL && is_slot_key(v, slot_at(CUR)));
    unsigned long h = spec_u64();
    ASSUME((h % BC == slot_at(CUR)) == HOME_HERE);
    return h;
}
static bool equal_slot(Tiny_Value slot) {
    CHECK("the key is compared with keys of the table", slot.type != TINY_VAL_NULL && slot.i >= SLOT_KEY && slot.i < SLOT_KEY + BC);
    return PRESENT && slot.i == SLOT_KEY + (long)slot_at(DW);
}
bool Tiny_AreValuesEqual(const Tiny_Value a, const Tiny_Value b) {
    CHECK("the key is one side of every comparison", (a.i == K0.i) != (b.i == K0.i));
    return a.i == K0.i ? equal_slot(b) : equal_slot(a);
}
#ifdef OP_REMOVE
/* DictRemove walks the cluster slot by slot; when it moves on (or returns) the slot it leaves must have been
 * treated right: the key removed; another key left alone, or taken out and put in again with its value */
static Tiny_Value SETKEY, SETVAL;
static bool SET_WHILE_NULL;
static void finish_slot(void) {
    bool mine = PRESENT && CUR == DW;
    if (CUR == T) {
        CHECK("the end of the cluster is left alone", NULLS == 0 && SETS == 0);
    } else if (mine) {
        CHECK("the key is removed from its slot", NULLS == 1 && SETS == 0);
    } else {
        CHECK("a key that is taken out is put in again, with its value, after its slot is empty",
              (NULLS == 0 && SETS == 0 && HOME_HERE) || (NULLS == 1 && SETS == 1 && SET_WHILE_NULL && is_slot_key(SETKEY, slot_at(CUR)) && is_slot_val(SETVAL, slot_at(CUR))));
    }
    CHECK("the number of entries is kept", D.filledCount == F0 - (PRESENT && CUR >= DW));
}
static void start_slot(long d) { CUR = d; NULLS = SETS = 0; HOME_HERE = spec_bool(); }
static Tiny_Value key_now(unsigned long x) {
    long d = dist(x);
    if (d == CUR + 1) { finish_slot(); start_slot(d); }
    CHECK("slots are visited in probe order", d == CUR && d <= T);
    if (CUR == T || NULLS > SETS || (NULLS && PRESENT && CUR == DW)) return mk_null();
    return slot_key(x);
}
/* contract of DictSet for a key that is not in the table and a table with room: it takes the first empty slot from its home */
void DictSet_spec(Dict *dict, Tiny_Value key, Tiny_Value value) {
    CHECK("put in again into the same table, which has room", dict == &D && dict->filledCount < BC / 2);
    SET_WHILE_NULL = NULLS == 1;
    SETS++;
    SETKEY = key;
    SETVAL = value;
    dict->filledCount++;
}
#elif defined(OP_GROW)
static int GIDX; /* an arbitrary slot of the old table */
static bool FULL_G;
static Dict *NEWD;
static int SET_G, OTHER;
static Tiny_Value key_now(unsigned long x) { return x == GIDX ? (FULL_G ? slot_key(x) : mk_null()) : spec_bool() ? slot_key(x) : mk_null(); }
void DictSet_spec(Dict *dict, Tiny_Value key, Tiny_Value value) {
    CHECK("entries go to the new table, which has room", dict != &D && dict->bucketCount == 2 * BC);
    NEWD = dict;
    CHECK("only entries of the old table are copied", key.type != TINY_VAL_NULL && key.i >= SLOT_KEY && key.i < SLOT_KEY + BC && is_slot_val(value, key.i - SLOT_KEY));
    if (is_slot_key(key, GIDX)) SET_G++;
    dict->filledCount++;
}
#else
static Tiny_Value key_now(unsigned long x) {
    if (KWRITES && x == KAT) return KW;
    long d = dist(x);
    if (d < T) return slot_key(x);
    if (d == T) return mk_null();
    return spec_bool() ? slot_key(x) : mk_null();
}
#endif
Tiny_Value *ArrayGet(Array *a, int64_t x) {
    CHECK("slots are within the table", x >= 0 && x < BC);
    if (a == &D.keys) { KC = key_now(x); return &KC; }
    CHECK("slots belong to this table", a == &D.values);
    VC = VWRITES && x == VAT ? VW : slot_val(x);
    return &VC;
}
#ifdef OP_CLEAR
static int GIDX, NULLK, NULLV;
#endif
void ArraySet(Array *a, int64_t x, Tiny_Value v) {
    CHECK("slots are within the table", x >= 0 && x < BC && (a == &D.keys || a == &D.values));
#if defined(OP_CLEAR)
    CHECK("only null is written", v.type == TINY_VAL_NULL);
    if (x == GIDX) { if (a == &D.keys) NULLK = 1; else NULLV = 1; }
#elif defined(OP_REMOVE)
    CHECK("removal only empties the slot it is at", a == &D.keys && v.type == TINY_VAL_NULL && dist(x) == CUR);
    NULLS++;
#else
    if (a == &D.keys) { KWRITES++; KAT = x; KW = v; } else { VWRITES++; VAT = x; VW = v; }
#endif
}
static int RESIZES;
static bool resized_ok;
void InitArray(Array *a, Tiny_Context ctx) { a->ctx = ctx; a->data = NULL; }
void ArrayResize(Array *a, int n, Tiny_Value v) { RESIZES++; resized_ok &= n == grown && v.type == TINY_VAL_NULL && a->data == NULL; }
static int DESTROYED;
void DestroyArray(Array *a) { DESTROYED += a == &D.keys ? 1 : a == &D.values ? 10 : 100; }
size_t Tiny_StringLen(const Tiny_Value v) { return 0; }
const char *Tiny_ToString(const Tiny_Value v) { return ""; }
void *Tiny_ToAddr(const Tiny_Value v) { return NULL; }

static void choose_table(void) {
    HOME = (unsigned long)H % BC;
    T = (int)in_range(0, 1 << 30);
    PRESENT = in_bool();
    DW = (int)in_range(0, 1 << 30);
    ASSUME(T < BC && (!PRESENT || DW < T));
}
/* contract of Grow (unit dict_grow): the same entries in a table of twice the size */
void Grow_spec(Dict *dict) {
    CHECK("the table grows only when it is half full", dict == &D && F0 >= BC / 2 && grown == 0 && KWRITES == 0 && VWRITES == 0);
    ASSUME(F0 >= BC / 2 && grown == 0);
    grown = 1;
    BC = D.bucketCount = BC * 2;
    bool p = PRESENT;
    choose_table();
    ASSUME(PRESENT == p);
}

/* loop invariants */
static int cuts;
static void set_cut(unsigned long *x) {
    CHECK("probing starts at home and stays in front of the first empty slot", *x < BC && dist(*x) < T && (!PRESENT || dist(*x) < DW) && !KWRITES && !VWRITES);
    if (cuts++) { REACH("loop"); ASSUME(false); }
    *x = (unsigned long)spec_range(0, BC - 1);
    ASSUME(dist(*x) < T && (!PRESENT || dist(*x) < DW));
}
static void get_cut(unsigned long *x) {
    CHECK("probing starts at home and stays within the cluster", *x < BC && dist(*x) <= (PRESENT ? DW : T));
    if (cuts++) { REACH("loop"); ASSUME(false); }
    *x = (unsigned long)spec_range(0, BC - 1);
    ASSUME(dist(*x) <= (PRESENT ? DW : T));
}
#ifdef OP_REMOVE
static void remove_cut(unsigned long *x, Dict *d) {
    if (!cuts) CHECK("removal starts at home", *x == HOME && NULLS == 0 && SETS == 0);
    else {
        finish_slot();
        CHECK("removal goes on with the next slot", *x < BC && dist(*x) == CUR + 1);
        REACH("loop");
        ASSUME(false);
    }
    cuts++;
    *x = (unsigned long)spec_range(0, BC - 1);
    ASSUME(dist(*x) <= T);
    start_slot(dist(*x));
    d->filledCount = F0 - (PRESENT && CUR > DW);
}
#elif defined(OP_CLEAR)
static void clear_cut(int *i) {
    CHECK("clearing visits every slot", *i >= 0 && *i < BC && (*i <= GIDX || NULLK && NULLV));
    if (cuts++) { REACH("loop"); ASSUME(false); }
    *i = (int)spec_range(0, BC - 1);
    NULLK = NULLV = *i > GIDX;
}
#elif defined(OP_GROW)
static void clear_cut(int *i) {
    CHECK("growing visits every slot once", *i >= 0 && *i < BC && SET_G == (*i > GIDX && FULL_G));
    if (cuts++) { REACH("loop"); ASSUME(false); }
    *i = (int)spec_range(0, BC - 1);
    SET_G = *i > GIDX && FULL_G;
}
#endif
#ifndef OP_REMOVE
static void remove_cut(unsigned long *x, Dict *d) {}
#endif
#if !defined(OP_CLEAR) && !defined(OP_GROW)
static void clear_cut(int *i) {}
#endif

static void one(int k) {
    BC = D.bucketCount = 32 << k;
    H = in_u64();
    D.keys.ctx.userdata = &D;
    choose_table();
    K0.type = (uint8_t)in_range(TINY_VAL_BOOL, TINY_VAL_STRUCT);
    K0.i = -1;
    V0 = slot_val(-5);
#if defined(OP_SET_FULL)
    D.filledCount = F0 = BC / 2;
#else
    F0 = (int)in_range(0, 1 << 30);
    ASSUME(F0 < BC / 2 + 1 && F0 >= PRESENT);
    D.filledCount = F0;
#endif
#if defined(OP_SET_FULL) || defined(OP_SET)
#ifdef OP_SET
    ASSUME(F0 < BC / 2);
#endif
    REACH("pre");
    DictSet(&D, K0, V0);
    if (PRESENT) {
        CHECK("the value of the key's slot is replaced, nothing else", KWRITES == 0 && VWRITES == 1 && VAT == slot_at(DW) && VW.i == V0.i && VW.type == V0.type && D.filledCount == F0);
    } else {
        CHECK("the key takes the first empty slot from its home", KWRITES == 1 && KAT == slot_at(T) && KW.i == K0.i && KW.type == K0.type);
        CHECK("its value is stored with it", VWRITES == 1 && VAT == slot_at(T) && VW.i == V0.i && VW.type == V0.type);
        CHECK("one more entry, at most half the table filled", D.filledCount == F0 + 1 && D.filledCount <= BC / 2);
    }
    CHECK("the table grows exactly when it is half full", D.bucketCount == BC && grown == (F0 >= (32 << k) / 2));
#elif defined(OP_GET)
    REACH("pre");
    const Tiny_Value *r = DictGet(&D, K0);
    CHECK("the value stored under the key, or none", PRESENT ? r == &VC && is_slot_val(*r, slot_at(DW)) : r == NULL);
    CHECK("looking up changes nothing", D.filledCount == F0 && D.bucketCount == BC && !KWRITES && !VWRITES);
#elif defined(OP_REMOVE)
    start_slot(0);
    REACH("pre");
    DictRemove(&D, K0);
    finish_slot();
    CHECK("removal treats the whole cluster", CUR == T);
    CHECK("one entry less if the key was there", D.filledCount == F0 - PRESENT && D.bucketCount == BC);
#elif defined(OP_CLEAR)
    GIDX = (int)in_range(0, 1 << 30);
    ASSUME(GIDX < BC);
    REACH("pre");
    DictClear(&D);
    CHECK("every slot is empty", NULLK);
    CHECK("no entries, same size", D.filledCount == 0 && D.bucketCount == BC);
#elif defined(OP_GROW)
    GIDX = (int)in_range(0, 1 << 30);
    ASSUME(GIDX < BC);
    FULL_G = in_bool();
    grown = 2 * BC;
    resized_ok = true;
    REACH("pre");
    Grow(&D);
    CHECK("every entry is copied exactly once", SET_G == FULL_G);
    CHECK("the table has twice the size and starts empty", RESIZES == 2 && resized_ok && D.bucketCount == 2 * BC);
    CHECK("the old storage is released once", DESTROYED == 11);
    CHECK("the new table uses the same allocator", D.keys.ctx.userdata == &D);
#elif defined(OP_INIT)
    grown = 32;
    resized_ok = true;
    Tiny_Context c = D.keys.ctx;
    REACH("pre");
    InitDict(&D, c);
    CHECK("a new dictionary is empty", D.filledCount == 0 && D.bucketCount == 32 && RESIZES == 2 && resized_ok);
#elif defined(OP_DESTROY)
    REACH("pre");
    DestroyDict(&D);
    CHECK("keys and values are released once each", DESTROYED == 11);
#endif
    REACH("post");
}
#ifndef BASE
#define BASE 0
#endif
#define S(k) case k: if (k < SIZES) one(BASE + k); break;
void harness(void) {
    switch (in_range(0, SIZES - 1)) {
        S(0) S(1) S(2) S(3) S(4)
    }
}
#else
/* natively: a history of operations on a real dictionary, compared with a list of pairs */
#include "all.h"
#include "array.c"
#include "dict.c"
#include "values.h"
static void *host(void *p, size_t n, void *u) { if (!n) { free(p); return NULL; } return realloc(p, n); }
void harness(void) {
    Tiny_Context c = {.alloc = host};
    Dict d;
    InitDict(&d, c);
    static int keys[600], vals[600];
    int n = 0, mode = (int)in_range(0, 3);
    for (int step = 0; step < 400; step++) {
        int r = (int)in_range(0, 15), k = (int)in_range(0, 40), at = -1;
        if (mode == 1) k *= 32; else if (mode == 2) k = k % 5 * 32 + k / 5 + 28; else if (mode == 3) k = k * 64 + k % 3;
        for (int i = 0; i < n; i++) if (keys[i] == k) at = i;
        if (r < 7) {
            DictSet(&d, mk_int(k), mk_int(step));
            if (at < 0) { at = n++; keys[at] = k; }
            vals[at] = step;
        } else if (r < 12) {
            DictRemove(&d, mk_int(k));
            if (at >= 0) { keys[at] = keys[--n]; vals[at] = vals[n]; }
        } else if (r == 12 && step % 50 == 49) { DictClear(&d); n = 0; }
        CHECK("number of entries", d.filledCount == n);
        int filled = 0;
        for (int i = 0; i < d.bucketCount; i++) filled += !Tiny_IsNull(*ArrayGet(&d.keys, i));
        CHECK("enumeration agrees with the number of entries", filled == n);
        for (int i = 0; i < n; i++) {
            const Tiny_Value *v = DictGet(&d, mk_int(keys[i]));
            CHECK("the value last stored", v && is_int(*v, vals[i]));
        }
        const Tiny_Value *v = DictGet(&d, mk_int(k));
        bool in = false;
        for (int i = 0; i < n; i++) in |= keys[i] == k;
        CHECK("absence", in == (v != NULL));
    }
    DestroyDict(&d);
}
#endif
