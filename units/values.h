/* constructing, comparing and choosing arbitrary script values */
#ifndef VALUES_H
#define VALUES_H
#if defined(FLAT_VALUES) && !defined(VC_NATIVE) /* the alternatives of Tiny_Value lie side by side (all_flat.h) */
static uint64_t dbl_bits(double f) { union { double f; uint64_t u; } c; c.f = f; return c.u; }
static bool same_bits(Tiny_Value a, Tiny_Value b) {
    if (a.type != b.type) return false;
    switch (a.type) {
        case TINY_VAL_NULL: return true;
        case TINY_VAL_BOOL: return a.boolean == b.boolean;
        case TINY_VAL_INT: return a.i == b.i;
        case TINY_VAL_FLOAT: return dbl_bits(a.f) == dbl_bits(b.f);
        case TINY_VAL_CONST_STRING: return a.cstr == b.cstr;
        case TINY_VAL_LIGHT_NATIVE: return a.addr == b.addr;
        default: return a.obj == b.obj;
    }
}
#define same_value same_bits
#else
static bool same_bits(Tiny_Value a, Tiny_Value b) { return a.type == b.type && a.i == b.i; }
static bool same_value(Tiny_Value a, Tiny_Value b) {
    if (a.type != b.type) return false;
    if (a.type == TINY_VAL_NULL) return true;
    if (a.type == TINY_VAL_BOOL) return a.boolean == b.boolean;
    return a.i == b.i;
}
#endif
static Tiny_Value mk_int(int64_t i) { Tiny_Value v; v.type = TINY_VAL_INT; v.i = i; return v; }
static Tiny_Value mk_bool(bool b) { Tiny_Value v; v.i = 0; v.type = TINY_VAL_BOOL; v.boolean = b; return v; }
static Tiny_Value mk_float(double f) { Tiny_Value v; v.type = TINY_VAL_FLOAT; v.f = f; return v; }
static Tiny_Value mk_null(void) { Tiny_Value v; v.i = 0; v.type = TINY_VAL_NULL; return v; }
static bool is_int(Tiny_Value v, uint64_t i) { return v.type == TINY_VAL_INT && (uint64_t)v.i == i; }
static bool is_float(Tiny_Value v, double f) { return v.type == TINY_VAL_FLOAT && ((v.f != v.f && f != f) || v.f == f); }
static bool is_bool(Tiny_Value v, bool b) { return v.type == TINY_VAL_BOOL && v.boolean == b; }
#define isnum(v) ((v).type == TINY_VAL_INT || (v).type == TINY_VAL_FLOAT)
#define num(v) ((v).type == TINY_VAL_INT ? (double)(v).i : (v).f)
/* a value with arbitrary tag; object payloads are arbitrary bits that nothing may dereference */
static Tiny_Value in_value(void) {
    Tiny_Value v;
#if defined(FLAT_VALUES) && !defined(VC_NATIVE)
    uint64_t u = in_u64();
    union { double f; uint64_t u; } c;
    c.u = u;
    v.i = (int64_t)u; v.f = c.f; v.boolean = u & 1; v.cstr = (char *)u; v.addr = (void *)u; v.obj = (Tiny_Object *)u;
    v.type = (uint8_t)in_range(TINY_VAL_NULL, TINY_VAL_STRUCT);
    return v;
#endif
    v.i = (int64_t)in_u64();
    v.type = (uint8_t)in_range(TINY_VAL_NULL, TINY_VAL_STRUCT);
    if (v.type == TINY_VAL_BOOL) { bool b = v.i & 1; v.i = 0; v.boolean = b; }
    return v;
}
static Tiny_Value in_num(void) {
    Tiny_Value v;
    if (in_bool()) { v.type = TINY_VAL_FLOAT; v.f = in_f64(); } else { v.type = TINY_VAL_INT; v.i = (int64_t)in_u64(); }
    return v;
}
#endif
