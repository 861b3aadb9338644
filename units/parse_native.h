/* The parser against a reference: a random program of tokens, perhaps with a token changed, is parsed by Tiny and by a
 * recogniser written from the language's grammar; both must accept or both reject, and the trees must be the same. */
#include <stdio.h>
#define MAXT 400
static const char *T[MAXT];
static int NT, NAMES;
static char NAMEBUF[MAXT][8];
static void t(const char *s) { if (NT < MAXT - 1) T[NT++] = s; }
static const char *fresh(void) { char *b = NAMEBUF[NAMES++ % MAXT]; sprintf(b, "d%d", NAMES % 1000); return b; }
static const char *pick(const char *const *a, int n) { return a[in_range(0, n - 1)]; }
#define PICK(a) pick(a, (int)(sizeof(a) / sizeof *(a)))
static const char *const OPS[] = {"*", "/", "%", "&", "|", "<<", ">>", "+", "-", "<=", ">=", "==", "!=", "<", ">", "&&", "||"};
static const char *const VARS[] = {"v", "w", "as"};
static const char *const LITS[] = {"1", "23", "1.5", "\"s\"", "'c'", "true", "false", "null"};
static const char *const TYPES[] = {"int", "S", "float", "any"};
static const char *const ASSIGN[] = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|="};
static const char *const ANY[] = {"(", ")", "{", "}", "[", "]", ",", ";", ":", ".", "->", "=", ":=", "::", "?", "!", "-", "+", "*", "if", "else", "while", "for", "return", "break", "continue", "func", "struct", "use", "new", "cast", "v", "1", "\"s\"", "&&", "==", "foreach"};
static void gexpr(int d);
static void glist(int d) { int n = (int)in_range(0, 2); for (int i = 0; i < n; i++) { gexpr(d); if (i + 1 < n || in_range(0, 9) == 9) t(","); } }
static void gtype(void) { t(PICK(TYPES)); if (in_range(0, 4) == 4) t("?"); }
static void gvalue(int d) {
    switch (d > 0 ? in_range(0, 8) : in_range(0, 1)) {
        case 0: t(PICK(VARS)); break;
        case 1: t(PICK(LITS)); break;
        case 2: t(in_bool() ? "-" : "!"); gvalue(d - 1); break;
        case 3: t("("); gexpr(d - 1); t(")"); break;
        case 4: t("f"); t("("); glist(d - 1); t(")"); break;
        case 5: t("if"); gexpr(d - 1); gexpr(d - 1); t("else"); gexpr(d - 1); break;
        case 6: t("cast"); t("("); gexpr(d - 1); t(","); gtype(); t(")"); break;
        case 7: {
            t("new"); t("S"); t("{");
            int n = (int)in_range(0, 3);
            for (int i = 0; i < n; i++) { if (in_bool()) { t("."); t("x"); t("="); } gexpr(d - 1); if (i + 1 < n || in_range(0, 9) == 9) t(","); }
            t("}");
        } break;
        default: t(PICK(VARS)); break;
    }
    for (int n = (int)in_range(0, 6); d > 0 && n > 4; n--) switch (in_range(0, 2)) {
        case 0: t("."); t("x"); break;
        case 1: t("["); gexpr(d - 1); t("]"); break;
        default: t("->"); t("f"); t("("); glist(d - 1); t(")"); break;
    }
}
static void gexpr(int d) { gvalue(d); for (int n = (int)in_range(0, d > 0 ? 3 : 1); n > 0; n--) { t(PICK(OPS)); gvalue(d - 1); } }
static void gstmt(int d, int fn, int top) {
    switch (in_range(0, d > 0 ? 12 : 5)) {
        case 0: t("v"); t(PICK(ASSIGN)); gexpr(d); break;
        case 1: t(fresh()); t(":="); gexpr(d); break;
        case 2: t(fresh()); t(":"); gtype(); t("="); gexpr(d); break;
        case 3: t("f"); t("("); glist(d); t(")"); break;
        case 4: t(in_bool() ? "break" : "continue"); break;
        case 5: t(fresh()); t("::"); t(pick(LITS, 7)); break;
        case 6: t("{"); for (int n = (int)in_range(0, 2); n > 0; n--) gstmt(d - 1, fn, 0); t("}"); break;
        case 7: t("if"); gexpr(d - 1); gstmt(d - 1, fn, 0); if (in_bool()) { t("else"); gstmt(d - 1, fn, 0); } break;
        case 8: t("while"); gexpr(d - 1); gstmt(d - 1, fn, 0); break;
        case 9: t("for"); gstmt(d - 1, fn, 0); t(";"); gexpr(d - 1); t(";"); gstmt(d - 1, fn, 0); gstmt(d - 1, fn, 0); break;
        case 10: if (fn) { t("return"); if (fn == 1) t(";"); else gexpr(d); } else { t("v"); t("["); gexpr(d - 1); t("]"); t("="); gexpr(d); } break;
        case 11:
            if (top) {
                t("use"); t("m"); t("(");
                int n = (int)in_range(0, 2);
                for (int i = 0; i < n; i++) { t("\"s\""); if (i + 1 < n) t(","); }
                t(")");
                if (in_bool()) { t("as"); t(fresh()); }
            } else { t("v"); t("."); t("x"); t("="); gexpr(d); }
            break;
        default:
            if (top) {
                t("func"); t(fresh()); t("(");
                int n = (int)in_range(0, 2);
                for (int i = 0; i < n; i++) { t(fresh()); t(":"); gtype(); if (i + 1 < n || in_range(0, 9) == 9) t(","); }
                t(")");
                bool r = in_bool();
                if (r) { t(":"); gtype(); }
                gstmt(d - 1, r ? 2 : 1, 0);
            } else { t("v"); t("="); gexpr(d); }
    }
}
/* ---- the reference */
static char RB[1 << 16], TB[1 << 16];
static int RN, TN, C, BAD, SC, FN_; /* FN_: 0 outside, 1 in a void function, 2 in another */
static const char *DECL[MAXT];
static int ND;
static void declare(const char *n) { for (int i = 0; i < ND; i++) if (!strcmp(DECL[i], n)) vc_reject("declared twice"); DECL[ND++] = n; }
static bool is(const char *s) { return !BAD && C < NT ? !strcmp(T[C], s) : !strcmp(s, "EOF"); }
static bool ident(void) {
    static const char *const kw[] = {"if", "else", "while", "for", "return", "break", "continue", "func", "struct", "use", "new", "cast", "true", "false", "null", "foreach"};
    if (C >= NT || !(T[C][0] >= 'a' && T[C][0] <= 'z' || T[C][0] >= 'A' && T[C][0] <= 'Z')) return false;
    for (unsigned i = 0; i < sizeof kw / sizeof *kw; i++) if (!strcmp(T[C], kw[i])) return false;
    return true;
}
static void need(const char *s) { if (!is(s)) BAD = 1; else C++; }
static const char *needname(void) { if (!ident()) { BAD = 1; return "?"; } return T[C++]; }
static void r(const char *s) { if (RN < (int)sizeof RB - 300) RN += sprintf(RB + RN, "%s", s); }
static int insert(int at, const char *s) { size_t n = strlen(s); if (RN > (int)sizeof RB - 300) return at; memmove(RB + at + n, RB + at, (size_t)(RN - at)); memcpy(RB + at, s, n); RN += (int)n; return at; }
static int rprec(void) {
    static const char *const lv[5][7] = {{0}, {"&&", "||"}, {"<=", ">=", "==", "!=", "<", ">"}, {"<<", ">>", "+", "-"}, {"*", "/", "%", "&", "|"}};
    for (int l = 1; l < 5; l++) for (int i = 0; i < 7 && lv[l][i]; i++) if (is(lv[l][i])) return l;
    return 0;
}
static void rexpr(int level);
static void rtype(void) {
    const char *n = needname();
    bool known = false;
    for (unsigned i = 0; i < sizeof TYPES / sizeof *TYPES; i++) if (!strcmp(TYPES[i], n)) known = true;
    if (!BAD && !known) vc_reject("type names are not the parser's");
    r(" "); r(n);
    if (is("?")) { C++; r("?"); }
}
static void rargs(void) { while (!BAD && !is(")")) { r(" "); rexpr(1); if (is(",")) C++; else if (!is(")")) BAD = 1; } need(")"); }
static void rfactor(void);
static void rvalue(void) {
    int at = RN;
    if (BAD || C >= NT) { BAD = 1; return; }
    if (ident()) {
        const char *n = T[C++];
        if (is("(")) { C++; r("(call "); r(n); rargs(); r(")"); } else r(n);
    } else if (is("-") || is("!")) { r("(un"); r(T[C++]); r(" "); rfactor(); r(")"); }
    else if (is("(")) { C++; r("(paren "); rexpr(1); need(")"); r(")"); }
    else if (is("if")) { C++; r("(? "); rexpr(1); r(" "); rexpr(1); need("else"); r(" "); rexpr(1); r(")"); }
    else if (is("cast")) {
        C++; need("("); r("(cast "); rexpr(1); need(","); rtype(); need(")"); r(")");
        while (is(".")) { C++; insert(at, "(. "); r(" "); r(needname()); r(")"); }
    } else if (is("new")) {
        C++; r("(new "); r(needname()); need("{");
        char names[512] = "";
        while (!BAD && !is("}")) {
            if (is(".")) { C++; const char *n = needname(); if (strlen(names) < 400) { strcat(names, " ."); strcat(names, n); } need("="); }
            r(" "); rexpr(1);
            if (is(",")) C++; else if (!is("}")) BAD = 1;
        }
        need("}"); r(names); r(")");
    } else if (strchr("0123456789\"'", T[C][0]) || is("true") || is("false") || is("null")) r(T[C++]);
    else BAD = 1;
}
static void rfactor(void) {
    int at = RN;
    rvalue();
    while (!BAD) {
        if (is(".")) { C++; insert(at, "(. "); r(" "); r(needname()); r(")"); }
        else if (is("[")) { C++; insert(at, "([] "); r(" "); rexpr(1); need("]"); r(")"); }
        else if (is("->")) { C++; const char *n = needname(); need("("); insert(at, " "); insert(at, n); insert(at, "(call "); rargs(); r(")"); }
        else break;
    }
}
/* an expression of level l: operands of the next level, joined from the left */
static void rexpr(int l) {
    if (BAD) return;
    if (l == 5) { rfactor(); return; }
    int at = RN;
    rexpr(l + 1);
    while (!BAD && rprec() == l) { insert(at, " "); insert(at, T[C]); insert(at, "("); C++; r(" "); rexpr(l + 1); r(")"); }
}
static void rstmt(void) {
    if (BAD) return;
    if (is("{")) { C++; SC++; r("(block"); while (!BAD && !is("}")) { r(" "); rstmt(); } need("}"); SC--; r(")"); return; }
    if (is("if")) { C++; r("(if "); rexpr(1); r(" "); rstmt(); if (is("else")) { C++; r(" "); rstmt(); } r(")"); return; }
    if (is("while")) { C++; r("(while "); rexpr(1); r(" "); SC++; rstmt(); SC--; r(")"); return; }
    if (is("for")) { C++; r("(for "); SC++; rstmt(); need(";"); r(" "); rexpr(1); need(";"); r(" "); rstmt(); r(" "); rstmt(); SC--; r(")"); return; }
    if (is("return")) {
        if (!FN_) { BAD = 1; return; }
        C++; r("(return");
        if (is(";")) { C++; r(")"); return; }
        if (FN_ == 1) { BAD = 1; return; }
        r(" "); rexpr(1); r(")"); return;
    }
    if (is("break") || is("continue")) { r("("); r(T[C++]); r(")"); return; }
    if (is("use")) {
        if (FN_ || SC) { BAD = 1; return; }
        C++; r("(use "); r(needname()); need("(");
        while (!BAD && !is(")")) { if (C >= NT || T[C][0] != '"') { BAD = 1; return; } r(" "); r(T[C++]); if (is(",")) C++; }
        need(")");
        if (is("as")) { C++; r(" as "); r(needname()); }
        r(")"); return;
    }
    if (is("func")) {
        if (FN_) { BAD = 1; return; }
        C++; r("(func "); const char *n = needname(); if (!BAD) declare(n); r(n); need("(");
        while (!BAD && !is(")")) { const char *a = needname(); if (!BAD) declare(a); r(" "); r(a); need(":"); rtype(); if (is(",")) C++; else if (!is(")")) BAD = 1; }
        need(")");
        FN_ = 1;
        if (is(":")) { C++; r(" :"); rtype(); FN_ = 2; } else r(" : void");
        SC++; r(" "); rstmt(); SC--; FN_ = 0; r(")"); return;
    }
    int at = RN, start = C;
    rfactor();
    if (BAD) return;
    if (!strncmp(RB + at, "(call ", 6)) return;
    bool name = C == start + 1 && T[start][0] >= 'a' && (C--, ident() ? (C++, true) : (C++, false));
    if (C >= NT) { BAD = 1; return; }
    const char *op = T[C];
    if (is(":=") || is(":")) {
        if (!name) { BAD = 1; return; }
        declare(T[start]);
        if (is(":")) { C++; int keep = RN; rtype(); RN = keep; RB[RN] = 0; op = "="; if (!is("=")) { BAD = 1; return; } }
    }
    if (rprec()) { BAD = 1; return; }
    static const char *const words[] = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", ":=", "::"};
    bool known = false;
    for (unsigned i = 0; i < sizeof words / sizeof *words; i++) if (!strcmp(op, words[i])) known = true;
    if (!known) vc_reject("the resolver rejects it");
    C++;
    insert(at, " "); insert(at, op); insert(at, "("); r(" ");
    int from = C;
    rexpr(1);
    if (!BAD && !strcmp(op, "::")) { bool lit = false; for (int i = 0; i < 7; i++) lit |= !strcmp(T[from], LITS[i]); if (!name || C != from + 1 || !lit) BAD = 1; else declare(T[start]); }
    r(")");
}
/* ---- what Tiny parsed */
static void w(const char *s) { if (TN < (int)sizeof TB - 300) TN += sprintf(TB + TN, "%s", s); }
static const char *optext(int op) {
    switch (op) {
#define O(k, s) case TINY_TOK_##k: return s
        O(STAR, "*"); O(SLASH, "/"); O(PERCENT, "%"); O(AND, "&"); O(OR, "|"); O(SHIFT_LEFT, "<<"); O(SHIFT_RIGHT, ">>"); O(PLUS, "+"); O(MINUS, "-");
        O(LTE, "<="); O(GTE, ">="); O(EQUALS, "=="); O(NOTEQUALS, "!="); O(LT, "<"); O(GT, ">"); O(LOG_AND, "&&"); O(LOG_OR, "||"); O(BANG, "!");
        O(EQUAL, "="); O(PLUSEQUAL, "+="); O(MINUSEQUAL, "-="); O(STAREQUAL, "*="); O(SLASHEQUAL, "/="); O(PERCENTEQUAL, "%="); O(ANDEQUAL, "&="); O(OREQUAL, "|=");
        O(DECLARE, ":="); O(DECLARECONST, "::");
#undef O
    }
    return "#";
}
static Tiny_State *STATE;
static void we(Tiny_Expr *e);
static void wlist(Tiny_Expr *e) { for (; e; e = e->next) { w(" "); we(e); } }
static void we(Tiny_Expr *e) {
    char b[64];
    if (!e) { w("NULL"); return; }
    switch (e->type) {
        case TINY_EXP_NULL: w("null"); break;
        case TINY_EXP_BOOL: w(e->boolean ? "true" : "false"); break;
        case TINY_EXP_CHAR: sprintf(b, "'%c'", (char)e->iValue); w(b); break;
        case TINY_EXP_INT: sprintf(b, "%lld", (long long)e->iValue); w(b); break;
        case TINY_EXP_FLOAT: sprintf(b, "%.1f", (double)e->fValue); w(b); break;
        case TINY_EXP_STRING: w("\""); w(STATE->strings[e->sIndex]); w("\""); break;
        case TINY_EXP_ID: w(e->id.name->value); break;
        case TINY_EXP_CALL: w("(call "); w(e->call.calleeName->value); wlist(e->call.argsHead); w(")"); break;
        case TINY_EXP_UNARY: w("(un"); w(optext(e->unary.op)); w(" "); we(e->unary.exp); w(")"); break;
        case TINY_EXP_BINARY: w("("); w(optext(e->binary.op)); w(" "); we(e->binary.lhs); w(" "); we(e->binary.rhs); w(")"); break;
        case TINY_EXP_PAREN: w("(paren "); we(e->paren); w(")"); break;
        case TINY_EXP_IF_TERNARY: w("(? "); we(e->ifx.cond); w(" "); we(e->ifx.body); w(" "); we(e->ifx.alt); w(")"); break;
        case TINY_EXP_CAST: w("(cast "); we(e->cast.value); w(" "); w(e->cast.tag->name); w(")"); break;
        case TINY_EXP_CONSTRUCTOR:
            w("(new "); w(e->constructor.structTag->name); wlist(e->constructor.argsHead);
            for (Tiny_StringNode *n = e->constructor.argNamesHead; n; n = n->next) { w(" ."); w(n->value); }
            w(")"); break;
        case TINY_EXP_DOT: w("(. "); we(e->dot.lhs); w(" "); w(e->dot.field->value); w(")"); break;
        case TINY_EXP_INDEX: w("([] "); we(e->index.arr); w(" "); we(e->index.elem); w(")"); break;
        case TINY_EXP_BLOCK: w("(block"); wlist(e->blockHead); w(")"); break;
        case TINY_EXP_IF: w("(if "); we(e->ifx.cond); w(" "); we(e->ifx.body); if (e->ifx.alt) { w(" "); we(e->ifx.alt); } w(")"); break;
        case TINY_EXP_WHILE: w("(while "); we(e->whilex.cond); w(" "); we(e->whilex.body); w(")"); break;
        case TINY_EXP_FOR: w("(for "); we(e->forx.init); w(" "); we(e->forx.cond); w(" "); we(e->forx.step); w(" "); we(e->forx.body); w(")"); break;
        case TINY_EXP_RETURN: w("(return"); if (e->retExpr) { w(" "); we(e->retExpr); } w(")"); break;
        case TINY_EXP_BREAK: w("(break)"); break;
        case TINY_EXP_CONTINUE: w("(continue)"); break;
        case TINY_EXP_USE:
            w("(use "); w(e->use.moduleName->value);
            for (Tiny_StringNode *n = e->use.argsHead; n; n = n->next) { w(" \""); w(n->value); w("\""); }
            if (e->use.asName) { w(" as "); w(e->use.asName->value); }
            w(")"); break;
        case TINY_EXP_PROC:
            w("(func "); w(e->proc.decl->name);
            for (int i = 0; i < sb_count(e->proc.decl->func.args); i++) { w(" "); w(e->proc.decl->func.args[i]->name); w(" "); w(e->proc.decl->func.args[i]->var.tag->name); }
            w(" : "); w(e->proc.decl->func.returnTag->name); w(" "); we(e->proc.body); w(")"); break;
        default: w("??"); break;
    }
}
void harness(void) {
    static char src[MAXT * 10];
    bool strct = in_bool();
    int nf = (int)in_range(1, 3);
    if (strct) { t("struct"); t("S"); t("{"); for (int i = 0; i < nf; i++) { t(i == 0 ? "x" : i == 1 ? "y" : "z"); t(":"); gtype(); } t("}"); }
    for (int n = (int)in_range(1, 3); n > 0; n--) gstmt((int)in_range(0, 3), 0, 1);
    if (in_range(0, 3) == 0) T[in_range(0, NT - 1)] = PICK(ANY);
    if (in_range(0, 5) == 0) { int at = (int)in_range(0, NT - 1); memmove(T + at, T + at + 1, sizeof *T * (size_t)(NT - at - 1)); NT--; }
    if (NT == 0 || NT > MAXT - 3) vc_reject("size");
    int n = 0;
    for (int i = 0; i < NT; i++) n += sprintf(src + n, "%s ", T[i]);
    if (getenv("VC_VERBOSE")) fprintf(stderr, "%s\n", src);
    /* the reference */
    r("");
    bool structs = false;
    while (!BAD && C < NT) {
        if (is("struct")) {
            if (structs) vc_reject("two structs");
            structs = true;
            C++; const char *nm = needname(); if (!BAD) declare(nm); need("{");
            int fields = 0;
            const char *F[MAXT];
            while (!BAD && !is("}")) {
                const char *f = needname(); if (BAD) break;
                for (int i = 0; i < fields; i++) if (!strcmp(F[i], f)) vc_reject("field declared twice");
                F[fields++] = f; need(":"); int keep = RN; rtype(); RN = keep; RB[RN] = 0;
            }
            need("}");
            if (!fields) BAD = 1;
        } else { rstmt(); r(" "); }
    }
    Tiny_State *s = STATE = Tiny_CreateState();
    static bool accepted;
    accepted = false;
    s->compileCallNestCount = 1;
    Tiny_InitLexer(&s->l, "test", src, s->ctx);
    Tiny_InitArena(&s->parserArena, s->ctx);
    if (setjmp(s->compileErrorJmpBufs[0]) == 0) {
        for (Tiny_Expr *e = ParseProgram(s); e; e = e->next) { we(e); w(" "); }
        accepted = true;
    }
    if (accepted != !BAD) printf("program: %s\n%s\n", src, BAD ? "does not fit the grammar but is accepted" : "fits the grammar but is rejected");
    CHECK("a program is accepted if and only if it fits the grammar", accepted == !BAD);
    if (accepted && strcmp(RB, TB)) printf("program: %s\nmeans:   %s\nparsed:  %s\n", src, RB, TB);
    CHECK("the tree is the one the grammar gives", !accepted || !strcmp(RB, TB));
}
