/* The parser (tiny.c): every parse function against the production of the grammar it stands for.
 * Tiny_GetToken enters through its contract (an arbitrary next token); the other parse functions enter through theirs (a
 * part of their kind is read, the token behind it is arbitrary).  The production is an automaton over the tokens and
 * parts read (delta); the tree is compared with the parts.  Loops are cut at an arbitrary iteration. */
#include "vc.h"
#ifdef VC_NATIVE
#undef HOOKED
#endif
#include <stdint.h>
#if HOOKED
struct Tiny_Expr;
struct Tiny_StringNode;
static void bin_cut(struct Tiny_Expr **lhs);
static void suffix_cut(struct Tiny_Expr **exp);
static void call_cut(struct Tiny_Expr **tail, struct Tiny_Expr *exp);
static void block_cut(struct Tiny_Expr **tail, struct Tiny_Expr *exp);
static void new_cut(struct Tiny_Expr **tail, struct Tiny_StringNode **ntail, struct Tiny_Expr *exp);
static void dot_cut(struct Tiny_Expr **exp);
static void use_cut(struct Tiny_StringNode **tail, struct Tiny_Expr *exp);
static void program_cut(struct Tiny_Expr **head, struct Tiny_Expr **tail);
static void struct_cut(void);
static void names_cut(int *i);
static void *params_cut(void *args);
static void declare_cut(int *i, void *args);
#define VC_LOOP_parse_bin(lhs) bin_cut(&(lhs))
#define VC_LOOP_parse_suffix(exp) suffix_cut(&(exp))
#define VC_LOOP_parse_call(tail, exp) call_cut(&(tail), exp)
#define VC_LOOP_parse_block(tail, exp) block_cut(&(tail), exp)
#define VC_LOOP_parse_new(tail, ntail, exp) new_cut(&(tail), &(ntail), exp)
#define VC_LOOP_parse_cast_dot(exp) dot_cut(&(exp))
#define VC_LOOP_parse_use(tail, exp) use_cut(&(tail), exp)
#define VC_LOOP_parse_struct(s) struct_cut()
#define VC_LOOP_parse_names(i) names_cut(&(i))
#define VC_LOOP_parse_params(args) args = params_cut(args)
#define VC_LOOP_parse_declare(i, args) declare_cut(&(i), args)
#define VC_LOOP_parse_program(head, tail) program_cut(&(head), &(tail))
#endif
#include "all_flat.h"
#ifndef VC_NATIVE
enum { EXPR = 100, FACTOR, VALUE, SUFFIX, BINRHS, STMT, TYPE, CALL, BLOCK, FUNC, IF, STRUCT };
#define DONE 99
#define TOK(t) TINY_TOK_##t
static Tiny_State ST;
static int S, NTOK, CUT; /* the automaton's state, the number of the current token */
static int NP, NS, NN; /* parts, string nodes, new nodes */
static Tiny_Expr P0, P1, P2, P3, P4, P5, NEW0, NEW1, JUNK;
static Tiny_StringNode S0, S1, S2, S3, SJUNK;
static int PKIND[6], PTOK[6];     /* what was read, and the number of its first token */
static char LEX[64];               /* the text of token n is at LEX + n */
static int DEPTH;
static Tiny_Symbol SYM, TAGSYM, FN;
static bool SEMANTIC;              /* an error the grammar does not know is due */
static Tiny_Expr *P(int k) { return k == 0 ? &P0 : k == 1 ? &P1 : k == 2 ? &P2 : k == 3 ? &P3 : k == 4 ? &P4 : &P5; }
static Tiny_StringNode *SN(int k) { return k == 0 ? &S0 : k == 1 ? &S1 : k == 2 ? &S2 : &S3; }
static int delta(int s, int ev);
static int last(void) { return ST.l.lastTok; }
static void event(int ev) {
    int n = delta(S, ev);
    CHECK("what is read next fits the grammar", n >= 0);
    ASSUME(n >= 0);
    S = n;
}
static void any_token(void) {
    NTOK++;
    ST.l.lastTok = (Tiny_TokenKind)in_range(0, TINY_TOK_LEXER_ERROR);
    ST.l.lexeme = LEX + NTOK;
    ST.l.pos = (int)in_range(0, 1 << 20);
    ST.l.lineNumber = (int)in_range(0, 1 << 20);
    ST.l.iValue = (Tiny_Int)in_u64();
    ST.l.fValue = (Tiny_Float)in_f64();
    ST.l.bValue = in_bool();
}
Tiny_TokenKind GetToken_spec(Tiny_Lexer *l) {
    CHECK("tokens are read from the source", l == &ST.l);
    event(last());
    any_token();
    return l->lastTok;
}
static Tiny_Expr *part(int kind) {
    event(kind);
    ASSUME(NP < 6);
    Tiny_Expr *e = P(NP);
    PKIND[NP] = kind;
    PTOK[NP] = NTOK;
    NP++;
    any_token();
    e->next = NULL;
    return e;
}
static void reject(Tiny_State *s) {
    CHECK("an error is reported for the state", s == &ST);
    if (!SEMANTIC) {
        CHECK("only what fits no rule is rejected", delta(S, last()) < 0);
        for (int k = EXPR; k <= STRUCT; k++) CHECK("only what fits no rule is rejected", delta(S, k) < 0);
    }
#ifdef REJECTS
    REACH("rejected");
#endif
    ASSUME(false);
}
void ReportErrorSL_spec(Tiny_State *s, const char *m, ...) { reject(s); }
void ReportErrorL_spec(Tiny_State *s, Tiny_Lexer *l, const char *m, ...) { reject(s); }
void *Alloc_spec(Tiny_Arena *a, size_t size, size_t align) {
    CHECK("nodes live in the parser's arena", a == &ST.parserArena && size == sizeof(Tiny_Expr));
    CHECK("one or two nodes are made", NN < 2);
    return NN++ ? &NEW1 : &NEW0;
}
Tiny_StringNode *StringNode_spec(Tiny_State *s, const char *text) {
    CHECK("names come from the current token", text == ST.l.lexeme);
    ASSUME(NS < 4);
    Tiny_StringNode *n = SN(NS++);
    n->value = (char *)text;
    n->next = NULL;
    return n;
}
int Register_spec(Tiny_State *s, const char *text) {
    CHECK("the text registered is the current token's", text == ST.l.lexeme);
    return (int)(text - LEX) + 1000;
}
Tiny_Symbol *Variable_spec(Tiny_State *s, const char *name) {
    return name == LEX + 0 ? &SYM : NULL; /* which declaration it is: units name_* */
}
Tiny_Expr *ParseExpr_spec(Tiny_State *s) { return part(EXPR); }
Tiny_Expr *ParseFactor_spec(Tiny_State *s) { return part(FACTOR); }
Tiny_Expr *ParseValue_spec(Tiny_State *s) { return part(VALUE); }
void OpenScope_spec(Tiny_State *s) { DEPTH++; }
void CloseScope_spec(Tiny_State *s) { CHECK("only scopes it opened are closed", DEPTH > 0); DEPTH--; }
static Tiny_Expr *IN; static int EP; /* arguments and result of ParseBinRhs and ParseSuffix */
static int SCOPED; /* how many scopes a statement part must be in */
Tiny_Expr *ParseStatement_spec(Tiny_State *s) {
    CHECK("a statement is read in the scope it belongs to", DEPTH == SCOPED);
    return part(STMT);
}
Tiny_Symbol *ParseType_spec(Tiny_State *s) { event(TYPE); any_token(); return &TAGSYM; }
Tiny_Expr *VC_REAL_ParseStatement(Tiny_State *);
#define STAYS(e) CHECK("the node stands alone", (e)->next == NULL)
#define CREATED(e, t) CHECK("the node has its kind", (e)->type == t)
static int prec(int t) {
    switch (t) {
        case TOK(STAR): case TOK(SLASH): case TOK(PERCENT): case TOK(AND): case TOK(OR): return 5;
        case TOK(SHIFT_LEFT): case TOK(SHIFT_RIGHT): case TOK(PLUS): case TOK(MINUS): return 4;
        case TOK(LTE): case TOK(GTE): case TOK(EQUALS): case TOK(NOTEQUALS): case TOK(LT): case TOK(GT): return 3;
        case TOK(LOG_AND): case TOK(LOG_OR): return 2;
        default: return -1;
    }
}
static void setup(void) {
#ifndef SIMPLE_ /* there it keeps the solver from finishing */
    HAVOC(ST);
#endif
    HAVOC(P4); HAVOC(P5); HAVOC(SYM); HAVOC(TAGSYM); HAVOC(FN); HAVOC(S0); HAVOC(S1); HAVOC(S2); HAVOC(S3);
    VC_BULK(NEW0); VC_BULK(NEW1); VC_BULK(P0); VC_BULK(P1); VC_BULK(P2); VC_BULK(P3);
    any_token();
    NTOK = 0;
    ST.l.lexeme = LEX;
}

#ifdef PREC
static int delta(int s, int ev) { return -1; }
void harness(void) {
    int t = (int)in_range(0, TINY_TOK_LEXER_ERROR);
    REACH("pre");
    CHECK("an operator binds as the language says", GetTokenPrec(t) == prec(t));
    REACH("post");
}
#endif

#ifdef BINRHS_
/* a node reads operands and operators from its first token up to (not including) token END; the loosest operator on its
 * spine is MINP (9: none, it is a factor) */
static Tiny_Expr L, R;
static int LMIN, LEND, RMIN, REND, OPTOK, OPAT, FEND;
static int delta(int s, int ev) { /* 0: behind an operand, 1: behind an operator */
    if (s == 0 && ev < EXPR && prec(ev) >= 0) return 1;
    if (s == 1 && ev == FACTOR) return 0;
    return -1;
}
Tiny_Expr *BinRhs_spec(Tiny_State *s, int ep, Tiny_Expr *lhs) {
    CHECK("the operand that was just read is continued", S == 0 && lhs == &P0 && NP == 1);
    CHECK("operators that bind tighter are read", ep > 0);
    RMIN = (int)in_range(0, 9);
    REND = 0;
    bool more = in_bool();
    if (more) any_token();
    ASSUME(prec(last()) < ep && RMIN >= ep && (more || RMIN == 9));
    return &R;
}
Tiny_TokenKind GetToken_op(Tiny_Lexer *l) {
    if (S == 0) { OPTOK = last(); OPAT = NTOK; }
    return GetToken_spec(l);
}
static void bin_cut(Tiny_Expr **lhs) {
    if (CUT++ == 0) {
        CHECK("the operand before the operator is kept", *lhs == &L && NTOK == 0);
    } else {
        Tiny_Expr *n = *lhs;
        CHECK("an operand follows the operator", S == 0 && NP == 1 && NN == 1 && n == &NEW0);
        CREATED(n, TINY_EXP_BINARY);
        CHECK("the operator joins what is before and behind it", n->binary.op == OPTOK && n->binary.lhs == &L && (n->binary.rhs == &P0 || n->binary.rhs == &R));
        CHECK("nothing that was read is lost", n->binary.rhs == (RMIN >= 0 ? &R : &P0));
        CHECK("what is left of an operator binds at least as tight", LMIN >= prec(OPTOK));
        CHECK("what is right of an operator binds tighter", (n->binary.rhs == &R ? RMIN : 9) > prec(OPTOK));
        CHECK("a tighter operator behind it is not left over", prec(last()) <= prec(OPTOK));
        CHECK("only operators that bind as tight as asked for are read", prec(OPTOK) >= EP);
        STAYS(n);
        REACH("loop");
        ASSUME(false);
    }
}
Tiny_Expr *VC_REAL_ParseBinRhs(Tiny_State *, int, Tiny_Expr *);
void harness(void) {
    setup();
    L.next = NULL;
    EP = (int)in_range(0, 6);
    LMIN = (int)in_range(0, 9);
    RMIN = -1;
    ASSUME(LMIN >= EP && LMIN >= prec(last())); /* the invariant; a factor (9) satisfies it */
    REACH("pre");
    Tiny_Expr *r = VC_REAL_ParseBinRhs(&ST, EP, &L);
    CHECK("the expression ends where no operator follows that binds as tight as asked for", r == &L && prec(last()) < EP && NTOK == 0);
    STAYS(r);
    REACH("post");
}
#endif

#ifdef EXPR_
static int delta(int s, int ev) { return s == 0 && ev == FACTOR ? 1 : s == 1 && ev == BINRHS ? DONE : -1; }
Tiny_Expr *BinRhs_spec(Tiny_State *s, int ep, Tiny_Expr *lhs) {
    CHECK("the whole expression is read, from its first operand", ep == 0 && lhs == &P0);
    return part(BINRHS);
}
void harness(void) {
    setup();
    REACH("pre");
    Tiny_Expr *r = ParseExpr(&ST);
    CHECK("an expression is its operands and operators", r == &P1 && S == DONE);
    REACH("post");
}
#endif
#ifdef FACTOR_
static int delta(int s, int ev) { return s == 0 && ev == VALUE ? 1 : s == 1 && ev == SUFFIX ? DONE : -1; }
Tiny_Expr *Suffix_spec(Tiny_State *s, Tiny_Expr *lhs) {
    CHECK("the suffixes belong to the value", lhs == &P0);
    return part(SUFFIX);
}
void harness(void) {
    setup();
    REACH("pre");
    Tiny_Expr *r = ParseFactor(&ST);
    CHECK("a factor is a value with its suffixes", r == &P1 && S == DONE);
    REACH("post");
}
#endif

#ifdef SUFFIX_
static Tiny_Expr L, C, AR[6];
#define ARGS AR[0]
static int NARGS;
static bool CALLED, HASARGS;
static int NAMETOK, DOTS;
static int delta(int s, int ev) {
    switch (s) {
        case 0: return ev == TOK(DOT) ? 1 : ev == TOK(ARROW) ? 2 : ev == TOK(OPENSQUARE) ? 4 : -1;
        case 1: return ev == TOK(IDENT) ? 0 : -1;
        case 2: return ev == TOK(IDENT) ? 3 : -1;
        case 3: return ev == CALL && last() == TOK(OPENPAREN) ? 0 : -1;
        case 4: return ev == EXPR ? 5 : -1;
        case 5: return ev == TOK(CLOSESQUARE) ? 0 : -1;
    }
    return -1;
}
static int KIND;
Tiny_Expr *Call_spec(Tiny_State *s, Tiny_StringNode *name) {
    event(CALL);
    CHECK("the function called is the one named", name == &S0 && name->value == LEX + 1);
    any_token();
    NARGS = (int)in_range(0, 6);
    HASARGS = NARGS > 0;
    for (int i = 0; i < 6; i++) AR[i].next = i + 1 < NARGS ? &AR[i + 1] : NULL;
    C.next = NULL;
    C.type = TINY_EXP_CALL;
    C.call.calleeName = name;
    C.call.argsHead = HASARGS ? &ARGS : NULL;
    CALLED = true;
    return &C;
}
static void suffix_read(Tiny_Expr *n) {
    CHECK("a whole suffix is read", S == 0);
    if (KIND == TOK(DOT)) CHECK("a field access", n == &NEW0 && n->type == TINY_EXP_DOT && n->dot.lhs == &L && n->dot.field == &S0 && S0.value == LEX + 1 && NTOK == 2);
    else if (KIND == TOK(OPENSQUARE)) CHECK("an index", n == &NEW0 && n->type == TINY_EXP_INDEX && n->index.arr == &L && n->index.elem == &P0);
    else CHECK("a call with the value as first argument", n == &C && C.call.argsHead == &L && L.next == (HASARGS ? &ARGS : NULL) && C.call.calleeName == &S0 &&
               AR[0].next == (1 < NARGS ? &AR[1] : NULL) && AR[1].next == (2 < NARGS ? &AR[2] : NULL) && AR[2].next == (3 < NARGS ? &AR[3] : NULL) &&
               AR[3].next == (4 < NARGS ? &AR[4] : NULL) && AR[4].next == (5 < NARGS ? &AR[5] : NULL) && AR[5].next == NULL);
    STAYS(n);
}
static void suffix_cut(Tiny_Expr **exp) {
    if (CUT++ == 0) {
        CHECK("suffixes are read from the value on", *exp == &L && S == 0 && NTOK == 0);
        KIND = last();
    } else {
        suffix_read(*exp);
        REACH("loop");
        ASSUME(false);
    }
}
void harness(void) {
    setup();
    L.next = NULL;
    REACH("pre");
    Tiny_Expr *r = ParseSuffix(&ST, &L);
    CHECK("every suffix is read", S == 0 && last() != TOK(DOT) && last() != TOK(ARROW) && last() != TOK(OPENSQUARE));
    if (CUT == 0) CHECK("a value without suffix stays as it is", r == &L && NTOK == 0 && L.next == NULL);
    else suffix_read(r);
    REACH("post");
}
#endif

/* ---- lists of parts: at the cut, HEAD..TAIL were read before (or nothing) */
static Tiny_Expr HEAD, TAIL;
static bool EMPTY;
static void list_cut(Tiny_Expr **head, Tiny_Expr **tail) {
    EMPTY = in_bool();
    HEAD.next = &TAIL;
    TAIL.next = NULL;
    bool one = in_bool();
    *tail = EMPTY ? NULL : &TAIL;
    *head = EMPTY ? NULL : one ? &TAIL : &HEAD;
}
static Tiny_Expr *HEADP;
static void list_grown(Tiny_Expr *head, Tiny_Expr *tail, Tiny_Expr *by) {
    CHECK("a part is appended to the ones before it", tail == by && (EMPTY ? head == by : head == HEADP && TAIL.next == by) && by->next == NULL);
}
#ifdef CALL_
static int delta(int s, int ev) {
    switch (s) {
        case 0: return ev == TOK(OPENPAREN) ? 1 : -1;
        case 1: return ev == TOK(CLOSEPAREN) ? DONE : ev == EXPR && last() != TOK(CLOSEPAREN) ? 2 : -1;
        case 2: return ev == TOK(CLOSEPAREN) ? DONE : ev == TOK(COMMA) ? 1 : -1;
    }
    return -1;
}
static void call_cut(Tiny_Expr **tail, Tiny_Expr *exp) {
    if (CUT++ == 0) {
        CHECK("there are no arguments yet", S == 1 && exp == &NEW0 && exp->call.argsHead == NULL && *tail == NULL);
        list_cut(&exp->call.argsHead, tail);
        HEADP = exp->call.argsHead;
    } else {
        CHECK("one argument is read", S == 1 && NP == 1);
        list_grown(exp->call.argsHead, *tail, &P0);
        REACH("loop");
        ASSUME(false);
    }
}
void harness(void) {
    setup();
    ST.l.lastTok = TINY_TOK_OPENPAREN;
    REACH("pre");
    Tiny_StringNode name;
    Tiny_Expr *r = ParseCall(&ST, &name);
    CHECK("a call ends with its parenthesis", S == DONE && r == &NEW0);
    CREATED(r, TINY_EXP_CALL);
    CHECK("the function called is the one named", r->call.calleeName == &name);
    if (NP == 0) CHECK("a call without arguments", r->call.argsHead == NULL);
    else CHECK("the arguments are those read", EMPTY ? r->call.argsHead == &P0 : r->call.argsHead == HEADP && TAIL.next == &P0);
    STAYS(r);
    REACH("post");
}
#endif

/* ---- values */
#ifdef VALUE_LITERAL
static int delta(int s, int ev) { return s == 0 && ev < EXPR && (ev == TOK(NULL) || ev == TOK(BOOL) || ev == TOK(CHAR) || ev == TOK(INT) || ev == TOK(FLOAT) || ev == TOK(STRING)) ? DONE : -1; }
static void read(Tiny_TokenKind t) { /* the token is a constant on every path */
    ST.l.lastTok = t;
    Tiny_Lexer l = ST.l;
    Tiny_Expr *r = ParseValue(&ST);
    CHECK("a literal is one token", S == DONE && NTOK == 1 && r == &NEW0);
    CHECK("a literal is of its kind", r->type == (l.lastTok == TOK(NULL) ? TINY_EXP_NULL : l.lastTok == TOK(BOOL) ? TINY_EXP_BOOL : l.lastTok == TOK(CHAR) ? TINY_EXP_CHAR : l.lastTok == TOK(INT) ? TINY_EXP_INT : l.lastTok == TOK(FLOAT) ? TINY_EXP_FLOAT : TINY_EXP_STRING));
    CHECK("a literal has the value written", l.lastTok == TOK(BOOL) ? r->boolean == l.bValue : l.lastTok == TOK(CHAR) || l.lastTok == TOK(INT) ? r->iValue == l.iValue : l.lastTok == TOK(FLOAT) ? r->fValue == l.fValue || l.fValue != l.fValue : l.lastTok == TOK(STRING) ? r->sIndex == 1000 : true);
    STAYS(r);
}
void harness(void) {
    setup();
    REACH("pre");
    switch (in_range(0, 5)) {
        case 0: read(TINY_TOK_NULL); break;
        case 1: read(TINY_TOK_BOOL); break;
        case 2: read(TINY_TOK_CHAR); break;
        case 3: read(TINY_TOK_INT); break;
        case 4: read(TINY_TOK_FLOAT); break;
        default: read(TINY_TOK_STRING);
    }
    REACH("post");
}
#endif
#ifdef VALUE_IDENT
static Tiny_Expr C;
static bool CALLED;
static int delta(int s, int ev) { return s == 0 && ev == TOK(IDENT) ? 1 : s == 1 && ev == CALL ? DONE : -1; }
Tiny_Expr *Call_spec(Tiny_State *s, Tiny_StringNode *name) {
    CHECK("a parenthesis follows the name", last() == TOK(OPENPAREN));
    CHECK("the function called is the one named", name == &S0 && name->value == LEX);
    event(CALL);
    any_token();
    CALLED = true;
    return &C;
}
void harness(void) {
    setup();
    ST.l.lastTok = TINY_TOK_IDENT;
    int pos = ST.l.pos, line = ST.l.lineNumber;
    REACH("pre");
    Tiny_Expr *r = ParseValue(&ST);
    if (CALLED) CHECK("a name before a parenthesis is a call", r == &C);
    else {
        CHECK("a name is one token, not followed by a parenthesis", S == 1 && NTOK == 1 && last() != TOK(OPENPAREN));
        CREATED(r, TINY_EXP_ID);
        CHECK("the variable is the one the name refers to", r->id.sym == &SYM && r->id.name == &S0 && S0.value == LEX);
        CHECK("a name's position is its own", r->pos == pos && r->lineNumber == line);
        STAYS(r);
    }
    REACH("post");
}
#endif
#ifdef VALUE_UNARY
static int delta(int s, int ev) { return s == 0 && (ev == TOK(MINUS) || ev == TOK(BANG)) ? 1 : s == 1 && ev == FACTOR ? DONE : -1; }
static void read(Tiny_TokenKind op) {
    ST.l.lastTok = op;
    Tiny_Expr *r = ParseValue(&ST);
    CHECK("a unary operator applies to the factor behind it", S == DONE && r->type == TINY_EXP_UNARY && r->unary.op == op && r->unary.exp == &P0);
    STAYS(r);
}
void harness(void) {
    setup();
    REACH("pre");
    if (in_bool()) read(TINY_TOK_MINUS); else read(TINY_TOK_BANG);
    REACH("post");
}
#endif
#ifdef VALUE_PAREN
static int delta(int s, int ev) { return s == 0 && ev == TOK(OPENPAREN) ? 1 : s == 1 && ev == EXPR ? 2 : s == 2 && ev == TOK(CLOSEPAREN) ? DONE : -1; }
void harness(void) {
    setup();
    ST.l.lastTok = TINY_TOK_OPENPAREN;
    REACH("pre");
    Tiny_Expr *r = ParseValue(&ST);
    CHECK("parentheses hold an expression", S == DONE && r->type == TINY_EXP_PAREN && r->paren == &P0);
    STAYS(r);
    REACH("post");
}
#endif
#ifdef VALUE_TERNARY
static int delta(int s, int ev) { return s == 0 && ev == TOK(IF) ? 1 : s == 1 && ev == EXPR ? 2 : s == 2 && ev == EXPR ? 3 : s == 3 && ev == TOK(ELSE) ? 4 : s == 4 && ev == EXPR ? DONE : -1; }
void harness(void) {
    setup();
    ST.l.lastTok = TINY_TOK_IF;
    REACH("pre");
    Tiny_Expr *r = ParseValue(&ST);
    CHECK("if, a condition, a value, else, a value", S == DONE && r->type == TINY_EXP_IF_TERNARY && r->ifx.cond == &P0 && r->ifx.body == &P1 && r->ifx.alt == &P2);
    STAYS(r);
    REACH("post");
}
#endif
#ifdef VALUE_OTHER
static bool starts(int t) {
    return t == TOK(NULL) || t == TOK(BOOL) || t == TOK(CHAR) || t == TOK(INT) || t == TOK(FLOAT) || t == TOK(STRING) || t == TOK(IDENT) || t == TOK(MINUS) || t == TOK(BANG) || t == TOK(OPENPAREN) || t == TOK(IF) || t == TOK(NEW) || t == TOK(CAST);
}
static int delta(int s, int ev) { return -1; }
void harness(void) {
    setup();
    ASSUME(!starts(last()));
    ST.l.errorMsg = "error";
    REACH("pre");
    ParseValue(&ST);
    CHECK("what does not start a value is rejected", false);
}
#endif
#ifdef VALUE_CAST
static int delta(int s, int ev) {
    switch (s) {
        case 0: return ev == TOK(CAST) ? 1 : -1;
        case 1: return ev == TOK(OPENPAREN) ? 2 : -1;
        case 2: return ev == EXPR ? 3 : -1;
        case 3: return ev == TOK(COMMA) ? 4 : -1;
        case 4: return ev == TYPE ? 5 : -1;
        case 5: return ev == TOK(CLOSEPAREN) ? DONE : -1;
        case DONE: return ev == TOK(DOT) ? 6 : -1; /* a suffix; the others are ParseSuffix's */
        case 6: return ev == TOK(IDENT) ? DONE : -1;
    }
    return -1;
}
static Tiny_Expr L;
static void cast_ok(Tiny_Expr *c) {
    CREATED(c, TINY_EXP_CAST);
    CHECK("a cast has a value and a type", c == &NEW0 && c->cast.value == &P0 && c->cast.tag == &TAGSYM);
    STAYS(c);
}
static int FIRST;
static void dot_read(Tiny_Expr *n) {
    CHECK("a field access", n == &NEW1 && n->type == TINY_EXP_DOT && n->dot.lhs == &L && n->dot.field == &S0 && S0.value == LEX + FIRST + 1);
    STAYS(n);
}
static void dot_cut(Tiny_Expr **exp) {
    if (CUT++ == 0) {
        CHECK("suffixes come behind the cast", S == DONE);
        cast_ok(*exp);
        *exp = &L;
        L.next = NULL;
        FIRST = NTOK;
    } else {
        CHECK("a whole suffix is read", S == DONE);
        dot_read(*exp);
        REACH("loop");
        ASSUME(false);
    }
}
void harness(void) {
    setup();
    ST.l.lastTok = TINY_TOK_CAST;
    REACH("pre");
    Tiny_Expr *r = ParseValue(&ST);
    CHECK("a cast ends with its parenthesis", S == DONE);
    if (CUT == 0) cast_ok(r); else dot_read(r);
    REACH("post");
}
#endif
#ifdef VALUE_NEW
static Tiny_Symbol *STRUCT_;
static int delta(int s, int ev) {
    switch (s) {
        case 0: return ev == TOK(NEW) ? 1 : -1;
        case 1: return ev == TOK(IDENT) ? 2 : -1;
        case 2: return ev == TOK(OPENCURLY) ? 3 : -1;
        case 3: return ev == TOK(CLOSECURLY) ? DONE : ev == TOK(DOT) ? 5 : ev == EXPR && last() != TOK(CLOSECURLY) && last() != TOK(DOT) ? 4 : -1;
        case 4: return ev == TOK(CLOSECURLY) ? DONE : ev == TOK(COMMA) ? 3 : -1;
        case 5: return ev == TOK(IDENT) ? 6 : -1;
        case 6: return ev == TOK(EQUAL) ? 7 : -1;
        case 7: return ev == EXPR ? 4 : -1;
    }
    return -1;
}
Tiny_Symbol *Struct_spec(Tiny_State *s, const char *name, bool search) {
    CHECK("the struct is the one named", search && name == ST.l.lexeme && last() == TOK(IDENT) && S == 1 && NTOK == 1);
    return &SYM;
}
static bool SEMPTY, SONE, NAMED;
static int FIRST;
static Tiny_StringNode SHEAD, STAIL;
static void names_read(Tiny_Expr *exp) {
    if (NAMED) CHECK("the name is appended to the ones before it", S0.value == LEX + FIRST + 1 && S0.next == NULL && (SEMPTY ? exp->constructor.argNamesHead == &S0 : STAIL.next == &S0 && exp->constructor.argNamesHead == (SONE ? &STAIL : &SHEAD)));
    else CHECK("no name is appended", NS == 0 && STAIL.next == NULL && exp->constructor.argNamesHead == (SEMPTY ? NULL : SONE ? &STAIL : &SHEAD));
}
static void new_cut(Tiny_Expr **tail, Tiny_StringNode **ntail, Tiny_Expr *exp) {
    if (CUT++ == 0) {
        CHECK("there are no fields yet", S == 3 && exp == &NEW0 && exp->constructor.argsHead == NULL && exp->constructor.argNamesHead == NULL && *tail == NULL && *ntail == NULL);
        list_cut(&exp->constructor.argsHead, tail);
        HEADP = exp->constructor.argsHead;
        SEMPTY = in_bool();
        SONE = in_bool();
        SHEAD.next = &STAIL;
        STAIL.next = NULL;
        *ntail = SEMPTY ? NULL : &STAIL;
        exp->constructor.argNamesHead = SEMPTY ? NULL : SONE ? &STAIL : &SHEAD;
        NAMED = last() == TOK(DOT);
        FIRST = NTOK;
    } else {
        CHECK("one value is read", S == 3 && NP == 1);
        list_grown(exp->constructor.argsHead, *tail, &P0);
        names_read(exp);
        CHECK("names go on behind the last", *ntail == (NAMED ? &S0 : SEMPTY ? NULL : &STAIL));
        REACH("loop");
        ASSUME(false);
    }
}
void harness(void) {
    setup();
    ST.l.lastTok = TINY_TOK_NEW;
    REACH("pre");
    Tiny_Expr *r = ParseValue(&ST);
    CHECK("a constructor ends with its brace", S == DONE && r == &NEW0);
    CREATED(r, TINY_EXP_CONSTRUCTOR);
    CHECK("the struct is the one named", r->constructor.structTag == &SYM);
    if (NP == 0) CHECK("a constructor without values", r->constructor.argsHead == NULL && r->constructor.argNamesHead == NULL);
    else names_read(r);
    if (NP) CHECK("the values are those read", EMPTY ? r->constructor.argsHead == &P0 : r->constructor.argsHead == HEADP && TAIL.next == &P0);
    STAYS(r);
    REACH("post");
}
#endif

/* ---- statements and declarations */
#ifdef IF_
static int delta(int s, int ev) { return s == 0 && ev == TOK(IF) ? 1 : s == 1 && ev == EXPR ? 2 : s == 2 && ev == STMT ? 3 : s == 3 && ev == TOK(ELSE) ? 4 : s == 4 && ev == STMT ? DONE : -1; }
void harness(void) {
    setup();
    ST.l.lastTok = TINY_TOK_IF;
    REACH("pre");
    Tiny_Expr *r = ParseIf(&ST);
    CHECK("if, a condition, a statement, and perhaps else and a statement", S == DONE || S == 3 && last() != TOK(ELSE));
    CHECK("the parts are in place", r->type == TINY_EXP_IF && r->ifx.cond == &P0 && r->ifx.body == &P1 && r->ifx.alt == (S == DONE ? &P2 : NULL));
    STAYS(r);
    REACH("post");
}
#endif
#ifdef BLOCK_
static int delta(int s, int ev) {
    switch (s) {
        case 0: return ev == TOK(OPENCURLY) ? 1 : -1;
        case 1: return ev == TOK(CLOSECURLY) ? DONE : ev == STMT && last() != TOK(CLOSECURLY) ? 1 : -1;
    }
    return -1;
}
static void block_cut(Tiny_Expr **tail, Tiny_Expr *exp) {
    if (CUT++ == 0) {
        CHECK("there are no statements yet", S == 1 && exp == &NEW0 && exp->blockHead == NULL && *tail == NULL);
        CHECK("a block has a scope of its own", DEPTH == 1);
        list_cut(&exp->blockHead, tail);
        HEADP = exp->blockHead;
    } else {
        CHECK("one statement is read", S == 1 && NP == 1 && DEPTH == 1);
        list_grown(exp->blockHead, *tail, &P0);
        REACH("loop");
        ASSUME(false);
    }
}
void harness(void) {
    setup();
    SCOPED = 1;
    ST.l.lastTok = TINY_TOK_OPENCURLY;
    REACH("pre");
    Tiny_Expr *r = ParseBlock(&ST);
    CHECK("a block ends with its brace", S == DONE && r == &NEW0);
    CREATED(r, TINY_EXP_BLOCK);
    CHECK("a block's scope ends with it", DEPTH == 0);
    if (NP == 0) CHECK("an empty block", r->blockHead == NULL);
    else CHECK("the statements are those read", EMPTY ? r->blockHead == &P0 : r->blockHead == HEADP && TAIL.next == &P0);
    STAYS(r);
    REACH("post");
}
#endif
#ifdef WHILE_
static int delta(int s, int ev) { return s == 0 && ev == TOK(WHILE) ? 1 : s == 1 && ev == EXPR ? 2 : s == 2 && ev == STMT ? DONE : -1; }
void harness(void) {
    setup();
    SCOPED = 1;
    ST.l.lastTok = TINY_TOK_WHILE;
    REACH("pre");
    Tiny_Expr *r = VC_REAL_ParseStatement(&ST);
    CHECK("while, a condition, a statement", S == DONE && r->type == TINY_EXP_WHILE && r->whilex.cond == &P0 && r->whilex.body == &P1);
    CHECK("the loop's scope ends with it", DEPTH == 0);
    STAYS(r);
    REACH("post");
}
#endif
#ifdef FOR_
static int delta(int s, int ev) {
    switch (s) {
        case 0: return ev == TOK(FOR) ? 1 : -1;
        case 1: return ev == STMT ? 2 : -1;
        case 2: return ev == TOK(SEMI) ? 3 : -1;
        case 3: return ev == EXPR ? 4 : -1;
        case 4: return ev == TOK(SEMI) ? 5 : -1;
        case 5: return ev == STMT ? 6 : -1;
        case 6: return ev == STMT ? DONE : -1;
    }
    return -1;
}
void harness(void) {
    setup();
    SCOPED = 1;
    ST.l.lastTok = TINY_TOK_FOR;
    REACH("pre");
    Tiny_Expr *r = VC_REAL_ParseStatement(&ST);
    CHECK("for, a statement, a condition, a statement, the body", S == DONE && r->type == TINY_EXP_FOR && r->forx.init == &P0 && r->forx.cond == &P1 && r->forx.step == &P2 && r->forx.body == &P3);
    CHECK("the loop's scope ends with it", DEPTH == 0);
    STAYS(r);
    REACH("post");
}
#endif
#ifdef RETURN_
static int delta(int s, int ev) { return s == 0 && ev == TOK(RETURN) ? 1 : s == 1 && ev == TOK(SEMI) ? DONE : s == 1 && ev == EXPR && last() != TOK(SEMI) ? DONE : -1; }
void harness(void) {
    setup();
    ST.l.lastTok = TINY_TOK_RETURN;
    bool infunc = in_bool(), isvoid = in_bool();
    FN.name = LEX;
    FN.func.returnTag = &TAGSYM;
    TAGSYM.type = isvoid ? TINY_SYM_TAG_VOID : TINY_SYM_TAG_INT;
    ST.currFunc = infunc ? &FN : NULL;
    SEMANTIC = !infunc || isvoid; /* nothing to return from; nothing to be returned */
    REACH("pre");
    Tiny_Expr *r = VC_REAL_ParseStatement(&ST);
    CHECK("return stands in a function", infunc);
    CHECK("return, and a value or ';'", S == DONE && r->type == TINY_EXP_RETURN && r->retExpr == (NP ? &P0 : NULL));
    CHECK("a void function returns no value", !isvoid || NP == 0);
    STAYS(r);
    REACH("post");
}
#endif
#ifdef JUMPS_
static int delta(int s, int ev) { return s == 0 && (ev == TOK(BREAK) || ev == TOK(CONTINUE)) ? DONE : -1; }
static void read(Tiny_TokenKind t) {
    ST.l.lastTok = t;
    Tiny_Expr *r = VC_REAL_ParseStatement(&ST);
    CHECK("break and continue are one token", S == DONE && NTOK == 1 && r->type == (t == TINY_TOK_BREAK ? TINY_EXP_BREAK : TINY_EXP_CONTINUE) && r->breakContinue.patchLoc == -1);
    STAYS(r);
}
void harness(void) {
    setup();
    REACH("pre");
    if (in_bool()) read(TINY_TOK_BREAK); else read(TINY_TOK_CONTINUE);
    REACH("post");
}
#endif
#ifdef KINDS_ /* the first token decides what statement it is */
static int delta(int s, int ev) { return s != 0 ? -1 : last() == TOK(OPENCURLY) && ev == BLOCK || last() == TOK(FUNC) && ev == FUNC || last() == TOK(IF) && ev == IF ? DONE : -1; }
Tiny_Expr *Block_spec(Tiny_State *s) { return part(BLOCK); }
Tiny_Expr *Func_spec(Tiny_State *s) { return part(FUNC); }
Tiny_Expr *If_spec(Tiny_State *s) { return part(IF); }
static void read(Tiny_TokenKind t) {
    ST.l.lastTok = t;
    Tiny_Expr *r = VC_REAL_ParseStatement(&ST);
    CHECK("a statement is what its first token says", S == DONE && r == &P0);
}
void harness(void) {
    setup();
    REACH("pre");
    switch (in_range(0, 2)) {
        case 0: read(TINY_TOK_OPENCURLY); break;
        case 1: read(TINY_TOK_FUNC); break;
        default: read(TINY_TOK_IF);
    }
    REACH("post");
}
#endif
#ifdef SIMPLE_ /* a call, an assignment or a declaration */
/* 0: nothing, 1: behind a factor, 2: behind the operator, 3: behind ':', 4: behind the type */
static int LHS, DECLARED, CONSTS;
static Tiny_Symbol VAR, CONST_;
static int CTYPE;
static bool INFUNC;
static int delta(int s, int ev) {
    switch (s) {
        case 0: return ev == FACTOR ? 1 : -1;
        case 1: if (LHS == TINY_EXP_CALL) return -1;
                return ev == TOK(COLON) && LHS == TINY_EXP_ID ? 3 : ev == TOK(DECLARE) && LHS != TINY_EXP_ID ? -1 : ev < EXPR && ev != TOK(COLON) && prec(ev) < 0 ? 2 : -1;
        case 2: return ev == EXPR ? DONE : -1;
        case 3: return ev == TYPE ? 4 : -1;
        case 4: return ev == TOK(EQUAL) ? 2 : -1;
    }
    return -1;
}
Tiny_Expr *Factor_simple(Tiny_State *s) {
    Tiny_Expr *e = part(FACTOR);
    static const Tiny_ExprType k[] = {TINY_EXP_CALL, TINY_EXP_ID, TINY_EXP_DOT, TINY_EXP_INDEX, TINY_EXP_PAREN};
    e->type = LHS = k[in_range(0, 4)];
    e->id.name = &S3;
    e->id.sym = NULL;
    S3.value = LEX;
    return e;
}
Tiny_Expr *Expr_simple(Tiny_State *s) {
    Tiny_Expr *e = part(EXPR);
    static const Tiny_ExprType k[] = {TINY_EXP_BOOL, TINY_EXP_CHAR, TINY_EXP_INT, TINY_EXP_FLOAT, TINY_EXP_STRING, TINY_EXP_ID, TINY_EXP_BINARY};
    CTYPE = (int)in_range(0, 6);
    e->type = k[CTYPE];
    SEMANTIC = LHS != TINY_EXP_ID || CTYPE > 4;
    return e;
}
Tiny_Symbol *Local_spec(Tiny_State *s, const char *name) { CHECK("a variable declared in a function is a local", INFUNC && name == LEX && !DECLARED++); return &VAR; }
Tiny_Symbol *Global_spec(Tiny_State *s, const char *name) { CHECK("a variable declared outside functions is a global", !INFUNC && name == LEX && !DECLARED++); return &VAR; }
Tiny_Symbol *Const_spec(Tiny_State *s, const char *name, Tiny_Symbol *tag) {
    CHECK("a constant is declared once, under its name", name == LEX && !CONSTS++);
    CHECK("a constant has the type of its literal", tag->type == (CTYPE == 0 ? TINY_SYM_TAG_BOOL : CTYPE == 3 ? TINY_SYM_TAG_FLOAT : CTYPE == 4 ? TINY_SYM_TAG_STR : TINY_SYM_TAG_INT));
    return &CONST_;
}
void harness(void) {
    setup();
    static const int never[] = {TOK(OPENCURLY), TOK(FUNC), TOK(IF), TOK(WHILE), TOK(FOR), TOK(RETURN), TOK(BREAK), TOK(CONTINUE), TOK(USE)};
    for (int i = 0; i < 9; i++) ASSUME(last() != never[i]);
    INFUNC = in_bool();
    ST.currFunc = INFUNC ? &FN : NULL;
    VAR.var.tag = NULL;
    REACH("pre");
    Tiny_Expr *r = VC_REAL_ParseStatement(&ST);
    if (LHS == TINY_EXP_CALL) {
        CHECK("a call is a statement", r == &P0 && S == 1 && NP == 1);
    } else {
        CHECK("a value, an operator, a value", S == DONE && r == &NEW0 && r->type == TINY_EXP_BINARY && r->binary.lhs == &P0 && r->binary.rhs == &P1);
        STAYS(r);
        int op = r->binary.op;
        bool typed = VAR.var.tag != NULL;
        CHECK("a declaration makes a variable, nothing else does", DECLARED == (op == TOK(DECLARE) || typed));
        CHECK("a declared variable is what the name refers to", P0.id.sym == (DECLARED ? &VAR : NULL) || LHS != TINY_EXP_ID);
        CHECK("a declaration with a type is an assignment to a variable of that type", !typed || op == TOK(EQUAL) && VAR.var.tag == &TAGSYM);
        CHECK("a constant is declared by '::'", CONSTS == (op == TOK(DECLARECONST)));
        if (CONSTS) CHECK("a constant has its literal's value", CTYPE == 0 ? CONST_.constant.bValue == P1.boolean : CTYPE == 3 ? CONST_.constant.fValue == P1.fValue || P1.fValue != P1.fValue : CTYPE == 4 ? CONST_.constant.sIndex == P1.sIndex : CONST_.constant.iValue == P1.iValue);
    }
    REACH("post");
}
#endif
#ifdef PROGRAM_
static int STRUCTS;
static int delta(int s, int ev) {
    switch (s) {
        case 0: return ev < EXPR ? 1 : -1; /* whatever was there before */
        case 1: return ev == STRUCT && last() == TOK(STRUCT) ? 1 : ev == STMT && last() != TOK(STRUCT) && last() != TOK(EOF) ? 1 : -1;
    }
    return -1;
}
Tiny_Symbol *ParseStruct_spec(Tiny_State *s) { event(STRUCT); STRUCTS++; any_token(); return &SYM; }
static Tiny_Expr *LISTHEAD;
static void program_cut(Tiny_Expr **head, Tiny_Expr **tail) {
    if (CUT++ == 0) {
        CHECK("there are no statements yet", S == 1 && *head == NULL && *tail == NULL);
        list_cut(head, tail);
        HEADP = *head;
    } else {
        CHECK("one part is read", S == 1 && NP + STRUCTS == 1);
        if (NP) list_grown(*head, *tail, &P0);
        else CHECK("a struct is no statement", *head == HEADP && *tail == (EMPTY ? NULL : &TAIL) && TAIL.next == NULL);
        REACH("loop");
        ASSUME(false);
    }
}
void harness(void) {
    setup();
    REACH("pre");
    Tiny_Expr *r = ParseProgram(&ST);
    CHECK("a program is read to its end", S == 1 && last() == TOK(EOF));
    CHECK("the statements are those read", CUT == 0 ? r == NULL : NP == 0 ? r == HEADP : EMPTY ? r == &P0 : r == HEADP && TAIL.next == &P0);
    REACH("post");
}
#endif
#ifdef TYPE_
static Tiny_Symbol NULLABLE;
static bool KNOWN;
static int delta(int s, int ev) { return s == 0 && ev == TOK(IDENT) ? 1 : s == 1 && ev == TOK(QUESTION) ? DONE : -1; }
Tiny_Symbol *TagFromName_spec(Tiny_State *s, const char *name, bool declare) {
    CHECK("the type is the one named", declare && name == LEX && S == 0);
    SEMANTIC = !KNOWN;
    return KNOWN ? &TAGSYM : NULL;
}
Tiny_Symbol *Nullable_spec(Tiny_State *s, Tiny_Symbol *t) {
    CHECK("the nullable type is that of the type before '?'", t == &TAGSYM);
    return &NULLABLE;
}
Tiny_TokenKind GetToken_type(Tiny_Lexer *l) {
    Tiny_TokenKind t = GetToken_spec(l);
    SEMANTIC = S == 1 && t == TOK(QUESTION) && TAGSYM.type == TINY_SYM_TAG_VOID;
    return t;
}
void harness(void) {
    setup();
    KNOWN = in_bool();
    TAGSYM.type = in_bool() ? TINY_SYM_TAG_VOID : TINY_SYM_TAG_INT;
    REACH("pre");
    Tiny_Symbol *r = ParseTypeSL(&ST);
    CHECK("a type is a name, perhaps with a '?'", S == DONE && r == &NULLABLE && TAGSYM.type != TINY_SYM_TAG_VOID || S == 1 && last() != TOK(QUESTION) && r == &TAGSYM);
    CHECK("a type is known", KNOWN);
    REACH("post");
}
#endif
#ifdef USE_
static bool AS; /* the current token is the word as */
static bool TOP;
static int AFTER;
static int delta(int s, int ev) {
    switch (s) {
        case 0: return ev == TOK(USE) ? 1 : -1;
        case 1: return ev == TOK(IDENT) ? 2 : -1;
        case 2: return ev == TOK(OPENPAREN) ? 3 : -1;
        case 3: return ev == TOK(CLOSEPAREN) ? 5 : ev == TOK(STRING) ? 4 : -1;
        case 4: return ev == TOK(CLOSEPAREN) ? 5 : ev == TOK(STRING) ? 4 : ev == TOK(COMMA) ? 3 : -1;
        case 5: return ev == TOK(IDENT) && AS ? 6 : -1;
        case 6: return ev == TOK(IDENT) ? DONE : -1;
    }
    return -1;
}
int strcmp_spec(const char *a, const char *b) {
    CHECK("the current token is compared with as", a == ST.l.lexeme && b[0] == 'a' && b[1] == 's' && b[2] == 0);
    return AS ? 0 : 1;
}
static Tiny_StringNode SHEAD, STAIL, *SHEADP;
static bool SEMPTY;
static int FIRST;
static void use_cut(Tiny_StringNode **tail, Tiny_Expr *exp) {
    if (CUT++ == 0) {
        CHECK("there are no arguments yet", S == 3 && exp->use.argsHead == NULL && *tail == NULL && NS == 1);
        SEMPTY = in_bool();
        SHEAD.next = &STAIL;
        STAIL.next = NULL;
        *tail = SEMPTY ? NULL : &STAIL;
        exp->use.argsHead = SHEADP = SEMPTY ? NULL : in_bool() ? &STAIL : &SHEAD;
        if (in_bool()) { S = 4; ASSUME(last() != TOK(COMMA)); } /* behind an argument the comma is read with it */
        FIRST = NTOK;
    } else {
        CHECK("one argument is read", (S == 3 || S == 4) && NS == 2 && S1.value == LEX + FIRST);
        CHECK("the argument is appended to the ones before it", *tail == &S1 && S1.next == NULL && (SEMPTY ? exp->use.argsHead == &S1 : exp->use.argsHead == SHEADP && STAIL.next == &S1));
        REACH("loop");
        ASSUME(false);
    }
}
void harness(void) {
    setup();
    ST.l.lastTok = TINY_TOK_USE;
    AS = in_bool();
    bool infunc = in_bool();
    ST.currFunc = infunc ? &FN : NULL;
    ST.currScope = (int)in_range(0, 3);
    SEMANTIC = infunc || ST.currScope != 0;
    REACH("pre");
    Tiny_Expr *r = VC_REAL_ParseStatement(&ST);
    CHECK("use stands at the top level", !infunc && ST.currScope == 0);
    CHECK("use, a module, its arguments, and perhaps a name", S == DONE || S == 5 && !(last() == TOK(IDENT) && AS));
    CREATED(r, TINY_EXP_USE);
    CHECK("the module is the one named", r->use.moduleName == &S0 && S0.value == LEX + 1);
    CHECK("the name is the one given", S == DONE ? r->use.asName == SN(NS - 1) && NS == (CUT ? 3 : 2) && r->use.asName->value == LEX + NTOK - 1 : r->use.asName == NULL && NS == (CUT ? 2 : 1));
    if (CUT == 0) CHECK("no arguments", r->use.argsHead == NULL);
    else CHECK("the arguments are those read", SEMPTY ? r->use.argsHead == &S1 : r->use.argsHead == SHEADP && STAIL.next == &S1);
    STAYS(r);
    REACH("post");
}
#endif
#if defined(STRUCT_) || defined(FUNC_)
#define MAXN (1 << 20)
static int N, AT; /* how many were read before the cut; an arbitrary one of them */
#endif
#ifdef STRUCT_
static Tiny_Symbol OLD, FIELD;
static Tiny_Symbol **TAB;
static int DUP, CUT2, CREATES, FIRST;
static bool INFUNC;
static int delta(int s, int ev) {
    switch (s) {
        case 0: return ev == TOK(STRUCT) ? 1 : -1;
        case 1: return ev == TOK(IDENT) ? 2 : -1;
        case 2: return ev == TOK(OPENCURLY) ? 3 : -1;
        case 3: return ev == TOK(CLOSECURLY) ? DONE : ev == TOK(IDENT) ? 4 : -1;
        case 4: return ev == TOK(COLON) ? 5 : -1;
        case 5: return ev == TYPE ? 3 : -1;
    }
    return -1;
}
Tiny_Symbol *Struct_spec(Tiny_State *s, const char *name, bool search) {
    CHECK("the struct is the one named", search && name == LEX + 1 && last() == TOK(IDENT) && S == 1);
    SEMANTIC = SYM.sstruct.defined;
    return &SYM;
}
static Tiny_Symbol **table(int n) {
    Tiny_Symbol **b = malloc(sizeof(Tiny_Symbol *) * (size_t)(1 + n + 2));
    ((int *)b)[0] = n + 2;
    ((int *)b)[1] = n;
    return b + 1;
}
static void struct_cut(void) {
    if (CUT++ == 0) {
        CHECK("there are no fields yet", S == 3 && SYM.sstruct.fields == NULL && SYM.sstruct.defined);
        FIRST = NTOK;
#ifdef MORE
        N = (int)in_range(1, 255);
        AT = (int)in_range(0, 254);
        DUP = (int)in_range(-1, 254);
        ASSUME(AT < N && DUP < N);
        SYM.sstruct.fields = TAB = table(N);
        TAB[AT] = &OLD;
        OLD.name = LEX + 60;
#else
        N = 0;
        DUP = -1;
#endif
        SEMANTIC = N >= 255 || DUP >= 0;
    } else {
        CHECK("one field is read", S == 3 && CREATES == 1 && N < 255 && DUP < 0);
        CHECK("the field is added behind the ones before it", sb_count(SYM.sstruct.fields) == N + 1 && SYM.sstruct.fields[N] == &FIELD);
#ifdef MORE
        CHECK("the fields before it stay", SYM.sstruct.fields[AT] == &OLD);
#endif
        CHECK("a field has its type", FIELD.fieldTag == &TAGSYM);
        REACH("loop");
        ASSUME(false);
    }
}
static int I0;
static void names_cut(int *i) {
    if (CUT2++ == 0) {
        CHECK("all fields are compared", *i == 0);
        I0 = (int)in_range(0, 254);
        ASSUME(I0 < N && (DUP < 0 || I0 <= DUP));
        if (I0 != AT) ASSUME(false); /* the arbitrary field is the one looked at */
        *i = I0;
    } else {
        CHECK("a field whose name is taken is rejected", *i == I0 + 1 && I0 != DUP);
        ASSUME(false);
    }
}
int strcmp_spec(const char *a, const char *b) {
    CHECK("the new field's name is compared with a field's", (a == OLD.name && b == ST.l.lexeme || b == OLD.name && a == ST.l.lexeme) && last() == TOK(IDENT));
    return DUP == AT ? 0 : 1;
}
Tiny_Symbol *Create_spec(Tiny_SymbolType t, const char *name, Tiny_State *s) {
    CHECK("a field is made with the name written", t == TINY_SYM_FIELD && name == LEX + FIRST && S == 3 && last() == TOK(IDENT));
    CREATES++;
    return &FIELD;
}
void *Grow_spec(Tiny_Context *ctx, void *arr, int inc, int itemsize) {
    CHECK("the table grows by one field", inc == 1 && itemsize == sizeof(void *));
    if (N == 0) return table(0);
    ((int *)arr)[-2] += 2; /* there is room behind it: the allocator may return the same block */
    return arr;
}
void harness(void) {
    setup();
    ST.l.lastTok = TINY_TOK_STRUCT;
    INFUNC = in_bool();
    FN.name = LEX;
    ST.currFunc = INFUNC ? &FN : NULL;
    SYM.sstruct.defined = in_bool();
    SYM.sstruct.fields = NULL;
    SEMANTIC = INFUNC;
    REACH("pre");
    if (in_bool()) { /* a struct without fields */
        SEMANTIC = true;
        bool was = SYM.sstruct.defined;
        Tiny_Symbol *r = ParseStruct(&ST);
        CHECK("a struct stands outside functions, is defined once and has fields", !INFUNC && !was && CUT > 0);
        CHECK("a struct ends with its brace", S == DONE && r == &SYM && SYM.sstruct.defined);
        CHECK("the fields are those read", sb_count(r->sstruct.fields) == N + 1 && r->sstruct.fields[N] == &FIELD && FIELD.fieldTag == &TAGSYM);
        REACH("post");
        return;
    }
    bool was = SYM.sstruct.defined;
    ASSUME(!INFUNC && !was);
    Tiny_Symbol *r = ParseStruct(&ST);
    ASSUME(CUT > 0);
    CHECK("a struct ends with its brace", S == DONE && r == &SYM);
}
#endif
#ifdef FUNC_
typedef struct { char *name; Tiny_Symbol *tag; } Param;
static Param *TAB;
static int CUT2, I0, DECLARES, FIRST, BODIES;
static bool INFUNC;
static Tiny_Symbol OTHER, ATSYM;
static char ATNAME[1];
static int delta(int s, int ev) {
    switch (s) {
        case 0: return ev == TOK(FUNC) ? 1 : -1;
        case 1: return ev == TOK(IDENT) ? 2 : -1;
        case 2: return ev == TOK(OPENPAREN) ? 3 : -1;
        case 3: return ev == TOK(CLOSEPAREN) ? 7 : ev == TOK(IDENT) ? 4 : -1;
        case 4: return ev == TOK(COLON) ? 5 : -1;
        case 5: return ev == TYPE ? 6 : -1;
        case 6: return ev == TOK(CLOSEPAREN) ? 7 : ev == TOK(COMMA) ? 3 : -1;
        case 7: return ev == TOK(COLON) ? 8 : ev == STMT && last() != TOK(COLON) ? DONE : -1;
        case 8: return ev == TYPE ? 9 : -1;
        case 9: return ev == STMT ? DONE : -1;
    }
    return -1;
}
Tiny_Symbol *Function_spec(Tiny_State *s, const char *name) {
    CHECK("the function declared is the one named", name == LEX + 1 && S == 1 && last() == TOK(IDENT));
    return &FN;
}
static Param *table(int n) {
    Param *b = malloc(sizeof(Param) * (size_t)(1 + n + 2));
    ((int *)&b->tag)[0] = n + 2;
    ((int *)&b->tag)[1] = n;
    return b + 1;
}
static int count(void *args) { return args ? ((int *)args)[-1] : 0; }
static void *params_cut(void *args) {
    if (CUT++ == 0) {
        CHECK("there are no parameters yet", S == 3 && args == NULL);
        FIRST = NTOK;
#ifdef MORE
        N = MORE;
        AT = (int)in_range(0, MORE - 1);
        TAB = table(N);
        TAB[AT].name = ATNAME;
        TAB[AT].tag = &ATSYM;
        return TAB;
#else
        return NULL;
#endif
    }
    CHECK("one parameter is read", S == 3 && count(args) == N + 1);
    CHECK("the parameter has the name and type written", ((Param *)args)[N].name == LEX + FIRST && ((Param *)args)[N].tag == &TAGSYM);
#ifdef MORE
    CHECK("the parameters before it stay", ((Param *)args)[AT].name == ATNAME && ((Param *)args)[AT].tag == &ATSYM);
#endif
    REACH("loop");
    ASSUME(false);
    return NULL;
}
/* parameter I0 of those that were read; N+1 were read if the list ended with the one read at the cut */
static int NPARAMS;
static void declare_cut(int *i, void *args) {
    if (CUT2++ == 0) {
        CHECK("the parameters are declared behind the list, in order", (S == 3 || S == 6) && last() == TOK(CLOSEPAREN) && *i == 0 && DECLARES == 0);
        NPARAMS = count(args);
        CHECK("all parameters are declared", CUT == 0 || NPARAMS == N + 1);
        I0 = (int)in_range(0, MAXN);
#ifdef MORE
        ASSUME(I0 == AT || I0 == MORE);
#endif
        ASSUME(I0 < NPARAMS);
        *i = I0;
    } else {
        CHECK("every parameter is declared once", *i == I0 + 1 && DECLARES == 1);
#ifdef MORE
        REACH("loop2");
#endif
        ASSUME(false);
    }
}
Tiny_Symbol *Argument_spec(Tiny_State *s, const char *name, Tiny_Symbol *tag, int nargs) {
    CHECK("parameters belong to their function", s->currFunc == &FN);
    CHECK("a parameter is declared as written", nargs == NPARAMS && (I0 == N ? name == LEX + FIRST && tag == &TAGSYM : name == ATNAME && tag == &ATSYM));
    DECLARES++;
    return &SYM;
}
void *Grow_spec(Tiny_Context *ctx, void *arr, int inc, int itemsize) {
    CHECK("the list grows by one parameter", inc == 1 && itemsize == sizeof(Param));
    if (N == 0) return table(0);
    ((int *)arr)[-2] += 2;
    return arr;
}
char *Clone_spec(Tiny_Context *ctx, const char *text) { CHECK("names come from the current token", text == ST.l.lexeme); return (char *)text; }
void Free_spec(Tiny_Context *ctx, void *p) {}
Tiny_Expr *Body_spec(Tiny_State *s) {
    CHECK("a function's body is read as part of the function", s->currFunc == &FN && FN.func.returnTag == (S == 9 ? &TAGSYM : GetPrimTag(TINY_SYM_TAG_VOID)));
    CHECK("a function's body has a scope of its own", DEPTH == 1);
    return part(STMT);
}
void harness(void) {
    setup();
    ST.l.lastTok = TINY_TOK_FUNC;
    INFUNC = in_bool();
    OTHER.name = LEX;
    ST.currFunc = INFUNC ? &OTHER : NULL;
    SEMANTIC = INFUNC;
    REACH("pre");
    Tiny_Expr *r = ParseFunc(&ST);
    CHECK("functions stand outside functions", !INFUNC);
    CHECK("func, a name, parameters, perhaps a type, a statement", S == DONE && r == &NEW0 && r->type == TINY_EXP_PROC && r->proc.decl == &FN && r->proc.body == &P0);
    CHECK("every parameter is declared", CUT == 0 ? CUT2 == 0 : CUT2 == 1 && DECLARES == 1 && I0 == NPARAMS - 1);
    CHECK("behind a function is outside it", ST.currFunc == NULL && DEPTH == 0);
    STAYS(r);
    REACH("post");
}
#endif
#ifdef CREATE_
static int delta(int s, int ev) { return -1; }
static Tiny_StringNode *BLOCK_;
void *Arena_spec(Tiny_Arena *a, size_t size, size_t align) { return a == &ST.parserArena && size == sizeof(Tiny_Expr) ? &NEW0 : NULL; }
void harness(void) {
    setup();
    Tiny_ExprType t = (Tiny_ExprType)in_range(0, 40);
    REACH("pre");
    Tiny_Expr *e = Expr_create(t, &ST);
    CHECK("a node has its kind and no type yet", e == &NEW0 && e->type == t && e->tag == NULL && e->next == NULL);
    CHECK("a node's position is the lexer's", e->pos == ST.l.pos && e->lineNumber == ST.l.lineNumber);
    REACH("post");
}
#endif
#else
#include "parse_native.h"
#endif
