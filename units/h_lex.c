/* The lexer (lexer.c).  One token is read from an arbitrary place P of a text of any length; END is the place of the
 * terminating NUL.  Between tokens the lexer holds one character already read: last == text[P-1] (or the initial space,
 * or 0 at the end).  Each construct is one case; loops are cut at an arbitrary iteration.
 * Select with -DPUNCT, SPACE, COMMENT, IDENT, NUMBER, CHARLIT, STRING.  Without loop cuts, and natively: whole small texts
 * against a lexer written here from the grammar (TEXT). */
#include "vc.h"
#ifdef VC_NATIVE
#undef HOOKED
#define HOOKED 0
#endif
#ifndef HOOKED
#define HOOKED 0
#endif
#if defined(TINY_VERIFY) && HOOKED
#define VC_LOOP_lex_space(l) space_cut()
#define VC_LOOP_lex_comment(l) comment_cut()
#define VC_LOOP_lex_ident(l) ident_cut()
#define VC_LOOP_lex_number(l, f, h) number_cut(&(f), &(h))
#define VC_LOOP_lex_string(l) string_cut()
#include <stdbool.h>
static void space_cut(void), comment_cut(void), ident_cut(void), number_cut(bool *, bool *), string_cut(void);
#endif
#include "util.c"
#include "lexer.c"

static const struct { char s[4]; int tok; } OPS[] = { /* longest first */
    {"...", TINY_TOK_ELLIPSIS}, {"&&", TINY_TOK_LOG_AND}, {"||", TINY_TOK_LOG_OR}, {":=", TINY_TOK_DECLARE}, {"::", TINY_TOK_DECLARECONST},
    {"+=", TINY_TOK_PLUSEQUAL}, {"-=", TINY_TOK_MINUSEQUAL}, {"*=", TINY_TOK_STAREQUAL}, {"/=", TINY_TOK_SLASHEQUAL}, {"%=", TINY_TOK_PERCENTEQUAL},
    {"|=", TINY_TOK_OREQUAL}, {"&=", TINY_TOK_ANDEQUAL}, {"==", TINY_TOK_EQUALS}, {"!=", TINY_TOK_NOTEQUALS}, {"<=", TINY_TOK_LTE}, {">=", TINY_TOK_GTE},
    {"->", TINY_TOK_ARROW}, {"<<", TINY_TOK_SHIFT_LEFT}, {">>", TINY_TOK_SHIFT_RIGHT},
    {"(", TINY_TOK_OPENPAREN}, {")", TINY_TOK_CLOSEPAREN}, {"{", TINY_TOK_OPENCURLY}, {"}", TINY_TOK_CLOSECURLY}, {"[", TINY_TOK_OPENSQUARE}, {"]", TINY_TOK_CLOSESQUARE},
    {"+", TINY_TOK_PLUS}, {"-", TINY_TOK_MINUS}, {"*", TINY_TOK_STAR}, {"/", TINY_TOK_SLASH}, {"%", TINY_TOK_PERCENT}, {">", TINY_TOK_GT}, {"<", TINY_TOK_LT},
    {"=", TINY_TOK_EQUAL}, {"!", TINY_TOK_BANG}, {"&", TINY_TOK_AND}, {"|", TINY_TOK_OR}, {",", TINY_TOK_COMMA}, {";", TINY_TOK_SEMI}, {":", TINY_TOK_COLON},
    {".", TINY_TOK_DOT}, {"?", TINY_TOK_QUESTION}};
#define NOPS ((int)(sizeof OPS / sizeof *OPS))
static const struct { const char *s; int tok; int val; } KWS[] = {
    {"null", TINY_TOK_NULL}, {"true", TINY_TOK_BOOL, 1}, {"false", TINY_TOK_BOOL, 0}, {"if", TINY_TOK_IF}, {"func", TINY_TOK_FUNC}, {"foreign", TINY_TOK_FOREIGN},
    {"return", TINY_TOK_RETURN}, {"while", TINY_TOK_WHILE}, {"for", TINY_TOK_FOR}, {"else", TINY_TOK_ELSE}, {"struct", TINY_TOK_STRUCT}, {"new", TINY_TOK_NEW},
    {"cast", TINY_TOK_CAST}, {"break", TINY_TOK_BREAK}, {"continue", TINY_TOK_CONTINUE}, {"use", TINY_TOK_USE}, {"foreach", TINY_TOK_FOREACH}};
#define NKWS ((int)(sizeof KWS / sizeof *KWS))
static bool sp(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool dig(int c) { return c >= '0' && c <= '9'; }
static bool alp(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool xdig(int c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool word(int c) { return dig(c) || alp(c) || c == '_'; }
static int escaped(int c) { return c == 't' ? '\t' : c == 'n' ? '\n' : c == 'r' ? '\r' : c == 'b' ? '\b' : c; }
int isspace_spec(int c) { return sp(c); }
int isdigit_spec(int c) { return dig(c); }
int isalpha_spec(int c) { return alp(c); }
int isalnum_spec(int c) { return alp(c) || dig(c); }
int isxdigit_spec(int c) { return xdig(c); }

static Tiny_Lexer L;
static char *SRC;
#define LEN(a) ((a) ? ((int *)(a))[-1] : 0)

#if HOOKED /* ------------------------------------------------------------------------------------------------------- */
static int P, END, LINE, CUT, K, G, ROOM;
static int C0, NEXT, BEFORE;
static char *LEX, VG;
static bool ATG;
static int at(int i) { return P + i <= END ? (int)SRC[P + i] : 0; }
/* an arbitrary place in an arbitrary text */
static void place(int last) {
    P = (int)in_range(1, 1 << 20);
    ASSUME(P <= END && SRC[P - 1] == (char)last);
    for (int i = 0; i < 5; i++) if (P + i < END) ASSUME(SRC[P + i] != 0);
    LINE = (int)in_range(1, 1 << 20);
    L.src = SRC;
    L.pos = P;
    L.last = last;
    L.lineNumber = LINE;
}
static struct { int m, n; char c[16]; } ROOMY;
static char *buffer(int n, int cap) {
    char *b = malloc(8 + (size_t)cap);
    ((int *)b)[0] = cap;
    ((int *)b)[1] = n;
    return b + 8;
}
/* growing the lexeme keeps its bytes (unit sb_grow): the ones looked at here are the first two, the last three and one more */
void *Grow_spec(Tiny_Context *ctx, void *arr, int inc, int itemsize) {
    CHECK("the lexeme grows in bytes", inc >= 1 && itemsize == 1);
    char *a = arr;
    if (!a) { ROOMY.m = 16; ROOMY.n = 0; return ROOMY.c; }
    int n = LEN(a);
    char *b = buffer(n, n + inc + 2);
    if (n > 0) b[0] = a[0];
    if (n > 1) b[1] = a[1];
    if (n > 2) b[2] = a[2];
    if (n > 3) b[n - 1] = a[n - 1];
    if (n > 3) b[n - 2] = a[n - 2];
    if (n > 3) b[n - 3] = a[n - 3];
    if (G < n) b[G] = a[G];
    return b;
}
/* the place after one character was consumed */
static bool moved(int by) { return L.pos == (P + by <= END ? P + by : END) && L.last == at(by - 1) && L.src == SRC; }
static int KW, COMPARED;
int strcmp_spec(const char *a, const char *b) {
    CHECK("the word is compared with keywords", a == L.lexeme);
    if (COMPARED++ == 0) CHECK("the whole word is compared with keywords", LEN(a) >= 2 && a[LEN(a) - 1] == 0);
    for (int k = 0; k < NKWS; k++) {
        int i = 0;
        while (i < 9 && KWS[k].s[i] && KWS[k].s[i] == b[i]) i++;
        if (KWS[k].s[i] == b[i]) return k == KW ? 0 : in_bool() ? 1 : -1;
    }
    CHECK("only keywords are special", false);
    return 1;
}
static int CONV;
static uint64_t CONV_VAL;
static void number_text(const char *s) { CHECK("the whole literal is converted", s == L.lexeme && LEN(s) >= 2 && s[LEN(s) - 1] == 0); }
double strtod_spec(const char *s, char **e) { number_text(s); CHECK("nothing else is asked for", !e); CONV = 1; union { uint64_t u; double d; } c; c.u = CONV_VAL; return c.d; }
unsigned long long strtoull_spec(const char *s, char **e, int base) { number_text(s); CHECK("hex digits are base 16", base == 16 && !e); CONV = 2; return CONV_VAL; }
long long strtoll_spec(const char *s, char **e, int base) { number_text(s); CHECK("digits are base 10", base == 10 && !e); CONV = 3; return (long long)CONV_VAL; }
static int AGAIN;
Tiny_TokenKind GetToken_spec(Tiny_Lexer *l) {
    AGAIN++;
#ifdef COMMENT
    CHECK("the comment extends to the end of its line", CUT ? (BEFORE == '\n' || BEFORE == 0) : true);
    if (BEFORE == '\n') CHECK("the next token is read from the next line", moved(2) && L.lineNumber == LINE + 1);
    else CHECK("a comment at the end of the text ends it", L.last == 0 && L.pos == END && L.lineNumber == LINE);
    REACH("next");
#else
    CHECK("only a comment is skipped", false);
    ASSUME(false);
#endif
    return l->lastTok = TINY_TOK_SEMI;
}

static void space_cut(void) {
#ifndef SPACE
    CHECK("the first character decides the kind of token", false);
    ASSUME(false);
#endif
    if (CUT++ == 0) {
        CHECK("all white space is skipped", L.pos == P && L.last == C0 && L.lineNumber == LINE);
        static const char ws[] = " \t\n\v\f\r";
        C0 = ws[in_range(0, 5)];
        place(C0);
        ASSUME(sp(at(0)) || at(0) == ')' || at(0) == 0);
    } else {
        CHECK("one character is skipped", moved(1) && sp(L.last) && L.lineNumber == LINE + (C0 == '\n'));
        #ifdef SPACE
        REACH("loop");
#endif
        ASSUME(false);
    }
}
static void comment_cut(void) {
#ifndef COMMENT
    CHECK("the first character decides the kind of token", false);
    ASSUME(false);
#endif
    if (CUT++ == 0) {
        CHECK("a comment begins with its slashes", L.pos == P && L.last == C0 && L.lineNumber == LINE);
        int c = (int)in_range(-128, 127);
        ASSUME(c != 0 && c != '\n');
        place(c);
        BEFORE = at(0);
    } else {
        CHECK("one character is skipped", moved(1) && L.lineNumber == LINE && BEFORE != 0 && BEFORE != '\n');
        #ifdef COMMENT
        REACH("loop");
#endif
        ASSUME(false);
    }
}
/* the lexeme so far has K characters, one of which, at G, is looked at again in the end */
static void lexeme(int least) {
    K = (int)in_range(least, 1 << 20);
    int cap = K + (int)in_range(0, 4);
    L.lexeme = LEX = buffer(K, cap);
    ATG = G < K;
    if (ATG) VG = LEX[G];
}
static bool kept(void) { return !ATG || L.lexeme[G] == VG; }
static void ident_cut(void) {
#ifndef IDENT
    CHECK("the first character decides the kind of token", false);
    ASSUME(false);
#endif
    if (CUT++ == 0) {
        CHECK("a word begins with its first letter", L.pos == P && L.last == C0 && LEN(L.lexeme) == 0 && L.lineNumber == LINE);
        lexeme(0);
        C0 = (int)in_range('0', 'z');
        ASSUME(word(C0) && (K > 0 || alp(C0)));
        place(C0);
        NEXT = at(0);
    } else {
        CHECK("a character of the word is taken", word(NEXT) && moved(1) && L.lineNumber == LINE);
        CHECK("it is appended to the lexeme", LEN(L.lexeme) == K + 1 && L.lexeme[K] == C0 && kept());
        #ifdef IDENT
        REACH("loop");
#endif
        ASSUME(false);
    }
}
static bool F, H;
static bool goes_on(int c, int k, char first, bool f, bool h) { return dig(c) || (c == 'x' && k == 1 && first == '0') || (h && xdig(c)) || (c == '.' && !f && !h); }
static void number_cut(bool *f, bool *h) {
#ifndef NUMBER
    CHECK("the first character decides the kind of token", false);
    ASSUME(false);
#endif
    if (CUT++ == 0) {
        CHECK("a number begins with its first digit", L.pos == P && L.last == C0 && LEN(L.lexeme) == 0 && !*f && !*h);
        lexeme(0);
        F = in_bool(); H = in_bool();
        ASSUME(!(F && H));
        char first = '0';
        if (K > 0) { first = LEX[0]; ASSUME(dig(first)); }
        if (K <= 1) ASSUME(!F && !H);
        if (H) ASSUME(first == '0' && LEX[1] == 'x');
        C0 = (int)in_range('.', 'x');
        ASSUME(K == 0 ? dig(C0) : goes_on(C0, K, first, F, H));
        place(C0);
        NEXT = at(0);
        *f = F; *h = H;
        BEFORE = C0;
        if (K == 0) first = (char)C0;
        if (C0 == '.') F = true; else if (C0 == 'x') H = true;
        C0 = first;
    } else {
        CHECK("the literal goes on only with a character that belongs to it", goes_on(NEXT, K + 1, (char)C0, F, H) && moved(1) && L.lineNumber == LINE);
        CHECK("what has been read decides the kind of number", *f == F && *h == H);
        CHECK("it is appended to the lexeme", LEN(L.lexeme) == K + 1 && L.lexeme[K] == BEFORE && kept());
        #ifdef NUMBER
        REACH("loop");
#endif
        ASSUME(false);
    }
}
static int WANT_C, WANT_BY, WANT_LINES;
static void string_cut(void) {
#ifndef STRING
    CHECK("the first character decides the kind of token", false);
    ASSUME(false);
#endif
    if (CUT++ == 0) {
        CHECK("a string begins after its quote", moved(1) && LEN(L.lexeme) == 0 && L.lineNumber == LINE && L.last != '"');
        lexeme(0);
        C0 = (int)in_range(-128, 127);
        ASSUME(C0 != '"');
        if (C0 == 0) { place('a'); L.pos = P = END; L.last = 0; }
        else place(C0);
        WANT_C = C0 == '\\' ? escaped(at(0)) : C0;
        WANT_BY = C0 == '\\' ? 2 : 1;
        WANT_LINES = C0 == '\n' || (C0 == '\\' && at(0) == '\n');
        NEXT = at(WANT_BY - 1);
    } else {
        CHECK("a character of the string is taken", C0 != 0 && NEXT != '"' && moved(WANT_BY) && L.lineNumber == LINE + WANT_LINES);
        CHECK("it is appended to the lexeme, escapes replaced", LEN(L.lexeme) == K + 1 && L.lexeme[K] == (char)WANT_C && kept());
        #ifdef STRING
        REACH("loop");
#endif
        ASSUME(false);
    }
}
void harness(void) {
    HAVOC(L);
    G = (int)in_range(0, 1 << 20);
    VC_BULK(CONV_VAL);
    KW = (int)in_range(-1, NKWS - 1);
#ifdef FRESH
    L.lexeme = NULL;
#else
    ROOMY.m = 16;
    ROOMY.n = (int)in_range(0, 15);
    L.lexeme = ROOMY.c; /* the rest of an earlier token */
#endif
    END = (int)in_range(0, 1 << 20);
    SRC = malloc((size_t)END + 1);
    ASSUME(SRC[END] == 0);
    int c = (int)in_range(-128, 127);
#if defined(PUNCT)
    ASSUME(c != 0 && !sp(c) && !alp(c) && !dig(c) && c != '"' && c != '\'');
    place(c);
    ASSUME(!(c == '/' && at(0) == '/'));
#elif defined(SPACE)
    ASSUME(sp(c));
    place(c);
    if (in_bool()) { /* the very beginning */
        C0 = c = ' ';
        P = 0; L.pos = 0; L.last = ' ';
    }
#elif defined(COMMENT)
    ASSUME(c == '/');
    place(c);
    ASSUME(at(0) == '/');
#elif defined(IDENT)
    ASSUME(alp(c));
    place(c);
#elif defined(NUMBER)
    ASSUME(dig(c));
    place(c);
#elif defined(CHARLIT)
    ASSUME(c == '\'');
    place(c);
#else
    ASSUME(c == '"');
    place(c);
#endif
    C0 = c;
    REACH("pre");
    int tok = GetToken(&L);
#if defined(PUNCT)
    int k = 0, n = 0;
    for (; k < NOPS; k++) {
        n = OPS[k].s[1] == 0 ? 1 : OPS[k].s[2] == 0 ? 2 : 3;
        if (OPS[k].s[0] == c && (n < 2 || OPS[k].s[1] == at(0)) && (n < 3 || (at(0) != 0 && OPS[k].s[2] == at(1)))) break;
    }
    if (k == NOPS) {
        CHECK("text that is no token is an error", tok == TINY_TOK_LEXER_ERROR && L.errorMsg != NULL);
        REACH("bad");
    } else {
        CHECK("the longest operator is taken", tok == OPS[k].tok);
        CHECK("the lexer stands behind it", moved(n) && L.lineNumber == LINE);
        CHECK("the lexeme is the operator", LEN(L.lexeme) == n + 1 && L.lexeme[0] == OPS[k].s[0] && L.lexeme[n] == 0 && (n < 2 || L.lexeme[1] == OPS[k].s[1]) && (n < 3 || L.lexeme[2] == OPS[k].s[2]));
    }
#elif defined(SPACE)
    if (L.lexeme && tok != TINY_TOK_EOF) { /* ')' */
        CHECK("white space is skipped and the next token read", tok == TINY_TOK_CLOSEPAREN && CUT == 1 && L.pos == (P + 2 <= END ? P + 2 : END) && at(0) == ')');
        REACH("token");
    } else CHECK("the text ends behind white space", tok == TINY_TOK_EOF && at(0) == 0 && L.last == 0 && L.pos == END);
    CHECK("lines are counted", L.lineNumber == LINE + (C0 == '\n'));
#elif defined(COMMENT)
    CHECK("a comment is followed by the next token", AGAIN == 1 && tok == TINY_TOK_SEMI);
#elif defined(IDENT)
    CHECK("a word ends before the first character that does not belong to it", moved(1) && !word(NEXT) && L.lineNumber == LINE);
    CHECK("the lexeme is the word", LEN(L.lexeme) == K + 2 && L.lexeme[K] == C0 && L.lexeme[K + 1] == 0 && kept());
    CHECK("a keyword is its own token, any other word an identifier", tok == (KW < 0 ? TINY_TOK_IDENT : KWS[KW].tok));
    if (KW == 1 || KW == 2) CHECK("true and false have their value", L.bValue == (KW == 1));
#elif defined(NUMBER)
    CHECK("a number ends before the first character that does not belong to it", moved(1) && !goes_on(NEXT, K + 1, (char)C0, F, H) && L.lineNumber == LINE);
    CHECK("the lexeme is the literal", LEN(L.lexeme) == K + 2 && L.lexeme[K] == BEFORE && L.lexeme[K + 1] == 0 && kept());
    CHECK("the kind of number follows from the literal", tok == (F ? TINY_TOK_FLOAT : TINY_TOK_INT) && CONV == (F ? 1 : H ? 2 : 3));
    union { uint64_t u; double d; } v;
    v.u = CONV_VAL;
    CHECK("the value is the literal's", F ? L.fValue == v.d || v.d != v.d : (uint64_t)L.iValue == CONV_VAL);
#elif defined(CHARLIT)
    int e = at(0) == '\\' ? 1 : 0, v = e ? escaped(at(1)) : at(0);
    if (at(1 + e) == '\'' && at(0) && at(e)) {
        CHECK("a character literal has its character's value", tok == TINY_TOK_CHAR && L.iValue == v && moved(3 + e));
        CHECK("lines are counted", L.lineNumber == LINE + (at(e) == '\n'));
        REACH("char");
    } else CHECK("an unclosed character literal is an error", tok == TINY_TOK_LEXER_ERROR && L.errorMsg != NULL);
#else
    if (CUT == 0) {
        CHECK("the empty string", tok == TINY_TOK_STRING && at(0) == '"' && LEN(L.lexeme) == 1 && L.lexeme[0] == 0 && moved(2));
        REACH("empty");
    } else if (tok == TINY_TOK_STRING) {
        CHECK("a string ends at its quote", C0 != 0 && NEXT == '"' && moved(WANT_BY + 1) && L.lineNumber == LINE + WANT_LINES);
        CHECK("the lexeme is the string's text", LEN(L.lexeme) == K + 2 && L.lexeme[K] == (char)WANT_C && L.lexeme[K + 1] == 0 && kept());
    } else {
        CHECK("an unclosed string is an error", tok == TINY_TOK_LEXER_ERROR && C0 == 0 && L.errorMsg != NULL);
        REACH("unclosed");
    }
#endif
    REACH("post");
}
#else /* whole texts ------------------------------------------------------------------------------------------------- */
#ifdef VC_NATIVE
#define MAXLEN 24
#define TOKENS 30
#else
#define MAXLEN 2
#define TOKENS 1
#endif
static int X, XLINE, XEND; /* the next character, the line, and the end */
static char XLEX[MAXLEN + 2];
static int XN;
static uint64_t XI;
static bool XB, XERR;
static struct { char c[MAXLEN + 4]; } TXT;
static int ch(int i) { return i <= XEND ? (int)TXT.c[i] : 0; }
static int x_token(void) {
    XN = 0;
    for (int guard = 0; guard <= MAXLEN; guard++) {
        if (sp(ch(X))) { if (ch(X) == '\n') XLINE++; X++; continue; }
        if (ch(X) == '/' && ch(X + 1) == '/') {
            for (int g2 = 0; g2 <= MAXLEN && ch(X) && ch(X) != '\n'; g2++) X++;
            continue;
        }
        break;
    }
    int c = ch(X);
    if (!c) return TINY_TOK_EOF;
    for (int k = 0; k < NOPS; k++) {
        int n = 0;
        while (n < 3 && OPS[k].s[n] && OPS[k].s[n] == ch(X + n)) XLEX[n] = (char)ch(X + n), n++;
        if (!OPS[k].s[n]) { XN = n; X += n; return OPS[k].tok; }
    }
    if (alp(c)) {
        while (XN < MAXLEN && word(ch(X))) XLEX[XN++] = (char)ch(X++);
        XLEX[XN] = 0;
        for (int k = 0; k < NKWS; k++) { int i = 0; while (i < 9 && KWS[k].s[i] && KWS[k].s[i] == XLEX[i]) i++; if (KWS[k].s[i] == XLEX[i]) { XB = KWS[k].val; return KWS[k].tok; } }
        return TINY_TOK_IDENT;
    }
    if (dig(c)) {
        bool f = false, h = false;
        while (XN < MAXLEN && (dig(ch(X)) || (h && xdig(ch(X))) || (ch(X) == 'x' && XN == 1 && XLEX[0] == '0') || (ch(X) == '.' && !f && !h))) {
            if (ch(X) == 'x') h = true;
            if (ch(X) == '.') f = true;
            XLEX[XN++] = (char)ch(X++);
        }
        XI = 0;
        for (int i = h ? 2 : 0; i < XN && !f; i++) { int d = dig(XLEX[i]) ? XLEX[i] - '0' : (XLEX[i] | 32) - 'a' + 10; if (!h && XI > (INT64_MAX - d) / 10) { XI = INT64_MAX; break; } if (h && XI >> 60) { XI = UINT64_MAX; break; } XI = XI * (h ? 16 : 10) + (uint64_t)d; }
        return f ? TINY_TOK_FLOAT : TINY_TOK_INT;
    }
    if (c == '\'') {
        X++;
        int v = ch(X), e = v == '\\';
        if (e) v = escaped(ch(X + 1));
        if (!ch(X) || !ch(X + e) || ch(X + e + 1) != '\'') return TINY_TOK_LEXER_ERROR;
        if (ch(X + e) == '\n') XLINE++;
        X += e + 2;
        XI = (uint64_t)(int64_t)v;
        return TINY_TOK_CHAR;
    }
    if (c == '"') {
        X++;
        while (XN <= MAXLEN && ch(X) && ch(X) != '"') {
            int e = ch(X) == '\\';
            if (e && !ch(X + 1)) return TINY_TOK_LEXER_ERROR;
            if (ch(X + e) == '\n') XLINE++;
            XLEX[XN++] = (char)(e ? escaped(ch(X + 1)) : ch(X));
            X += 1 + e;
        }
        if (!ch(X)) return TINY_TOK_LEXER_ERROR;
        X++;
        return TINY_TOK_STRING;
    }
    return TINY_TOK_LEXER_ERROR;
}
#ifdef VC_NATIVE
static void *host(void *p, size_t n, void *u) { if (!n) { free(p); return NULL; } return realloc(p, n); }
#else
static char SPACE_[8 + 16];
void *Grow_spec(Tiny_Context *ctx, void *arr, int inc, int itemsize) { /* the first growth gives room for all */
    CHECK("the lexeme grows in bytes", !arr && itemsize == 1);
    ((int *)SPACE_)[0] = 16;
    ((int *)SPACE_)[1] = 0;
    return SPACE_ + 8;
}
static void *host(void *p, size_t n, void *u) { return NULL; }
double strtod_spec(const char *s, char **e) { return 0; }
#endif
void harness(void) {
    XEND = (int)in_range(0, MAXLEN);
#ifdef VC_NATIVE
    static const char *const bits[] = {"a", "0", "x", "1", ".", "\"", "\\", "'", "\n", " ", "/", "//", "=", ":", "&", "|", "-", ">", "<", "+", "_", "for", "foreach", "use", "new", "true", "null", "if", "n", "t", "\t", "#", "\xc3", "...", "f", "0x", "F", ";", "!", "else", "?", "while", "r", "b", "false", "@", ")", "%", "*", "9"};
    int style = (int)in_range(0, 2);
    for (int i = 0; i < XEND;) {
        if (style == 0) { TXT.c[i] = (char)in_range(1, 127); i++; continue; }
        const char *b = bits[in_range(0, (int)(sizeof bits / sizeof *bits) - 1)];
        while (*b && i < XEND) TXT.c[i++] = *b++;
    }
#else
    for (int i = 0; i < MAXLEN; i++) if (i < XEND) { TXT.c[i] = (char)in_range(-128, 127); ASSUME(TXT.c[i] != 0); }
#endif
    TXT.c[XEND] = 0;
    SRC = malloc((size_t)XEND + 1);
    for (int i = 0; i <= MAXLEN; i++) if (i <= XEND) SRC[i] = TXT.c[i];
    Tiny_InitLexer(&L, "f", SRC, (Tiny_Context){host, NULL});
    if (getenv("SHOW")) fprintf(stderr, "text <%s>\n", TXT.c);
    X = 0; XLINE = 1;
    REACH("pre");
    for (int i = 0; i < TOKENS; i++) {
        int tok = Tiny_GetToken(&L), want = x_token();
        CHECK("the token is the longest one at its position", tok == want && L.lastTok == want);
        if (tok == TINY_TOK_LEXER_ERROR || want == TINY_TOK_LEXER_ERROR) { CHECK("an error is explained", L.errorMsg != NULL); break; }
        CHECK("lines are counted", L.lineNumber == XLINE || (want == TINY_TOK_EOF && L.lineNumber == XLINE));
        if (want == TINY_TOK_EOF) break;
        CHECK("the lexer stands behind the token", L.pos == (X + 1 <= XEND ? X + 1 : XEND) && L.last == ch(X));
        if (want == TINY_TOK_CHAR) { CHECK("a character literal has its value", (uint64_t)L.iValue == XI); continue; }
        CHECK("the lexeme is the token's text", LEN(L.lexeme) == XN + 1 && L.lexeme[XN] == 0);
        for (int k = 0; k < MAXLEN; k++) if (k < XN) CHECK("the lexeme is the token's text", L.lexeme[k] == XLEX[k]);
        if (want == TINY_TOK_INT) CHECK("the value is the literal's", (uint64_t)L.iValue == XI);
        if (want == TINY_TOK_BOOL) CHECK("the value is the literal's", L.bValue == XB);
#ifdef VC_NATIVE
        if (want == TINY_TOK_FLOAT) { XLEX[XN] = 0; CHECK("the value is the literal's", L.fValue == strtod(XLEX, NULL)); }
#endif
    }
    Tiny_DestroyLexer(&L);
    REACH("post");
}
#endif
