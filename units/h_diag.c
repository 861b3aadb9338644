/* Tiny_FormatErrorV (util.c) and its callers: the fixed-size message buffer.  snprintf / vsnprintf enter through what ISO
 * C says about them: they write at most n bytes at p, the last of them NUL (nothing if n is 0), and return how long the
 * text is, which may be longer than n. */
#include "vc.h"
#ifdef VC_NATIVE
#undef HOOKED
#endif
#include <stdint.h>
#if HOOKED
static void lines_cut(const char **src, size_t *used, int *line);
static void chars_cut(const char **src, size_t *used);
#define VC_LOOP_format_lines(src, used, line) lines_cut(&(src), &(used), &(line))
#define VC_LOOP_format_chars(src, used) chars_cut(&(src), &(used))
#endif
#include "all_flat.h"

#ifdef FORMAT
static char *BUF, *SRC;
static size_t SIZE, LEN, NUL_AT;   /* SIZE of the buffer, LEN of the text so far (also what did not fit) */
static bool TERMINATED, MSG;
static int CUT, CUT2, POS, WRITES, ERRLINE, L0;
static bool SHOWN;
static size_t AT, SLEN;
static char MESSAGE[] = "msg", FILE_[] = "file";
#ifndef VC_NATIVE
static int wrote(char *p, size_t n) {
    CHECK("a write stays inside the buffer", n == 0 || (LEN < SIZE && n <= SIZE - LEN));
    CHECK("text is appended behind the text before it", n == 0 || p == BUF + LEN);
    CHECK("text is only dropped when the buffer is full", n > 0 || LEN >= SIZE);
    int r = (int)spec_range(0, 1 << 20);
    WRITES++;
    if (n > 0) { TERMINATED = true; NUL_AT = LEN + ((size_t)r < n - 1 ? (size_t)r : n - 1); }
    LEN += (size_t)r;
    return r;
}
int snprintf_spec(char *p, size_t n, const char *fmt, ...) { return wrote(p, n); }
int vsnprintf_spec(char *p, size_t n, const char *fmt, __builtin_va_list ap) {
    CHECK("the message is part of the text", fmt == MESSAGE && !MSG);
    MSG = true;
    return wrote(p, n);
}
int Line_spec(const char *src, Tiny_TokenPos pos) {
    CHECK("the error's line is that of its position", src == SRC && pos == POS);
    return ERRLINE = (int)spec_range(1, 1 << 20);
}
#if HOOKED
static void lines_cut(const char **src, size_t *used, int *line) {
    if (CUT++ == 0) {
        CHECK("the lines are those of the source", *src == SRC && *line == 1);
        AT = (size_t)in_range(0, 1 << 20);
        ASSUME(AT < SLEN);
        *src = SRC + AT;
        *line = L0 = (int)in_range(1, 1 << 20);
        SHOWN = L0 - ERRLINE <= 3 && ERRLINE - L0 <= 3;
        WRITES = 0;
        ASSUME(SRC[AT] != 0);
        LEN = *used = (size_t)in_range(1, (int64_t)1 << 40); /* whatever was written before */
        
    } else {
        CHECK("the source is read up to its end", *src >= SRC + AT + 1 && *src <= SRC + SLEN);
        CHECK("the text is as long as what was appended", *used == LEN && LEN >= 1);
        CHECK("the text is terminated", TERMINATED);
        CHECK("only the lines around the error are shown", (WRITES > 0) == SHOWN || CUT2);
        CHECK("a line is shown to its end", !SHOWN || *src == SRC + SLEN || (*src)[-1] == '\n' || **src == 0);
        CHECK("lines are counted", *line == L0 + (SHOWN || (*src)[-1] == '\n'));
        REACH("loop");
        ASSUME(false);
    }
}
static void chars_cut(const char **src, size_t *used) {
    if (CUT2++ == 0) {
        CHECK("the text is as long as what was appended", *used == LEN && *src == SRC + AT);
        CHECK("only the lines around the error are shown", SHOWN);
        WRITES = 0;
        size_t to = (size_t)in_range(0, 1 << 20);
        ASSUME(to >= AT && to < SLEN);
        *src = SRC + to;
        AT = to;
        char c = (char)in_u64();
        ASSUME(c != 0 && c != '\n');
        SRC[to] = c;
        LEN = *used = (size_t)in_range(1, (int64_t)1 << 40);
    } else {
        CHECK("the text is as long as what was appended", *used == LEN && *src == SRC + AT + 1);
        CHECK("every character of the line is shown once", WRITES == 1);
        REACH("loop2");
        ASSUME(false);
    }
}
#endif
#endif
static void call(const char *s, ...) {
    va_list ap;
    va_start(ap, s);
    Tiny_FormatErrorV(BUF, SIZE, FILE_, SRC, POS, s, ap);
    va_end(ap);
}
void harness(void) {
#if HOOKED
    SIZE = (size_t)in_range(1, 1 << 20);
    SLEN = (size_t)in_range(0, 1 << 20);
    POS = (int)in_range(0, 1 << 20);
    bool src = in_bool();
    BUF = malloc(SIZE);
    SRC = src ? malloc(SLEN + 1) : NULL;
    if (src) SRC[SLEN] = 0;
#else
    static char text[9];
    static const char pick[] = {'\n', 'a', 'b'};
    SIZE = (size_t)in_range(1, 64);
    int n = (int)in_range(0, SMALL);
    for (int i = 0; i < n; i++) text[i] = pick[in_range(0, 2)];
    POS = (int)in_range(0, n);
    bool src = in_bool();
    BUF = malloc(SIZE);
    SRC = src ? text : NULL;
#ifdef VC_NATIVE
    memset(BUF, 'x', SIZE);
#endif
#endif
    REACH("pre");
    call(MESSAGE);
#ifdef VC_NATIVE
    CHECK("the text is terminated", memchr(BUF, 0, SIZE) != NULL);
    CHECK("the message is part of the text", strlen(BUF) + 1 >= SIZE || strstr(BUF, MESSAGE));
    /* the whole text, as documented: the lines around the error, then the message */
    char want[400] = "\n";
    size_t w = 1;
    if (src) {
        int line = 1, cur = 1;
        for (int i = 0; i < POS; i++) line += text[i] == '\n';
        for (const char *s = text; *s; cur++) {
            bool show = abs(cur - line) <= 3;
            if (show) w += sprintf(want + w, cur == line ? "%d ->\t" : "%d\t", cur);
            for (; *s && *s != '\n'; s++) if (show) want[w++] = *s;
            if (*s) { s++; if (show) want[w++] = '\n'; }
        }
        w += sprintf(want + w, "\nERROR file(%d): msg\n", line);
    } else w += sprintf(want + w, "ERROR: msg\n");
    want[w] = 0;
    CHECK("the text is the lines around the error and the message, cut to the buffer", !strncmp(BUF, want, SIZE - 1) && strlen(BUF) == (w < SIZE ? w : SIZE - 1));
#else
    CHECK("the text is terminated", TERMINATED && NUL_AT < SIZE);
    CHECK("the message is part of the text", MSG);
#endif
    REACH("post");
}
#endif

#ifdef REPORT /* who reports: into the state's buffer, with its size, and control goes to the compilation that failed */
static Tiny_State ST;
static Tiny_Lexer LX;
static Tiny_Expr E;
static char MESSAGE[] = "msg", SRC[] = "src", FILE_[] = "file", SRC2[] = "src2", FILE2[] = "file2";
static int CALLS, NEST;
static const char *WSRC, *WFILE;
static int WPOS;
void Format_spec(char *buf, size_t n, const char *fileName, const char *src, Tiny_TokenPos pos, const char *s, __builtin_va_list ap) {
    CHECK("the message goes into the result of the compilation", buf == ST.compileErrorResult.error.msg);
    CHECK("the buffer's size is given", n == sizeof(ST.compileErrorResult.error.msg));
    CHECK("the message, file and position are those of the error", s == MESSAGE && src == WSRC && fileName == WFILE && pos == WPOS);
    CALLS++;
}
void longjmp_spec(jmp_buf b, int v) {
    CHECK("the message is formatted once", CALLS == 1);
    CHECK("the result is an error", ST.compileErrorResult.type == TINY_COMPILE_ERROR);
    CHECK("control goes to the innermost compilation", b == ST.compileErrorJmpBufs[NEST - 1] && v == 1);
    REACH("jump");
    ASSUME(false);
}
void harness(void) {
    HAVOC(ST);
    HAVOC(LX);
    HAVOC(E);
    NEST = (int)in_range(1, TINY_MAX_NESTED_COMPILE_CALLS);
    ST.compileCallNestCount = NEST;
    ST.l.src = SRC; ST.l.fileName = FILE_; ST.l.pos = (int)in_range(0, 1 << 30);
    LX.src = SRC2; LX.fileName = FILE2; LX.pos = (int)in_range(0, 1 << 30);
    E.pos = (int)in_range(0, 1 << 30);
    int k = (int)in_range(0, 2);
    WSRC = k == 1 ? SRC2 : SRC;
    WFILE = k == 1 ? FILE2 : FILE_;
    WPOS = k == 0 ? ST.l.pos : k == 1 ? LX.pos : E.pos;
    REACH("pre");
    if (k == 0) ReportErrorSL(&ST, MESSAGE);
    else if (k == 1) ReportErrorL(&ST, &LX, MESSAGE);
    else ReportErrorE(&ST, &E, MESSAGE);
    CHECK("an error does not return", false);
}
#endif
