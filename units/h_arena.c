/* Tiny_ArenaAlloc / Tiny_DestroyArena / Tiny_InitArena.
 * The page list is arbitrary behind its first page: REST stands for any number of further pages. */
#include "vc.h"
#if defined(DESTROY) && defined(TINY_VERIFY)
#define VC_LOOP_arena_destroy(node) arena_cut(&(node))
static void arena_cut(void *node);
#endif
#include "util.c"
#include "arena.c"

static Tiny_Arena AR;
static Tiny_ArenaPage *REST, *H;
static size_t HUSED, HCAP;
static char *HDATA;
static int ALLOCS, FREES_;
static size_t ALLOC_SIZE;
static void *FRESH;
static char *BLK; /* a block handed out earlier from the first page, arbitrary */
static size_t BLKLEN;
static void *host(void *p, size_t n, void *u) {
    if (n == 0) { FREES_++; free(p); return NULL; }
    CHECK("a page is never moved", p == NULL);
    CHECK("the arena passes its own userdata", u == (void *)&AR);
    ALLOCS++;
    ALLOC_SIZE = n;
    FRESH = malloc(n);
    return FRESH;
}

#ifndef DESTROY
static bool well_formed(const Tiny_ArenaPage *p) { return p->used <= p->cap && p->data == (char *)p + sizeof(Tiny_ArenaPage); }
static bool page_kept(void) { return !H || (H->cap == HCAP && H->data == (void *)HDATA); }
/* every page that was in the list still is, and at most the fresh one joined, exactly once */
static bool list_ok(Tiny_Arena *a) {
    if (ALLOCS == 0) return a->head == H && H && H->next == REST;
    Tiny_ArenaPage *f = FRESH;
    if (!H) return a->head == f && f->next == NULL;
    return (a->head == f && f->next == H && H->next == REST) || (a->head == H && H->next == f && f->next == REST);
}
static bool in_page(Tiny_ArenaPage *p, const char *b, size_t n) {
    const char *d = p->data;
#ifdef VC_NATIVE
    return b >= d && b + n <= d + p->used;
#else
    return __CPROVER_same_object(b, d) && __CPROVER_POINTER_OFFSET(b) >= __CPROVER_POINTER_OFFSET(d) &&
           __CPROVER_POINTER_OFFSET(b) + n <= __CPROVER_POINTER_OFFSET(d) + p->used;
#endif
}
static bool placed(void *rv, size_t n) { return ALLOCS ? in_page(FRESH, rv, n) && rv != NULL : H && in_page(H, rv, n); }
static bool new_space(void *rv, size_t n) {
    if (ALLOCS) return true;
    return H->used >= HUSED && in_page(H, rv, n) && (char *)rv >= HDATA + HUSED;
}
static bool blk_ok(void *rv, size_t n) { return !H || !BLK || (in_page(H, BLK, BLKLEN) && (ALLOCS || (char *)rv >= BLK + BLKLEN || (char *)rv + n <= BLK)); }
static bool backed(void) { return !ALLOCS || ((Tiny_ArenaPage *)FRESH)->cap + sizeof(Tiny_ArenaPage) <= ALLOC_SIZE; }

#define CONTRACT_Tiny_ArenaAlloc                                                                                                     \
    REQUIRES(align == 1 || align == 2 || align == 4 || align == 8 || align == 16)                                                   \
    ASSIGNS(a->head; a->head != NULL : a->head->used, a->head->next; ALLOCS, ALLOC_SIZE, FRESH)                                      \
    ENSURES("the block is aligned", ((uintptr_t)RV & (align - 1)) == 0)                                                              \
    ENSURES("the block lies in the used part of one page", placed(RV, size))                                                        \
    ENSURES("the block starts beyond everything handed out before", new_space(RV, size))                                            \
    ENSURES("no earlier block overlaps it or is given up", blk_ok(RV, size))                                                         \
    ENSURES("a page is as large as what was asked of the host", backed())                                                            \
    ENSURES("pages stay well formed", a->head && well_formed(a->head) && (!H || well_formed(H)) && (!ALLOCS || well_formed(FRESH)))  \
    ENSURES("existing pages keep size and place", page_kept())                                                                       \
    ENSURES("at most one page is requested", ALLOCS <= 1 && FREES_ == 0)                                                             \
    ENSURES("the list keeps every page and gains only the new one", list_ok(a))
VC_DECLARE(void *, Tiny_ArenaAlloc, (Tiny_Arena *a, size_t size, size_t align))

void harness(void) {
    Tiny_Context c;
    c.alloc = host;
    c.userdata = &AR;
    Tiny_InitArena(&AR, c);
    CHECK("a new arena is empty and keeps its context", AR.head == NULL && AR.ctx.alloc == host && AR.ctx.userdata == &AR);
    Tiny_Arena *a = &AR;
    ALLOCS = FREES_ = 0;
    if (in_bool()) {
        size_t cap = (size_t)in_range(0, 70000);
        H = malloc(sizeof(Tiny_ArenaPage) + cap);
        REST = in_bool() ? malloc(sizeof(Tiny_ArenaPage)) : NULL;
        H->data = HDATA = (char *)H + sizeof(Tiny_ArenaPage);
        H->cap = HCAP = cap;
        H->used = HUSED = (size_t)in_range(0, 70000);
        ASSUME(HUSED <= HCAP);
        H->next = REST;
        AR.head = H;
        size_t off = (size_t)in_range(0, 70000);
        BLKLEN = (size_t)in_range(1, 70000);
        BLK = NULL;
        if (off + BLKLEN <= HUSED) BLK = HDATA + off;
    }
    size_t size = (size_t)in_range(1, 1 << 20), align = (size_t)1 << in_range(0, 4);
    REACH("pre");
    void *r = VC_ENFORCE(void *, Tiny_ArenaAlloc, Tiny_ArenaAlloc(a, size, align));
    REACH("post");
#ifdef VC_NATIVE
    memset(r, 0xa5, size);
#endif
}
#else
/* destroying: the loop is cut at an arbitrary page (without the loop hook: lists of up to 3 pages) */
static int VISITS;
static Tiny_ArenaPage *CUR, *NXT;
#ifdef TINY_VERIFY
static void arena_cut(void *np) {
    Tiny_ArenaPage **node = np;
    if (VISITS++ == 0) {
        CHECK("destruction starts at the first page, nothing freed yet", *node == AR.head && FREES_ == 0);
        /* havoc: any number of pages done, node is any page still allocated */
        FREES_ = (int)spec_range(0, 1000000);
        CUR = malloc(sizeof(Tiny_ArenaPage) + 16);
        NXT = spec_bool() ? malloc(sizeof(Tiny_ArenaPage) + 16) : NULL;
        CUR->next = NXT;
        *node = CUR;
        BLKLEN = FREES_;
    } else {
        CHECK("one page is freed per round", FREES_ == (int)BLKLEN + 1);
        CHECK("the next round is about the next page", *node == NXT);
        ASSUME(false);
    }
}
#endif
void harness(void) {
    Tiny_Context c;
    c.alloc = host;
    c.userdata = &AR;
    Tiny_InitArena(&AR, c);
    int n = (int)in_range(0, 3);
    Tiny_ArenaPage *p = NULL;
    for (int i = 0; i < 3; i++)
        if (i < n) {
            Tiny_ArenaPage *q = malloc(sizeof(Tiny_ArenaPage) + 16);
            q->next = p;
            p = q;
        }
    AR.head = p;
    Tiny_DestroyArena(&AR);
    if (VISITS == 0) CHECK("every page is freed exactly once", FREES_ == n);
    else CHECK("the last page is freed last, exactly once", VISITS == 1 && NXT == NULL && FREES_ == (int)BLKLEN + 1);
    REACH("post");
}
#endif
