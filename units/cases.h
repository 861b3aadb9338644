/* runs case CASE at ALIGNS byte offsets */
#ifndef ALIGNS
#define ALIGNS 8
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define RUN CAT(c_, CASE)
void harness(void) {
    switch (in_range(0, ALIGNS - 1)) {
#if ALIGNS > 1
        case 1: RUN(1); break;
#endif
#if ALIGNS > 2
        case 2: RUN(2); break;
        case 3: RUN(3); break;
#endif
#if ALIGNS > 4
        case 4: RUN(4); break;
        case 5: RUN(5); break;
        case 6: RUN(6); break;
        case 7: RUN(7); break;
#endif
        default: RUN(0); break;
    }
}
