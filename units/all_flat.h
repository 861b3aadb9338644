/* the library's own sources, as they are; under the verifier the alternatives of the unions in expr.h (and, with
 * FLAT_VALUES, tiny.h) are laid side by side: reading another alternative than the one last written then gives an
 * arbitrary value instead of its bytes, and constant propagation sees through them.  Natively they are real unions. */
#ifndef VC_NATIVE
#ifdef FLAT_VALUES
#define union struct
#endif
#include "tiny.h"
#define union struct
#include "expr.h"
#undef union
#endif
#include "util.c"
#include "arena.c"
#include "lexer.c"
#include "pos.c"
#include "tiny.c"
