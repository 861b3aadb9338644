/* the library's own sources, as they are */
#include "util.c"
#include "arena.c"
#include "lexer.c"
#include "pos.c"
#include "tiny.c"
