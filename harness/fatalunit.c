/* C26: the macro as a user writes it, in C */
#include <fingera_libc/error.h>
#include <stddef.h>
int fu_line;
const char *fu_func, *fu_file;
#define HERE (fu_line = __LINE__, fu_func = __func__, fu_file = __FILE__)
void fu_plain(void) { HERE; FINGERA_FATAL("nothing to add"); }
void fu_text(const char *s) { HERE; FINGERA_FATAL("%s", s); }
void fu_many(int a, const char *s, long long b, double c, size_t d, int e, const char *f, unsigned long g, int h) {
  HERE; FINGERA_FATAL("<%d|%s|%lld|%.3f|%zu|%x|%s|%lu|%c%%>", a, s, b, c, d, e, f, g, h);
}
void fu_branch(int bad) {
  HERE;
  fu_line += 3;
  if (bad) /* the macro is one statement */
    FINGERA_FATAL("bad %d", bad); else fu_line = -1;
}
