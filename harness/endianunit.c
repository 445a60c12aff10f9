/* C25: the accessors of endian.h compiled as a user compiles them, in the
 * configuration under test: out of line, inside expressions with side effects,
 * and over objects of other types. */
#include <fingera_libc/endian.h>
#include <stdint.h>

#define RD(name, type) type eu_##name(const void *p) { return name(p); }
RD(read_little_32, uint32_t)
RD(read_little_64, uint64_t)
RD(read_big_32, uint32_t)
RD(read_big_64, uint64_t)
#define RO(name, type) type eu_##name(const void *p, size_t o) { return name(p, o); }
RO(le32, uint32_t)
RO(le64, uint64_t)
RO(be32, uint32_t)
RO(be64, uint64_t)
#define WR(name, type) void eu_##name(void *p, type v) { name(p, v); }
WR(write_little_32, uint32_t)
WR(write_big_32, uint32_t)
WR(write_big_64, uint64_t)

/* arguments with side effects: evaluated once */
#define STEP(name, type)                                            \
  type eu_step_##name(const uint8_t **p) { type v = name((*p)++); return v; }
STEP(read_little_32, uint32_t)
STEP(read_little_64, uint64_t)
STEP(read_big_32, uint32_t)
STEP(read_big_64, uint64_t)
#define STEPO(name, type)                                           \
  type eu_step_##name(const uint8_t **p, size_t *o) { type v = name((*p)++, (*o)++); return v; }
STEPO(le32, uint32_t)
STEPO(le64, uint64_t)
STEPO(be32, uint32_t)
STEPO(be64, uint64_t)
#define STEPW(name, type)                                           \
  void eu_step_##name(uint8_t **p, type *v) { name((*p)++, (*v)++); }
STEPW(write_little_32, uint32_t)
STEPW(write_big_32, uint32_t)
STEPW(write_big_64, uint64_t)

/* objects of other types written and read around the accessors: a compiler
 * that may assume types do not alias must still see the bytes */
uint64_t eu_alias_read(uint16_t *w, uint16_t a, uint16_t b, int which) {
  w[0] = w[1] = w[2] = w[3] = 0;
  w[1] = a;
  w[2] = b;
  uint64_t v;
  switch (which) {
    case 0: v = read_little_32(w + 1); break;
    case 1: v = read_big_32(w + 1); break;
    case 2: v = read_little_64(w); break;
    case 3: v = read_big_64(w); break;
    case 4: v = le32(w, 2); break;
    case 5: v = be32(w, 2); break;
    case 6: v = le64(w, 0); break;
    default: v = be64(w, 0); break;
  }
  w[1] = w[2] = 0x5a5a;
  return v;
}
uint64_t eu_alias_write(uint16_t *w, uint64_t value, int which) {
  w[0] = w[1] = w[2] = w[3] = 0x7171;
  switch (which) {
    case 0: write_little_32(w + 1, (uint32_t)value); break;
    case 1: write_big_32(w + 1, (uint32_t)value); break;
    default: write_big_64(w, value); break;
  }
  return (uint64_t)w[0] | (uint64_t)w[1] << 16 | (uint64_t)w[2] << 32 | (uint64_t)w[3] << 48;
}
