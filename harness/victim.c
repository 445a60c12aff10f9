/* C21: erasing an object that is never used again.  Compiled with the
 * optimiser (and LTO in one build), in several shapes an optimiser may see
 * through: the object is local, unescaped afterwards, and dead after the call. */
#include <fingera_libc/cleanse.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

uint32_t victim_local(const uint8_t *src, size_t n) {
  uint8_t copy[96];
  uint32_t sum = 0;
  if (n > sizeof(copy)) n = sizeof(copy);
  memcpy(copy, src, n);
  for (size_t i = 0; i < n; i++) sum = sum * 31 + copy[(i * 7) % n];
  fingera_cleanse(copy, n);
  return sum;
}

struct state { uint64_t w[12]; size_t used; };
uint32_t victim_struct(const uint8_t *src, size_t n) {
  struct state s;
  uint32_t sum = 1;
  if (n > sizeof(s.w)) n = sizeof(s.w);
  memcpy(s.w, src, n);
  s.used = n;
  for (size_t i = 0; i < s.used; i++) sum = sum * 33 ^ ((uint8_t *)s.w)[(i * 5) % s.used];
  fingera_cleanse(&s, sizeof(s));
  return sum;
}

uint32_t victim_heap(const uint8_t *src, size_t n) {
  uint8_t *copy = (uint8_t *)malloc(n);
  uint32_t sum = 7;
  if (!copy) return 0;
  memcpy(copy, src, n);
  for (size_t i = 0; i < n; i++) sum = sum * 37 + copy[(i * 3) % n];
  fingera_cleanse(copy, n);
  free(copy);
  return sum;
}

uint32_t victim_vla(const uint8_t *src, size_t n) {
  uint8_t copy[n];
  uint32_t sum = 3;
  memcpy(copy, src, n);
  for (size_t i = 0; i < n; i++) sum = sum * 41 + copy[(i * 11) % n];
  fingera_cleanse(copy, sizeof(copy));
  return sum;
}
