#ifndef VHASH_H
#define VHASH_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
/* 64-bit streaming hash over 16-bit samples (any bit depth hashes alike) */
static inline uint64_t vh_mix(uint64_t h, uint64_t v) {
    h ^= v; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; return h;
}
static inline uint64_t vh_row8(uint64_t h, const uint8_t *p, int w) {
    int x = 0;
    for (; x + 4 <= w; x += 4) h = vh_mix(h, p[x] | (uint64_t)p[x + 1] << 16 | (uint64_t)p[x + 2] << 32 | (uint64_t)p[x + 3] << 48);
    for (; x < w; x++) h = vh_mix(h, 0x100000000ull + p[x]);
    return h;
}
static inline uint64_t vh_row16(uint64_t h, const uint8_t *p8, int w) {
    int x = 0; uint64_t v; uint16_t s;
    for (; x + 4 <= w; x += 4) { memcpy(&v, p8 + 2 * x, 8); h = vh_mix(h, v); }
    for (; x < w; x++) { memcpy(&s, p8 + 2 * x, 2); h = vh_mix(h, 0x100000000ull + s); }
    return h;
}
static inline uint64_t vh_bytes(uint64_t h, const void *d, size_t n) {
    const uint8_t *p = d; uint64_t v;
    for (; n >= 8; n -= 8, p += 8) { memcpy(&v, p, 8); h = vh_mix(h, v); }
    for (; n; n--, p++) h = vh_mix(h, 0x100ull + *p);
    return h;
}
#endif
