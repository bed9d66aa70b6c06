#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
static uint8_t *a, *b;
void __sanitizer_cov_8bit_counters_init(uint8_t *s, uint8_t *e);
void __sanitizer_cov_8bit_counters_init(uint8_t *s, uint8_t *e) { if (!a || s < a) a = s; if (e > b) b = e; }
__attribute__((destructor)) static void fin(void) { const char *f = getenv("COVOUT"); if (!f) return; FILE *o = fopen(f, "wb"); fwrite(a, 1, b - a, o); fclose(o); }
