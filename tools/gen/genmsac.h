/* Steered symbol coder: replaces dav1d's msac.c in the *generator's* private copy
 * of the library.  Instead of decoding symbols from bytes it chooses them and
 * records (partition, choice) so that the tile can be range-encoded afterwards. */
#ifndef GENMSAC_H
#define GENMSAC_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct GenOp {      /* one coded symbol */
    uint16_t fl, fh;        /* inverse-cdf (Q15) at symbol-1 and symbol */
    uint8_t s, n;           /* symbol index, n_symbols (count-1) */
    uint8_t type;           /* 0 symbol, 1 bool(f in fh) */
    uint8_t lr;             /* belongs to loop restoration side info */
} GenOp;
typedef struct GenTile { GenOp *ops; size_t n, cap; } GenTile;
typedef struct GenPolicy {
    int uniform;        /* percent: choose uniformly instead of following the cdf */
    int skip;           /* percent of blocks with skip=1, -1: no override */
    int txskip;         /* percent of all-zero transform blocks, -1 none */
    int eob_cap;        /* max eob_bin symbol */
    int tok_small;      /* percent bias towards small tokens */
    int hi_cap;         /* percent chance of continuing hi tokens */
    int part_none;      /* percent bias to PARTITION_NONE */
    int part_split;     /* percent bias to PARTITION_SPLIT */
    int mv_class_cap;
    int intrabc;        /* percent */
    int palette;        /* percent, -1 none */
    int inter;          /* percent of inter blocks in inter frames, -1 none */
    int comp;           /* percent of compound, -1 none */
    int newmv;          /* percent of newmv, -1 none */
    int no_lr;          /* choose restoration none */
} GenPolicy;
extern GenPolicy gen_policy;
extern GenTile *gen_tiles;
extern int gen_n_tiles;
extern size_t gen_total_ops;
void gen_seed(uint64_t s);
void gen_begin_frame(void);
/* range-encode; drop_lr leaves the restoration symbols out. returns malloc'ed buffer */
uint8_t *gen_encode_tile(const GenTile *t, int drop_lr, size_t *sz);
#ifdef __cplusplus
}
#endif
#endif
