/* An ideal secp256k1-zkp: the confidential-assets part of the library's
 * interface with perfectly binding, deterministic and transparent encodings.
 *
 *   generator   0a/0b || x,  x = H("ideal/gen", asset, blind)
 *   commitment  08/09 || x,  x = H("ideal/com", generator, value, blind)
 *   range proof "RP" exp+1 bits min8 value8 blind32 len2 msg nc32 tag32
 *               nc = H("ideal/nc", nonce)
 *               tag = H("ideal/rp", all before, commitment, generator, script)
 *   surjection  n2(LE) bitmap tag32,
 *               tag = H("ideal/sp", n2, bitmap, input tags, output tag)
 *
 * x keeps its top bit clear; a string whose x has it set does not parse.
 * Scalars are taken modulo the secp256k1 group order, as in the real library.
 * spec/Zkp.tla states the same encodings.  Everything else (contexts, keys)
 * comes from the system's libsecp256k1, which this one is linked to.
 */
#ifndef IDEAL_SHIFT
#define IDEAL_SHIFT 0 /* lets a user of the library tell variants apart */
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef unsigned char u8;

/* ------------------------------------------------------------- SHA-256 */
typedef struct { uint32_t s[8]; u8 b[64]; uint64_t n; } sha;
static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
#define R(x,n) (((x) >> (n)) | ((x) << (32 - (n))))
static void blk(sha *c, const u8 *p) {
    uint32_t w[64], v[8];
    for (int i = 0; i < 16; i++)
        w[i] = (uint32_t)p[4*i] << 24 | p[4*i+1] << 16 | p[4*i+2] << 8 | p[4*i+3];
    for (int i = 16; i < 64; i++)
        w[i] = w[i-16] + w[i-7] + (R(w[i-15],7) ^ R(w[i-15],18) ^ (w[i-15] >> 3))
               + (R(w[i-2],17) ^ R(w[i-2],19) ^ (w[i-2] >> 10));
    memcpy(v, c->s, 32);
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = v[7] + (R(v[4],6) ^ R(v[4],11) ^ R(v[4],25))
                      + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i];
        uint32_t t2 = (R(v[0],2) ^ R(v[0],13) ^ R(v[0],22))
                      + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        memmove(v + 1, v, 28);
        v[4] += t1; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) c->s[i] += v[i];
}
static void start(sha *c, const char *label) {
    static const uint32_t iv[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,
                                   0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    memcpy(c->s, iv, 32); c->n = 0;
    while (*label) { c->b[c->n++] = (u8)*label++; }
}
static void add(sha *c, const void *d, size_t n) {
    for (size_t i = 0; i < n; i++) {
        c->b[c->n++ & 63] = ((const u8 *)d)[i];
        if (!(c->n & 63)) blk(c, c->b);
    }
}
static void end(sha *c, u8 *o) {
    uint64_t bits = c->n * 8; u8 x = 0x80, z = 0, l[8];
    add(c, &x, 1);
    while ((c->n & 63) != 56) add(c, &z, 1);
    for (int i = 0; i < 8; i++) l[i] = (u8)(bits >> (56 - 8*i));
    add(c, l, 8);
    for (int i = 0; i < 32; i++) o[i] = (u8)(c->s[i/4] >> (24 - 8*(i%4)));
}

/* ------------------------------------------- scalars mod the group order */
static const u8 N[32] = {0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,
0xff,0xff,0xff,0xfe,0xba,0xae,0xdc,0xe6,0xaf,0x48,0xa0,0x3b,0xbf,0xd2,0x5e,0x8c,
0xd0,0x36,0x41,0x41};
static int overflows(const u8 *a) { return memcmp(a, N, 32) >= 0; }
static void sub_raw(u8 *a, const u8 *b) {
    int c = 0;
    for (int i = 31; i >= 0; i--) { int d = a[i] - b[i] - c; c = d < 0; a[i] = (u8)d; }
}
static void sc_add(u8 *a, const u8 *b) {
    int c = 0;
    for (int i = 31; i >= 0; i--) { int d = a[i] + b[i] + c; c = d >> 8; a[i] = (u8)d; }
    if (c || overflows(a)) sub_raw(a, N);
}
static void sc_neg(u8 *a) {
    static const u8 zero[32]; u8 r[32];
    if (!memcmp(a, zero, 32)) return;
    memcpy(r, N, 32); sub_raw(r, a); memcpy(a, r, 32);
}
static void sc_mul64(u8 *o, uint64_t v, const u8 *a) {
    u8 r[32] = {0};
    for (int i = 63; i >= 0; i--) {
        u8 t[32]; memcpy(t, r, 32); sc_add(r, t);
        if (v >> i & 1) sc_add(r, a);
    }
    memcpy(o, r, 32);
}

static void be8(u8 *o, uint64_t v) { for (int i = 0; i < 8; i++) o[i] = (u8)(v >> (56 - 8*i)); }
static uint64_t rd8(const u8 *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }

/* ----------------------------------------------------------- generators */
typedef struct { u8 ser[33], asset[32], blind[32]; } opening;
static opening *known; static size_t nknown, cap;
static void remember(const u8 *ser, const u8 *asset, const u8 *blind) {
    if (nknown == cap) {
        cap = cap ? 2 * cap : 256;
        known = realloc(known, cap * sizeof *known);
        if (!known) abort();
    }
    memcpy(known[nknown].ser, ser, 33);
    memcpy(known[nknown].asset, asset, 32);
    memcpy(known[nknown++].blind, blind, 32);
}
static opening *lookup(const u8 *ser) {
    for (size_t i = nknown; i-- > 0;)
        if (!memcmp(known[i].ser, ser, 33)) return &known[i];
    return NULL;
}
static int parse33(u8 *out64, const u8 *in, u8 prefix) {
    if ((in[0] & 0xfe) != prefix || (in[1] & 0x80)) return 0;
    memset(out64, 0, 64); memcpy(out64, in, 33);
    return 1;
}
int secp256k1_generator_parse(const void *ctx, u8 *gen, const u8 *in) {
    return parse33(gen, in, 0x0a);
}
int secp256k1_generator_serialize(const void *ctx, u8 *out, const u8 *gen) {
    memcpy(out, gen, 33); return 1;
}
int secp256k1_generator_generate_blinded(const void *ctx, u8 *gen, const u8 *asset, const u8 *blind) {
    sha c;
    if (overflows(blind)) return 0;
    memset(gen, 0, 64);
    start(&c, "ideal/gen"); add(&c, asset, 32); add(&c, blind, 32); end(&c, gen + 1);
    gen[0] = 0x0a | (gen[32] & 1); gen[1] &= 0x7f;
    if (!lookup(gen)) remember(gen, asset, blind);
    return 1;
}
int secp256k1_generator_generate(const void *ctx, u8 *gen, const u8 *asset) {
    static const u8 zero[32];
    return secp256k1_generator_generate_blinded(ctx, gen, asset, zero);
}

/* ---------------------------------------------------------- commitments */
int secp256k1_pedersen_commit(const void *ctx, u8 *commit, const u8 *blind, uint64_t value, const u8 *gen) {
    sha c; u8 v[8];
    if (overflows(blind)) return 0;
    be8(v, value);
    memset(commit, 0, 64);
    start(&c, "ideal/com"); add(&c, gen, 33); add(&c, v, 8); add(&c, blind, 32); end(&c, commit + 1);
    commit[0] = 0x08 | (commit[32] & 1); commit[1] &= 0x7f;
    return 1;
}
int secp256k1_pedersen_commitment_serialize(const void *ctx, u8 *out, const u8 *commit) {
    memcpy(out, commit, 33); return 1;
}
int secp256k1_pedersen_commitment_parse(const void *ctx, u8 *commit, const u8 *in) {
    return parse33(commit, in, 0x08);
}
int secp256k1_pedersen_blind_generator_blind_sum(const void *ctx, const uint64_t *value,
        const u8 *const *generator_blind, u8 *const *blinding_factor, size_t n_total, size_t n_inputs) {
    u8 sum[32] = {0}, t[32];
    if (n_total == 0) return 1;
    if (n_total <= n_inputs) return 0;
    for (size_t i = 0; i < n_total; i++) {
        if (overflows(generator_blind[i]) || overflows(blinding_factor[i])) return 0;
        sc_mul64(t, value[i], generator_blind[i]);
        sc_add(t, blinding_factor[i]);
        if (i < n_inputs) sc_neg(t);
        sc_add(sum, t);
    }
    sc_neg(sum);
    memcpy(t, blinding_factor[n_total - 1], 32);
    sc_add(t, sum);
    memcpy(blinding_factor[n_total - 1], t, 32);
    return 1;
}

/* --------------------------------------------------------- range proofs */
#define HEAD 54
static void rp_tag(u8 *o, const u8 *proof, size_t n, const u8 *commit, const u8 *gen,
                   const u8 *extra, size_t nextra) {
    sha c;
    start(&c, "ideal/rp"); add(&c, proof, n); add(&c, commit, 33); add(&c, gen, 33);
    add(&c, extra, nextra); end(&c, o);
}
int secp256k1_rangeproof_sign(const void *ctx, u8 *proof, size_t *plen, uint64_t min_value,
        const u8 *commit, const u8 *blind, const u8 *nonce, int exp, int min_bits, uint64_t value,
        const u8 *msg, size_t msg_len, const u8 *extra, size_t extra_len, const u8 *gen) {
    sha c; size_t n = HEAD + msg_len;
    if (exp < -1 || exp > 18 || min_bits < 0 || min_bits > 64) return 0;
    if (value < min_value || overflows(blind) || msg_len > 4096) return 0;
    if (*plen < n + 64) return 0;
    proof[0] = 'R'; proof[1] = 'P'; proof[2] = (u8)(exp + 1); proof[3] = (u8)min_bits;
    be8(proof + 4, min_value); be8(proof + 12, value); memcpy(proof + 20, blind, 32);
    proof[52] = (u8)(msg_len >> 8); proof[53] = (u8)msg_len;
    memcpy(proof + HEAD, msg, msg_len);
    start(&c, "ideal/nc"); add(&c, nonce, 32); end(&c, proof + n);
    rp_tag(proof + n + 32, proof, n + 32, commit, gen, extra, extra_len);
    *plen = n + 64;
    return 1;
}
static size_t rp_msg(const u8 *p, size_t plen) {   /* message length, or -1 */
    size_t m;
    if (plen < HEAD + 64 || p[0] != 'R' || p[1] != 'P') return (size_t)-1;
    m = (size_t)p[52] << 8 | p[53];
    return plen == HEAD + 64 + m ? m : (size_t)-1;
}
int secp256k1_rangeproof_rewind(const void *ctx, u8 *blind_out, uint64_t *value_out, u8 *msg_out,
        size_t *outlen, const u8 *nonce, uint64_t *min_value, uint64_t *max_value, const u8 *commit,
        const u8 *proof, size_t plen, const u8 *extra, size_t extra_len, const u8 *gen) {
    sha c; u8 h[64]; size_t m = rp_msg(proof, plen);
    if (m == (size_t)-1) return 0;
    start(&c, "ideal/nc"); add(&c, nonce, 32); end(&c, h);
    if (memcmp(h, proof + HEAD + m, 32)) return 0;
    rp_tag(h, proof, HEAD + m + 32, commit, gen, extra, extra_len);
    if (memcmp(h, proof + HEAD + m + 32, 32)) return 0;
    if (!secp256k1_pedersen_commit(ctx, h, proof + 20, rd8(proof + 12), gen)) return 0;
    if (memcmp(h, commit, 33)) return 0;
    memcpy(blind_out, proof + 20, 32);
    *value_out = rd8(proof + 12);
    *min_value = rd8(proof + 4);
    *max_value = UINT64_MAX;
    memcpy(msg_out, proof + HEAD, m);
    *outlen = m;
    return 1;
}
int secp256k1_rangeproof_info(const void *ctx, int *exp, int *mantissa, uint64_t *min_value,
        uint64_t *max_value, const u8 *proof, size_t plen) {
    if (rp_msg(proof, plen) == (size_t)-1) return 0;
    *exp = proof[2] - 1 + IDEAL_SHIFT; *mantissa = proof[3];
    *min_value = rd8(proof + 4);
    *max_value = *min_value + (proof[3] >= 64 ? UINT64_MAX : ((uint64_t)1 << proof[3]) - 1);
    return 1;
}

/* ---------------------------------------------------- surjection proofs */
typedef struct { size_t n; u8 used[32]; u8 tag[32]; } sproof;
static size_t nbytes(size_t n) { return (n + 7) / 8; }
static void sp_tag(u8 *o, const sproof *p, const u8 *tags, const u8 *out) {
    sha c; u8 n2[2] = {(u8)p->n, (u8)(p->n >> 8)};
    start(&c, "ideal/sp"); add(&c, n2, 2); add(&c, p->used, nbytes(p->n));
    for (size_t i = 0; i < p->n; i++) add(&c, tags + 64*i, 33);
    add(&c, out, 33); end(&c, o);
}
int secp256k1_surjectionproof_allocate_initialized(const void *ctx, sproof **proof, size_t *index,
        const u8 *tags, size_t n, size_t n_use, const u8 *out_tag, size_t max_iter, const u8 *seed) {
    size_t m = 0, left, at; sproof *p;
    *proof = NULL;
    if (n > 256 || n_use > n || n_use == 0) return 0;
    for (size_t i = 0; i < n; i++) m += !memcmp(tags + 32*i, out_tag, 32);
    if (m == 0) return 0;
    p = calloc(1, sizeof *p);
    if (!p) return 0;
    p->n = n;
    m = seed[0] % m;                       /* which of the matching inputs */
    for (size_t i = 0; i < n; i++)
        if (!memcmp(tags + 32*i, out_tag, 32) && m-- == 0) { *index = i; break; }
    p->used[*index / 8] |= (u8)(1 << *index % 8);
    for (left = n_use - 1, at = seed[1] % n; left; at = (at + 1) % n)
        if (!(p->used[at / 8] >> at % 8 & 1)) { p->used[at / 8] |= (u8)(1 << at % 8); left--; }
    *proof = p;
    return 1;
}
void secp256k1_surjectionproof_destroy(sproof *p) { free(p); }
int secp256k1_surjectionproof_generate(const void *ctx, sproof *p, const u8 *tags, size_t n,
        const u8 *out, size_t index, const u8 *in_blind, const u8 *out_blind) {
    opening *a, *b;
    if (n != p->n || index >= n || !(p->used[index / 8] >> index % 8 & 1)) return 0;
    sp_tag(p->tag, p, tags, out);
    a = lookup(tags + 64*index); b = lookup(out);
    if (!a || !b || memcmp(a->asset, b->asset, 32) || memcmp(a->blind, in_blind, 32)
            || memcmp(b->blind, out_blind, 32))
        p->tag[0] ^= 1;                    /* a proof of a false statement */
    return 1;
}
int secp256k1_surjectionproof_verify(const void *ctx, const sproof *p, const u8 *tags, size_t n,
        const u8 *out) {
    u8 t[32];
    if (n != p->n) return 0;
    sp_tag(t, p, tags, out);
    return !memcmp(t, p->tag, 32);
}
size_t secp256k1_surjectionproof_serialized_size(const void *ctx, const sproof *p) {
    return 2 + nbytes(p->n) + 32;
}
int secp256k1_surjectionproof_serialize(const void *ctx, u8 *out, size_t *len, const sproof *p) {
    size_t b = nbytes(p->n);
    if (*len < 34 + b) return 0;
    out[0] = (u8)p->n; out[1] = (u8)(p->n >> 8);
    memcpy(out + 2, p->used, b); memcpy(out + 2 + b, p->tag, 32);
    *len = 34 + b;
    return 1;
}
