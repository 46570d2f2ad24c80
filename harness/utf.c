/* The Unicode encodings against their definitions (Unicode 3.9, RFC 3629, RFC 2781, UAX #19), written out here independently. */
#include "iconv.c"
#include "sa.h"
#include "builtins.h"

#define IS_ILSEQ(r) ((unsigned)(-1 - (r)) % 2 == 0)
static conv_t mk(int idx) { return (conv_t)reiconv_open_from_index(idx, idx, REICONV_NO_FLAGS); }

/* ---- UTF-8: Unicode Table 3-7.  Length, 0 for a proper prefix of a well-formed sequence, -1 ill-formed ---- */
static int u8_len(unsigned c) { return c < 0x80 ? 1 : c < 0xc2 ? -1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf5 ? 4 : -1; }
static int u8_ref(const unsigned char *s, int n, uint32_t *wc)
{
    int l = (int)sa_part((uint64_t)(int64_t)u8_len(s[0])), i;
    if (l < 0) return -1;
    for (i = 1; i < l && i < n; i++) {
        unsigned lo = 0x80, hi = 0xbf;
        if (i == 1) { if (s[0] == 0xe0) lo = 0xa0; if (s[0] == 0xed) hi = 0x9f; if (s[0] == 0xf0) lo = 0x90; if (s[0] == 0xf4) hi = 0x8f; }
        if (s[i] < lo || s[i] > hi) return -1;
    }
    if (n < l) return 0;
    *wc = l == 1 ? s[0] : l == 2 ? (uint32_t)(s[0] & 0x1f) << 6 | (s[1] & 0x3f)
        : l == 3 ? (uint32_t)(s[0] & 0xf) << 12 | (uint32_t)(s[1] & 0x3f) << 6 | (s[2] & 0x3f)
        : (uint32_t)(s[0] & 7) << 18 | (uint32_t)(s[1] & 0x3f) << 12 | (uint32_t)(s[2] & 0x3f) << 6 | (s[3] & 0x3f);
    return l;
}
void h_u8dec(int idx, int n)
{
    conv_t cd = mk(ei_utf8);
    const unsigned char *s = sa_input("in", n);
    ucs4_t wc; uint32_t w = 0;
    int ref = u8_ref(s, n, &w);
    int r = (int)sa_part((uint64_t)(int64_t)cd->ifuncs.xxx_mbtowc(cd, &wc, s, n));
    if (ref > 0) {
        sa_reach("u8:char");
        sa_check(r == ref, "decode: a well-formed sequence is not accepted as one character");
        if (r == ref) sa_check(wc == w, "decode: a well-formed sequence decodes to another character");
    } else if (ref == 0) {
        sa_reach("u8:prefix");
        sa_check(r == RET_TOOFEW(0), "decode: a valid beginning of a sequence is not reported as incomplete");
    } else {
        sa_reach("u8:ill");
        sa_check(r < 0, "strict: an ill-formed sequence is accepted");
        if (n >= 4) sa_check(r == RET_ILSEQ, "strict: an ill-formed sequence is not reported as invalid");
    }
    sa_check(cd->istate == 0 && cd->ibyteorder == 0, "decode: the decoder of a stateless encoding leaves a state");
}
static int scalar(uint32_t w) { return w < 0xd800 || (w >= 0xe000 && w < 0x110000); }
static int u8_put(unsigned char *b, uint32_t w)
{
    if (w < 0x80) { b[0] = w; return 1; }
    if (w < 0x800) { b[0] = 0xc0 | w >> 6; b[1] = 0x80 | (w & 0x3f); return 2; }
    if (w < 0x10000) { b[0] = 0xe0 | w >> 12; b[1] = 0x80 | (w >> 6 & 0x3f); b[2] = 0x80 | (w & 0x3f); return 3; }
    b[0] = 0xf0 | w >> 18; b[1] = 0x80 | (w >> 12 & 0x3f); b[2] = 0x80 | (w >> 6 & 0x3f); b[3] = 0x80 | (w & 0x3f); return 4;
}

/* ---- UTF-16, UTF-32, UCS-2, UCS-4 ---- */
enum { BE, LE, MARK };
struct fam { int ei, unit, order, pairs; uint32_t max; int nosur, nofffe, bom; };
static const struct fam FAM[] = {
    { ei_utf16, 2, MARK, 1, 0x10ffff, 1, 1, 1 }, { ei_utf16be, 2, BE, 1, 0x10ffff, 1, 0, 0 }, { ei_utf16le, 2, LE, 1, 0x10ffff, 1, 0, 0 },
    { ei_utf32, 4, MARK, 0, 0x10ffff, 1, 0, 1 }, { ei_utf32be, 4, BE, 0, 0x10ffff, 1, 0, 0 }, { ei_utf32le, 4, LE, 0, 0x10ffff, 1, 0, 0 },
    { ei_ucs2, 2, MARK, 0, 0xffff, 1, 1, 0 }, { ei_ucs2be, 2, BE, 0, 0xffff, 1, 0, 0 }, { ei_ucs2le, 2, LE, 0, 0xffff, 1, 0, 0 },
    { ei_ucs4, 4, MARK, 0, 0x7fffffff, 0, 0, 0 }, { ei_ucs4be, 4, BE, 0, 0xffffffff, 0, 0, 0 }, { ei_ucs4le, 4, LE, 0, 0xffffffff, 0, 0, 0 },
    { ei_ucs2internal, 2, LE, 0, 0xffff, 1, 0, 0 }, { ei_ucs2swapped, 2, BE, 0, 0xffff, 1, 0, 0 },
    { ei_ucs4internal, 4, LE, 0, 0xffffffff, 0, 0, 0 }, { ei_ucs4swapped, 4, BE, 0, 0xffffffff, 0, 0, 0 },
};
#define NFAM ((int)(sizeof FAM / sizeof FAM[0]))
static uint32_t unit_at(const unsigned char *s, int u, int le)
{
    if (u == 2) return le ? (uint32_t)s[1] << 8 | s[0] : (uint32_t)s[0] << 8 | s[1];
    return le ? (uint32_t)s[3] << 24 | (uint32_t)s[2] << 16 | (uint32_t)s[1] << 8 | s[0] : (uint32_t)s[0] << 24 | (uint32_t)s[1] << 16 | (uint32_t)s[2] << 8 | s[3];
}
static int put_unit(unsigned char *b, int u, int le, uint32_t w);
/* every input of n bytes: unit by unit in the byte order then in force, then what is left of a last unit */
void h_udec(int k, int n, int order0)
{
    const struct fam *f = &FAM[k];
    conv_t cd = mk(f->ei);
    sa_join(2);
    unsigned char *s = sa_output("in", n);
    ucs4_t wc; uint32_t w = 0;
    int le = f->order == MARK ? order0 : f->order, pos = 0, at = 0, ref = 0; /* ref: 1 char, 0 incomplete, -1 invalid */
    while (n - at >= f->unit) {
        w = sa_u32("unit", 0, f->unit == 2 ? 0xffffu : 0xffffffffu);
        put_unit(s + at, f->unit, le, w);
        at += f->unit;
        if (ref) continue;
        if (f->order == MARK && w == 0xfeff) { pos = at; continue; }
        if (f->order == MARK && w == (f->unit == 2 ? 0xfffeu : 0xfffe0000u)) { le ^= 1; pos = at; continue; }
        if (f->pairs && w >= 0xd800 && w < 0xdc00) {
            if (n - pos < 4) break;
            uint32_t w2 = sa_u32("unit", 0, 0xffffu);
            put_unit(s + at, 2, le, w2);
            at += 2;
            if (w2 < 0xdc00 || w2 >= 0xe000) { ref = -1; break; }
            w = 0x10000 + ((w - 0xd800) << 10) + (w2 - 0xdc00);
            ref = 1; pos = at; break;
        }
        if ((f->nosur && w >= 0xd800 && w < 0xe000) || w > f->max) { ref = -1; break; }
        ref = 1; pos = at; break;
    }
    for (; at < n; at++) s[at] = sa_u8("rest", 0, 255);
    cd->ibyteorder = f->order == MARK ? order0 : 0;
    int r = (int)sa_part((uint64_t)(int64_t)cd->ifuncs.xxx_mbtowc(cd, &wc, s, n));
    if (ref == 1) {
        sa_reach("udec:char");
        sa_check(r == pos, "decode: a well-formed sequence is not accepted as one character");
        if (r == pos) sa_check(wc == w, "decode: a well-formed sequence decodes to another character");
    } else if (ref == 0) {
        sa_reach("udec:prefix");
        sa_check(r == RET_TOOFEW(pos), "decode: incomplete input is not reported as such");
    } else {
        sa_reach("udec:ill");
        sa_check(r < 0, "strict: an ill-formed sequence is accepted");
        sa_check(r == RET_SHIFT_ILSEQ(pos), "strict: an ill-formed sequence is not reported as invalid where it begins");
    }
    if (f->order == MARK) sa_check(cd->ibyteorder == le, "order: a byte order mark is not followed");
    else sa_check(cd->ibyteorder == 0, "decode: the decoder of a stateless encoding leaves a state");
    sa_check(cd->istate == 0, "decode: the decoder of a stateless encoding leaves a state");
}
static int put_unit(unsigned char *b, int u, int le, uint32_t w)
{
    for (int i = 0; i < u; i++) b[le ? i : u - 1 - i] = (unsigned char)(w >> (8 * i));
    return u;
}
/* every 32-bit value */
void h_uenc(int k, int ost)
{
    unsigned char want[12]; int len = 0, enc;
    uint32_t wc = sa_u32("wc", 0, 0xffffffffu);
    conv_t cd;
    if (k < 0) {
        cd = mk(ei_utf8); enc = scalar(wc); if (enc) len = u8_put(want, wc);
    } else {
        const struct fam *f = &FAM[k];
        int le = f->order == LE;
        cd = mk(f->ei);
        enc = wc <= f->max && !(f->nosur && wc >= 0xd800 && wc < 0xe000) && !(f->nofffe && wc == 0xfffe);
        if (enc) {
            if (f->bom && !ost) len += put_unit(want, f->unit, 0, 0xfeff);
            if (f->pairs && wc >= 0x10000) { len += put_unit(want + len, 2, le, 0xd800 | (wc - 0x10000) >> 10); len += put_unit(want + len, 2, le, 0xdc00 | (wc & 0x3ff)); }
            else len += put_unit(want + len, f->unit, le, wc);
        }
        if (f->bom) cd->ostate = ost;
    }
    unsigned char *r = sa_output("out", 16);
    int c = (int)sa_part((uint64_t)(int64_t)cd->ofuncs.xxx_wctomb(cd, r, wc, 16));
    len = (int)sa_part(len);
    if (enc) {
        sa_reach("uenc:ok");
        sa_check(c == len, "encode: a character does not take the number of bytes defined for it");
        if (c == len) for (int i = 0; i < len; i++) sa_check(r[i] == want[i], "encode: a character is encoded as other bytes");
    } else {
        sa_reach("uenc:none");
        sa_check(c == RET_ILUNI, "strict: a value that is no character of the encoding is encoded");
    }
}

/* ---- escapes: C99 and Java ---- */
static unsigned char hexv(unsigned char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return 0xff;
}
/* digits: number of hex digits at s[from..), up to want, within n; value */
static int digits(const unsigned char *s, int from, int want, int n, uint32_t *v)
{
    int i; *v = 0;
    for (i = 0; i < want && from + i < n; i++) { unsigned char h = hexv(s[from + i]); if (h == 0xff) return -1; *v |= (uint32_t)h << 4 * (want - 1 - i); }
    return i;
}
/* java: 0 C99, 1 Java.  All bytes printable choices; n fixed. */
void h_escdec(int java, int n, int half)
{
    conv_t cd = mk(java ? ei_java : ei_c99);
    unsigned char *s = sa_input("in", n);
    ucs4_t wc; uint32_t w = 0, w2 = 0; int ref = -2; /* >0 length, 0 incomplete, -1 invalid */
    sa_join(2);
    if (!java && n >= 10 && sa_part(s[0] == '\\') && sa_part(s[1] == 'U')) {   /* eight digits: three of them at a time */
        for (int i = 0; i < 8; i++) if (i < half || i > half + 2) sa_assume(s[2 + i] == '0');
    }
    int r = (int)sa_part((uint64_t)(int64_t)cd->ifuncs.xxx_mbtowc(cd, &wc, s, n));
    if (s[0] != '\\') { if (!java && s[0] >= 0xa0) ref = -1; else { ref = 1; w = s[0]; } }
    else if (n < 2) ref = 0;
    else {
        int big = !java && s[1] == 'U', want = big ? 8 : 4;
        if (s[1] != 'u' && !big) { ref = 1; w = '\\'; }
        else {
            int d = digits(s, 2, want, n, &w);
            if (d < 0) { ref = 1; w = '\\'; }
            else if (d < want) ref = 0;
            else if (!java) ref = (w >= 0xa0 && !(w >= 0xd800 && w < 0xe000)) || w == 0x24 || w == 0x40 || w == 0x60 ? 2 + want : -1;
            else if (!(w >= 0xd800 && w < 0xe000)) ref = 6;
            else if (w >= 0xdc00 || (n > 6 && s[6] != '\\') || (n > 7 && s[7] != 'u')) { ref = 1; w = '\\'; }
            else {
                int e = digits(s, 8, 4, n, &w2);
                if (e < 0 || (e == 4 && !(w2 >= 0xdc00 && w2 < 0xe000))) { ref = 1; w = '\\'; }
                else if (e < 4) ref = 0;
                else { ref = 12; w = 0x10000 + ((w - 0xd800) << 10) + (w2 - 0xdc00); }
            }
        }
    }
    ref = (int)sa_part((uint64_t)(int64_t)ref);
    if (ref > 0) {
        sa_reach("esc:char");
        sa_check(r == ref, "decode: an escape or plain character is not accepted as one character");
        if (r == ref) sa_check(wc == w, "decode: an escape decodes to another character");
    } else if (ref == 0) { sa_reach("esc:prefix"); sa_check(r == RET_TOOFEW(0), "decode: an incomplete escape is not reported as such"); }
    else { sa_reach("esc:ill"); sa_check(r == RET_ILSEQ, "strict: an invalid escape is accepted"); }
}
static unsigned char hexd(unsigned v) { return v < 10 ? '0' + v : 'a' - 10 + v; }
void h_escenc(int java)
{
    unsigned char want[12]; int len = 0, enc = 1, i;
    uint32_t wc = sa_u32("wc", 0, 0x10ffff);
    sa_assume(!(wc >= 0xd800 && wc < 0xe000));
    conv_t cd = mk(java ? ei_java : ei_c99);
    if (wc < (java ? 0x80 : 0xa0)) { want[0] = wc; len = 1; }
    else if (wc < 0x10000) { want[0] = '\\'; want[1] = 'u'; for (i = 0; i < 4; i++) want[2 + i] = hexd(wc >> (12 - 4 * i) & 15); len = 6; }
    else if (!java) { want[0] = '\\'; want[1] = 'U'; for (i = 0; i < 8; i++) want[2 + i] = hexd(wc >> (28 - 4 * i) & 15); len = 10; }
    else {
        uint32_t h = 0xd800 + ((wc - 0x10000) >> 10), l = 0xdc00 + (wc & 0x3ff);
        want[0] = '\\'; want[1] = 'u'; for (i = 0; i < 4; i++) want[2 + i] = hexd(h >> (12 - 4 * i) & 15);
        want[6] = '\\'; want[7] = 'u'; for (i = 0; i < 4; i++) want[8 + i] = hexd(l >> (12 - 4 * i) & 15); len = 12;
    }
    unsigned char *r = sa_output("out", 16);
    int c = (int)sa_part((uint64_t)(int64_t)cd->ofuncs.xxx_wctomb(cd, r, wc, 16));
    sa_reach("escenc:ok");
    sa_check(c == len, "encode: a character does not take the number of bytes defined for it");
    if (c == len) for (i = 0; i < len; i++) sa_check(r[i] == want[i], "encode: a character is encoded as other bytes");
}
