/* Stateful encodings against a description of their shift and escape sequences written from RFC 1468, 1554, 2237, 1557, 1922,
   1843, 2152, JIS X 0213 and the documented CP50221 extensions. Characters of a component set are those of the encoding
   that is that set alone. */
#include "iconv.c"
#include "sa.h"
#include "builtins.h"
enum set { NONE, ASCII, ROMAN, KANA, X0208, X0212, GB, KSC, L1, L7, IR165, CNS1, CNS2, CNS3, CNS4, CNS5, CNS6, CNS7, X0213_1, X0213_2, X0208MS, X0212MS };
enum { JP, JP1, JP2, JPMS, JP3, CN, CNX, KR, HZ, U7 };
static const int EI[] = { ei_iso2022_jp, ei_iso2022_jp1, ei_iso2022_jp2, ei_iso2022_jpms, ei_iso2022_jp3, ei_iso2022_cn, ei_iso2022_cn_ext, ei_iso2022_kr, ei_hz, ei_utf7 };
#define B(e) (1u << (e))
static const struct { unsigned encs; const char *seq; unsigned char slot, set; } SEQ[] = {
    { B(JP) | B(JP1) | B(JP2) | B(JPMS) | B(JP3), "\033(B", 0, ASCII },
    { B(JP) | B(JP1) | B(JP2) | B(JPMS) | B(JP3), "\033(J", 0, ROMAN },
    { B(JP2) | B(JPMS) | B(JP3), "\033(I", 0, KANA },
    { B(JP) | B(JP1) | B(JP2) | B(JP3), "\033$@", 0, X0208 },
    { B(JP) | B(JP1) | B(JP2) | B(JP3), "\033$B", 0, X0208 },
    { B(JPMS), "\033$@", 0, X0208MS }, { B(JPMS), "\033$B", 0, X0208MS },
    { B(JP1) | B(JP2), "\033$(D", 0, X0212 }, { B(JPMS), "\033$(D", 0, X0212MS },
    { B(JP2), "\033$A", 0, GB }, { B(JP2), "\033$(C", 0, KSC },
    { B(JP2), "\033.A", 2, L1 }, { B(JP2), "\033.F", 2, L7 },
    { B(JP3), "\033$(O", 0, X0213_1 }, { B(JP3), "\033$(Q", 0, X0213_1 }, { B(JP3), "\033$(P", 0, X0213_2 },
    { B(KR), "\033$)C", 1, KSC },
    { B(CN) | B(CNX), "\033$)A", 1, GB }, { B(CN) | B(CNX), "\033$)G", 1, CNS1 }, { B(CNX), "\033$)E", 1, IR165 },
    { B(CN) | B(CNX), "\033$*H", 2, CNS2 },
    { B(CNX), "\033$+I", 3, CNS3 }, { B(CNX), "\033$+J", 3, CNS4 }, { B(CNX), "\033$+K", 3, CNS5 }, { B(CNX), "\033$+L", 3, CNS6 }, { B(CNX), "\033$+M", 3, CNS7 },
};
#define NSEQ (sizeof SEQ / sizeof SEQ[0])
struct st { unsigned g[4], so, pend; /* UTF-7 */ unsigned act, nbits, bits; };
static conv_t RD[32];
static conv_t mk(int idx) { return (conv_t)reiconv_open_from_index(idx, idx, REICONV_NO_FLAGS); }
/* one character of another encoding; its length or 0 */
static int other(int ei, const unsigned char *b, int n, ucs4_t *wc, ucs4_t *wc2)
{
    conv_t cd = mk(ei);
    ucs4_t v;
    int r = (int)sa_part((uint64_t)(int64_t)cd->ifuncs.xxx_mbtowc(cd, &v, b, (size_t)n));
    *wc2 = 0;
    if (r == n) { *wc = v; if (cd->ifuncs.xxx_flushwc && ei == ei_euc_jisx0213) { ucs4_t p; if (cd->ifuncs.xxx_flushwc(cd, &p)) { *wc2 = p; } } }
    reiconv_handle_close((reiconv_t)cd);
    return r == n ? n : 0;
}
/* a character of a set at p: its length or 0 */
static int charOf(unsigned set, const unsigned char *p, ucs4_t *wc, ucs4_t *wc2)
{
    unsigned char b[4];
    *wc2 = 0;
    unsigned a = p[0];
    if (set <= KANA || set == L1 || set == L7) {
        if (a >= 0x80) return 0;
        switch (set) {
        case ASCII: *wc = a; return 1;
        case ROMAN: b[0] = (unsigned char)a; return other(ei_jisx0201, b, 1, wc, wc2);
        case KANA: b[0] = (unsigned char)(a + 0x80); return other(ei_jisx0201, b, 1, wc, wc2);
        case L1: *wc = a + 0x80; return 1;
        case L7: b[0] = (unsigned char)(a + 0x80); return other(ei_iso8859_7, b, 1, wc, wc2);
        default: return 0;
        }
    }
    unsigned c = p[1];
    if (a < 0x21 || a > 0x7e || c < 0x21 || c > 0x7e) return 0;
    b[0] = (unsigned char)a; b[1] = (unsigned char)c;
    switch (set) {
    case X0208: return other(ei_jisx0208, b, 2, wc, wc2);
    case X0212: return other(ei_jisx0212, b, 2, wc, wc2);
    case GB: return other(ei_gb2312, b, 2, wc, wc2);
    case KSC: return other(ei_ksc5601, b, 2, wc, wc2);
    case IR165: return other(ei_isoir165, b, 2, wc, wc2);
    case X0213_1: b[0] |= 0x80; b[1] |= 0x80; return other(ei_euc_jisx0213, b, 2, wc, wc2);
    case X0213_2: b[0] = 0x8f; b[1] = (unsigned char)(a | 0x80); b[2] = (unsigned char)(c | 0x80); return other(ei_euc_jisx0213, b, 3, wc, wc2) ? 2 : 0;
    case X0208MS:
        if (a >= 0x79 && a <= 0x7c) {      /* NEC's selection of IBM extensions, as in CP932 */
            b[0] = (unsigned char)(0xed + (a - 0x79) / 2);
            b[1] = (unsigned char)(a & 1 ? c - 0x21 + 0x40 + (c - 0x21 + 0x40 >= 0x7f) : c - 0x21 + 0x9f);
            if (other(ei_cp932, b, 2, wc, wc2)) return 2;
        }
        if (a >= 0x75) { *wc = 0xe000 + (a - 0x75) * 94 + (c - 0x21); return 2; }
        if (a == 0x2d) sa_stop();      /* NEC's row: Microsoft's own selection */
        return other(ei_jisx0208, b, 2, wc, wc2);
    case X0212MS:
        if (a >= 0x75) { *wc = 0xe3ac + (a - 0x75) * 94 + (c - 0x21); return 2; }
        if (a >= 0x73) sa_stop();      /* IBM extensions: no set of their own to compare with */
        return other(ei_jisx0212, b, 2, wc, wc2);
    default:                           /* CNS 11643, as planes of EUC-TW */
        b[0] = 0x8e; b[1] = (unsigned char)(0xa1 + (set - CNS1)); b[2] = (unsigned char)(a | 0x80); b[3] = (unsigned char)(c | 0x80);
        return other(ei_euc_tw, b, 4, wc, wc2) ? 2 : 0;
    }
}
enum { BAD, SHIFT, CHAR };
struct out { int kind, len; ucs4_t wc; };
static struct out bad(void) { struct out o = { BAD, 0, 0 }; return o; }
static struct out shift(int n) { struct out o = { SHIFT, n, 0 }; return o; }
static struct out chr(int n, ucs4_t w) { struct out o = { CHAR, n, w }; return o; }
static struct out spec7(struct st *s, const unsigned char *p)
{
    static const char direct[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'(),-./:? \t\n\r!\"#$%&*;<=>@[]^_`{|}";
    static const signed char V[256] = {
#define R26(c, v) [c] = v, [c + 1] = v + 1, [c + 2] = v + 2, [c + 3] = v + 3, [c + 4] = v + 4, [c + 5] = v + 5, [c + 6] = v + 6, [c + 7] = v + 7, [c + 8] = v + 8, [c + 9] = v + 9
#define RAZ(c, v) R26(c, v), R26(c + 10, v + 10), [c + 20] = v + 20, [c + 21] = v + 21, [c + 22] = v + 22, [c + 23] = v + 23, [c + 24] = v + 24, [c + 25] = v + 25
        RAZ('A', 1), RAZ('a', 27), R26('0', 53), ['+'] = 63, ['/'] = 64 };
    static unsigned char D[256];
    for (int i = 0; direct[i]; i++) D[(unsigned char)direct[i]] = 1;
    if (!s->act) {
        if (D[p[0]]) return chr(1, p[0]);
        if (p[0] != '+') return bad();
        if (p[1] == '-') return chr(2, '+');
        s->act = 1; s->nbits = s->bits = 0;
        return shift(1);
    }
    if (!V[p[0]]) {
        if (s->bits) return bad();
        s->act = 0; s->nbits = 0;
        return shift(p[0] == '-');
    }
    unsigned long acc = s->bits; unsigned n = s->nbits; int k = 0, need = 16;
    for (;;) {
        if (!V[p[k]]) return bad();
        acc = acc << 6 | (unsigned)(V[p[k]] - 1); n += 6; k++;
        if (n >= (unsigned)need) {
            unsigned u = (unsigned)(acc >> (n - need)) & 0xffff;
            if (need == 16 && u >= 0xd800 && u < 0xdc00) { need = 32; continue; }
            unsigned rest = n - need, lo = (unsigned)(acc & ((1u << rest) - 1));
            if (need == 16) { if (u >= 0xdc00 && u < 0xe000) sa_stop(); s->bits = lo; s->nbits = rest; return chr(k, u); }
            if (u < 0xdc00 || u >= 0xe000) return bad();
            unsigned h = (unsigned)(acc >> rest >> 16) & 0xffff;
            s->bits = lo; s->nbits = rest;
            return chr(k, 0x10000 + ((h - 0xd800) << 10) + (u - 0xdc00));
        }
    }
}
/* what comes next at p, where there are enough bytes to tell */
static struct out spec(int e, struct st *s, const unsigned char *p)
{
    ucs4_t wc = 0, wc2 = 0;
    int l;
    if (s->pend) { wc = s->pend; s->pend = 0; return chr(0, wc); }
    if (e == U7) return spec7(s, p);
    if (e == HZ) {
        if (p[0] == '~') {
            if (!s->so && p[1] == '~') return chr(2, '~');
            if (!s->so && p[1] == '{') { s->so = 1; return shift(2); }
            if (!s->so && p[1] == '\n') return shift(2);
            if (s->so && p[1] == '}') { s->so = 0; return shift(2); }
            return bad();
        }
        if (!s->so && p[0] >= 0x80) sa_stop();
        l = charOf(s->so ? GB : ASCII, p, &wc, &wc2);
        return l ? chr(l, wc) : bad();
    }
    if (p[0] == 0x1b) {
        for (unsigned i = 0; i < NSEQ; i++) {
            if (!(SEQ[i].encs & B(e))) continue;
            int n = 0;
            while (SEQ[i].seq[n] && (unsigned char)SEQ[i].seq[n] == p[n]) n++;
            if (!SEQ[i].seq[n]) { s->g[SEQ[i].slot] = SEQ[i].set; return shift(n); }
        }
        if ((p[1] == 'N' && (e == JP2 || e == CN || e == CNX)) || (p[1] == 'O' && e == CNX)) {
            unsigned g = s->g[p[1] == 'N' ? 2 : 3];
            if (g == NONE) return bad();
            l = charOf(g, p + 2, &wc, &wc2);
            return l ? chr(l + 2, wc) : bad();
        }
        return bad();
    }
    if (p[0] == 0x0e || p[0] == 0x0f) {
        if (e == KR || e == CN || e == CNX) {
            if (p[0] == 0x0e && s->g[1] == NONE) return bad();
            s->so = p[0] == 0x0e;
            return shift(1);
        }
        if (e == JPMS) { if (p[0] == 0x0e && s->g[0] == ROMAN) s->g[0] = KANA; else if (p[0] == 0x0f && s->g[0] == KANA) s->g[0] = ROMAN; return shift(1); }
    }
    unsigned set = s->so ? s->g[1] : s->g[0];
    l = charOf(set, p, &wc, &wc2);
    if (!l) return bad();
    s->pend = wc2;
    if ((wc == 0x0a || wc == 0x0d) && l == 1) {
        if (e == JP2) s->g[2] = NONE;
        if (e == CN || e == CNX) s->g[1] = s->g[2] = s->g[3] = NONE;
    }
    return chr(l, wc);
}
/* the pieces prefixes are made of, besides the escape sequences */
static const struct { unsigned encs; const char *s; } PIECE[] = {
    { B(CN) | B(CNX) | B(KR) | B(JPMS), "\016" }, { B(CN) | B(CNX) | B(KR) | B(JPMS), "\017" },
    { B(JP2) | B(CN) | B(CNX) | B(KR) | B(HZ) | B(U7), "\n" }, { B(JP2) | B(CN) | B(CNX), "\r" },
    { ~0u, "!!" }, { B(CN) | B(CNX), "\033N!!" }, { B(CNX), "\033O!!" }, { B(JP2), "\033Na" },
    { B(JP3), "+D" },
    { B(HZ), "~{" }, { B(HZ), "~}" }, { B(HZ), "~~" }, { B(HZ), "~\n" },
    { B(U7), "+" }, { B(U7), "-" }, { B(U7), "AGE" }, { B(U7), "2ADcAAB" }, { B(U7), "a" }, { B(U7), "ZQBl" },
};
#define NPIECE (sizeof PIECE / sizeof PIECE[0])
static const char *piece(int e, int k)
{
    if (k < 0) return "";
    if ((unsigned)k < NSEQ) return SEQ[k].encs & B(e) ? SEQ[k].seq : 0;
    k -= NSEQ;
    return (unsigned)k < NPIECE && PIECE[k].encs & B(e) ? PIECE[k].s : 0;
}
void h_npieces(void) { sa_out("pieces", NSEQ + NPIECE); for (int e = JP; e <= U7; e++) { uint64_t m = 0; for (unsigned k = 0; k < NSEQ + NPIECE; k++) if (piece(e, (int)k)) m |= (uint64_t)1 << k; sa_out(e == JP ? "m0" : e == JP1 ? "m1" : e == JP2 ? "m2" : e == JPMS ? "m3" : e == JP3 ? "m4" : e == CN ? "m5" : e == CNX ? "m6" : e == KR ? "m7" : e == HZ ? "m8" : "m9", m); } }
/* prefix of pieces a and b, then nsym arbitrary bytes */
void h_esc(int e, int a, int b, int nsym)
{
    const char *pa = piece(e, a), *pb = piece(e, b);
    if (!pa || !pb) return;
    int n = 0;
    unsigned char *in = sa_output("in", 64);
    for (; *pa; pa++) in[n++] = (unsigned char)*pa;
    for (; *pb; pb++) in[n++] = (unsigned char)*pb;
    int sym = n;
    for (int i = 0; i < nsym; i++) in[n++] = sa_u8("b", 0, 255);
    for (int i = 0; i < 8; i++) in[n++] = e == U7 ? 'A' : 0x21;
    conv_t cd = mk(EI[e]);
    struct st s = { { e == JP || e == JP1 || e == JP2 || e == JPMS || e == JP3 || e == CN || e == CNX || e == KR ? ASCII : NONE, NONE, NONE, NONE }, 0, 0, 0, 0, 0 };
    int pos = 0;
    for (int step = 0; step < 12; step++) {
        int last = pos >= sym, sh = 0;
        ucs4_t wc = 0;
        int r = (int)sa_part((uint64_t)(int64_t)cd->ifuncs.xxx_mbtowc(cd, &wc, in + pos, (size_t)(n - pos)));
        struct out o;
        for (;;) {
            o = spec(e, &s, in + pos + sh);
            if (o.kind != SHIFT) break;
            sh += o.len;
            if (pos + sh > n - 8) { sa_reach("esc:end"); return; }      /* ran into the padding */
        }
        if (last) sa_reach(o.kind == BAD ? "esc:bad" : sh ? "esc:shift" : "esc:char");
        if (o.kind == BAD) {
            sa_check(r < 0, "esc: a sequence the encoding does not define is accepted");
            sa_check(r >= 0 || r == RET_SHIFT_ILSEQ(sh), "esc: a sequence the encoding does not define is not rejected where it stands");
            return;
        }
        sa_check(r >= 0, "esc: a sequence the encoding defines is not accepted");
        sa_check(r < 0 || r == sh + o.len, "esc: a sequence is read with another length than the encoding defines");
        sa_check(r < 0 || wc == o.wc, "esc: after these shift sequences the bytes denote another character");
        pos += sh + o.len;
        if (last && !s.pend) break;
    }
    reiconv_handle_close((reiconv_t)cd);
}
