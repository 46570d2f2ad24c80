/* Obligations on the per-encoding converters. The library is included whole. */
#include "iconv.c"
#include "sa.h"
#include "builtins.h"

static conv_t mk(int idx)
{
    conv_t cd = (conv_t)reiconv_open_from_index(idx, idx, REICONV_NO_FLAGS);
    return cd;
}
#define IS_ILSEQ(r) ((unsigned)(-1 - (r)) % 2 == 0)
static uint64_t pk(conv_t cd) { return (uint64_t)cd->istate | ((uint64_t)cd->ibyteorder << 32); }
static void unpk(conv_t cd, uint64_t v) { cd->istate = (state_t)v; cd->ibyteorder = (state_t)(v >> 32); }

/* reachable decoder and encoder states */
void h_ist(int idx, int nlo, int nhi)
{
    sa_join(1);
    conv_t cd = mk(idx);
    uint64_t st = sa_part(sa_state_in("i"));
    uint64_t n = sa_u64("n", nlo, nhi);
    const unsigned char *s = sa_input("in", n);
    ucs4_t wc;
    unpk(cd, st);
    int r = cd->ifuncs.xxx_mbtowc(cd, &wc, s, n);
    sa_reach("state:i");
    sa_state_out("i", pk(cd));
    sa_state_out("i", (uint64_t)cd->ibyteorder << 32);
}
void h_ost(int idx, int wlo, int whi)
{
    sa_join(1);
    conv_t cd = mk(idx);
    uint64_t st = sa_part(sa_state_in("o"));
    ucs4_t wc = sa_u32("wc", (unsigned)wlo, (unsigned)whi);
    unsigned char *r = sa_output("out", 32);
    cd->ostate = (state_t)st;
    int k = cd->ofuncs.xxx_wctomb(cd, r, wc, 32);
    sa_reach("state:o");
    if (k >= 0) sa_state_out("o", cd->ostate);
}

/* one decoding step from any reachable state, any input of nlo..nhi bytes */
void h_dec(int idx, int nlo, int nhi)
{
    sa_join(1);
    conv_t cd = mk(idx);
    uint64_t st = sa_part(sa_state_in("i"));
    uint64_t n = sa_u64("n", nlo, nhi);
    const unsigned char *s = sa_input("in", n);
    ucs4_t wc;
    unpk(cd, st);
    int r = (int)sa_part((uint64_t)(int64_t)cd->ifuncs.xxx_mbtowc(cd, &wc, s, n));
    if (r >= 0) {
        sa_reach(r ? "dec:char" : "dec:pending");
        sa_check((uint64_t)r <= n, "consume: decoder claims more bytes than it was given");
        sa_check(!sa_isundef(wc), "value: decoder reports a character without setting it");
    } else if (IS_ILSEQ(r)) {
        unsigned k = DECODE_SHIFT_ILSEQ(r);
        sa_reach("dec:ilseq");
        sa_check((uint64_t)k < n, "consume: invalid-input report lies outside the input");
    } else {
        unsigned k = DECODE_TOOFEW(r);
        sa_reach("dec:toofew");
        sa_check((uint64_t)k <= n, "consume: shift-sequence report lies outside the input");
    }
}

/* The result of a step does not depend on how much further input is already visible.
   One more visible byte at a time suffices: longer look-ahead follows by induction. */
void h_chunk(int idx, int nlo, int nhi)
{
    conv_t a = mk(idx), b = mk(idx);
    uint64_t st = sa_part(sa_state_in("i"));
    uint64_t n1 = sa_part(sa_u64("n", nlo, nhi)), n2 = n1 + 1;
    const unsigned char *s = sa_input("in", n2);
    ucs4_t wa, wb;
    unpk(a, st); unpk(b, st);
    int r1 = (int)sa_part((uint64_t)(int64_t)a->ifuncs.xxx_mbtowc(a, &wa, s, n1));
    int r2 = (int)sa_part((uint64_t)(int64_t)b->ifuncs.xxx_mbtowc(b, &wb, s, n2));
    if (r1 >= 0 || IS_ILSEQ(r1)) {
        sa_reach(r1 >= 0 ? "chunk:char" : "chunk:ilseq");
        sa_check(r1 == r2, "split: more visible input changes the outcome of a step");
        if (r1 >= 0) sa_check(wa == wb, "split: more visible input changes the decoded character");
        sa_check(pk(a) == pk(b), "split: more visible input changes the state");
    } else {
        unsigned k = DECODE_TOOFEW(r1);
        sa_reach(k ? "chunk:shift" : "chunk:toofew");
        if (k <= n1 && !(r1 == r2 && k && pk(a) == pk(b))) {
            int r3 = (int)sa_part((uint64_t)(int64_t)a->ifuncs.xxx_mbtowc(a, &wa, s + k, n2 - k));
            int want = r2 >= 0 ? r2 - (int)k : r2 + 2 * (int)k;
            sa_check(r3 == want, "split: continuing after a split differs from converting in one piece");
            if (r3 >= 0 && r3 == want) sa_check(wa == wb, "split: character decoded after a split differs");
            if (r3 == want) sa_check(pk(a) == pk(b), "split: state after a split differs");
        }
    }
}

/* A step that failed or was rolled back can be repeated. */
void h_redo(int idx, int nlo, int nhi)
{
    conv_t a = mk(idx);
    uint64_t st = sa_part(sa_state_in("i"));
    uint64_t n = sa_part(sa_u64("n", nlo, nhi));
    const unsigned char *s = sa_input("in", n);
    ucs4_t wa, wb;
    unpk(a, st);
    int r1 = (int)sa_part((uint64_t)(int64_t)a->ifuncs.xxx_mbtowc(a, &wa, s, n));
    uint64_t after = pk(a);
    if (r1 < 0 && (IS_ILSEQ(r1) || DECODE_TOOFEW(r1) == 0)) {
        /* the conversion stops here; the caller may try again at the position reported: same verdict, same state */
        unsigned k = IS_ILSEQ(r1) ? DECODE_SHIFT_ILSEQ(r1) : 0;
        sa_reach("redo:error");
        if (k < n) {
            int r2 = (int)sa_part((uint64_t)(int64_t)a->ifuncs.xxx_mbtowc(a, &wb, s + k, n - k));
            sa_check(r2 == (IS_ILSEQ(r1) ? RET_ILSEQ : RET_TOOFEW(0)), "redo: trying again at the reported position has a different outcome");
            sa_check(pk(a) == after, "redo: trying again at the reported position changes the state");
        }
    }
    if (r1 >= 0) {
        sa_reach("redo:char");
        a->istate = (state_t)st;   /* what the conversion loop does when the character did not fit */
        int r2 = (int)sa_part((uint64_t)(int64_t)a->ifuncs.xxx_mbtowc(a, &wb, s, n));
        sa_check(r1 == r2, "redo: repeating a step that was rolled back has a different outcome");
        if (r1 == r2) {
            sa_check(wa == wb, "redo: repeating a rolled-back step yields another character");
            sa_check(pk(a) == after, "redo: repeating a rolled-back step leaves another state");
        }
    }
}

void h_enc(int idx, int nlo, int nhi, int wlo, int whi)
{
    sa_join(1);
    conv_t cd = mk(idx);
    uint64_t st = sa_part(sa_state_in("o"));
    uint64_t n = sa_u64("n", nlo, nhi);
    ucs4_t wc = sa_u32("wc", (unsigned)wlo, (unsigned)whi);
    unsigned char *r = sa_output("out", n);
    cd->ostate = (state_t)st;
    int k = (int)sa_part((uint64_t)(int64_t)cd->ofuncs.xxx_wctomb(cd, r, wc, n));
    if (k >= 0) {
        sa_reach("enc:ok");
        sa_check((uint64_t)k <= n, "produce: encoder claims more bytes than there was room for");
        sa_check(sa_written(r, k), "produce: encoder reports bytes it did not write");
        sa_check(sa_extent(r) <= (uint64_t)k, "beyond: encoder writes past the bytes it reports");
        sa_state_out("o", cd->ostate);
    } else {
        sa_check(k == RET_ILUNI || k == RET_TOOSMALL, "produce: encoder result is not one of the defined codes");
        sa_reach(k == RET_ILUNI ? "enc:iluni" : "enc:toosmall");
        sa_check(cd->ostate == (state_t)st, "errstate: a character that was not encoded changes the shift state");
    }
    sa_check(cd->istate == 0 && cd->ibyteorder == 0, "errstate: encoder touches the decoder state");
}

/* The outcome of encoding a character does not depend on how much room there is, as long as it fits. */
void h_room(int idx, int nlo, int nhi, int wlo, int whi)
{
    conv_t a = mk(idx), b = mk(idx);
    uint64_t st = sa_part(sa_state_in("o"));
    ucs4_t wc = sa_u32("wc", (unsigned)wlo, (unsigned)whi);
    uint64_t n = sa_u64("n", nlo, nhi);
    unsigned char *p = sa_output("o1", n), *q = sa_output("o2", 32);
    a->ostate = b->ostate = (state_t)st;
    int r2 = (int)sa_part((uint64_t)(int64_t)b->ofuncs.xxx_wctomb(b, q, wc, 32));
    if (r2 >= 0) sa_state_out("o", b->ostate);
    int r1 = (int)sa_part((uint64_t)(int64_t)a->ofuncs.xxx_wctomb(a, p, wc, n));
    if (r1 >= 0) {
        sa_reach("room:fits");
        sa_check(r1 == r2, "room: more room changes the outcome of encoding a character");
        if (r1 == r2) {
            for (int i = 0; i < r1; i++) sa_check(p[i] == q[i], "room: more room changes the bytes produced");
            sa_check(a->ostate == b->ostate, "room: more room changes the state");
        }
    } else if (r1 == RET_ILUNI) {
        sa_reach("room:iluni");
        sa_check(r2 == RET_ILUNI, "room: an unencodable character becomes encodable with more room");
    } else {
        sa_reach("room:toosmall");
        if (r2 >= 0) sa_check((uint64_t)r2 > n, "fit: room is called too small although the character fits");
    }
}

void h_reset(int idx, int nlo, int nhi)
{
    sa_join(1);
    conv_t cd = mk(idx);
    uint64_t st = sa_part(sa_state_in("o"));
    if (!cd->ofuncs.xxx_reset) return;
    uint64_t n = sa_u64("n", nlo, nhi);
    unsigned char *r = sa_output("out", n);
    cd->ostate = (state_t)st;
    int k = (int)sa_part((uint64_t)(int64_t)cd->ofuncs.xxx_reset(cd, r, n));
    unsigned char *r2 = sa_output("out2", 64);
    conv_t c2 = mk(idx);
    c2->ostate = (state_t)st;
    int k2 = (int)sa_part((uint64_t)(int64_t)c2->ofuncs.xxx_reset(c2, r2, 64));
    if (k >= 0) {
        sa_reach("reset:ok");
        sa_check(k == k2, "room: what ends the text depends on the room there is");
        for (int i = 0; i < k && k == k2 && (uint64_t)k <= n && sa_written(r, k); i++) sa_check(r[i] == r2[i], "room: what ends the text depends on the room there is");
        sa_check((uint64_t)k <= n, "produce: reset claims more bytes than there was room for");
        sa_check(sa_written(r, k), "produce: reset reports bytes it did not write");
        sa_check(sa_extent(r) <= (uint64_t)k, "beyond: reset writes past the bytes it reports");
    } else {
        sa_check(k == RET_TOOSMALL, "produce: reset result is not one of the defined codes");
        sa_reach("reset:toosmall");
        sa_check(cd->ostate == (state_t)st, "errstate: a reset that did not fit changes the shift state");
        sa_check(k2 < 0 || (uint64_t)k2 > n, "fit: reset calls the room too small although it fits");
    }
}


static int feed(conv_t d, const unsigned char *b, int pos, int k, int *ngot, ucs4_t *got)
{   /* decode b[pos..k): position reached, or -1 if the bytes are rejected */
    ucs4_t x;
    for (int step = 0; step < 40 && pos < k; step++) {
        int r = (int)sa_part((uint64_t)(int64_t)d->ifuncs.xxx_mbtowc(d, &x, b + pos, k - pos));
        if (r >= 0) { *got = x; ++*ngot; pos += r; }
        else if (IS_ILSEQ(r)) return -1;
        else if (DECODE_TOOFEW(r) > 0) pos += DECODE_TOOFEW(r);
        else return pos;
    }
    return pos;
}
/* What the encoder writes for a character, the decoder of the same encoding reads back; flushing the encoder brings both to a state
   from which that holds again.  Key "p": decoder state and byte order paired with the encoder state the two have reached together. */
#define COLLECT(what, c) do { if (flushed) sa_collect(what "F", (c), wc); else if (fresh) sa_collect(what "0", (c), wc); else sa_collect(what, (c), wc); } while (0)
void h_rt(int idx, int act, int unused, int wlo, int whi)
{
    conv_t e = mk(idx), d = mk(idx);
    uint64_t st = sa_part(sa_state_in("p"));
    if (act == 2) act = (int)sa_part(sa_u64("act", 0, 1));
    e->ostate = (state_t)(st >> 32);
    d->istate = (state_t)(st & 0xfffffff); d->ibyteorder = (state_t)((st >> 28) & 0xf);
    ucs4_t wc = 0, got = 0, x;
    unsigned char *buf = sa_output("buf", 96);
    int ngot = 0, k = 0, pos, flushed = 0, fresh = st >> 32 == 0;
    if (!act) {
        wc = sa_u32("wc", (unsigned)wlo, (unsigned)whi);
        k = (int)sa_part((uint64_t)(int64_t)e->ofuncs.xxx_wctomb(e, buf, wc, 32));
        if (k < 0) { sa_reach("rt:unencodable"); return; }
        pos = feed(d, buf, 0, k, &ngot, &got);
        if (pos < 0) { COLLECT("bad", 1); sa_reach("rt:rejected"); return; }
        if (pos < k || !ngot) {   /* the rest of the character is still in the encoder */
            flushed = 1;
            sa_reach("rt:delayed");
            if (k == 0) sa_collect("held", 1, wc);
        } else {
            sa_reach("rt:ok");
            if (ngot != 1) { COLLECT("count", 1); return; }
            COLLECT("differs", got != wc);
        }
    } else pos = 0, flushed = 1;
    if (flushed) {
        if (e->ofuncs.xxx_reset) { int q = (int)sa_part((uint64_t)(int64_t)e->ofuncs.xxx_reset(e, buf + k, 64)); if (q > 0) k += q; }
        e->ostate = 0;
        pos = feed(d, buf, pos, k, &ngot, &got);
        if (!act) {
            if (pos < 0 || pos < k) { COLLECT("bad", 1); return; }
            if (!ngot && d->ifuncs.xxx_flushwc && sa_part(d->ifuncs.xxx_flushwc(d, &x))) { got = x; ngot++; d->istate = 0; }
            if (ngot != 1) { COLLECT("count", 1); return; }
            COLLECT("differs", got != wc);
            return;
        }
        sa_reach("rt:flush");
        sa_check(pos == k, "flush: the sequence that ends the text is not accepted by the decoder");
        sa_check(ngot <= 1, "flush: the sequence that ends the text decodes to several characters");
    }
    sa_check(d->istate <= 0xfffffff && d->ibyteorder <= 0xf, "harness: decoder state does not fit the analysed pair");
    sa_state_out("p", (uint64_t)e->ostate << 32 | (uint64_t)d->ibyteorder << 28 | d->istate);
}
/* Two characters, the first of which the encoder holds back to see whether the second combines with it. */
void h_rt2(int idx, int w1, int wlo, int whi)
{
    conv_t e = mk(idx), d = mk(idx);
    ucs4_t wc = sa_u32("wc", (unsigned)wlo, (unsigned)whi), got[6] = {0}, x;
    unsigned char *buf = sa_output("buf", 96);
    int k = (int)sa_part((uint64_t)(int64_t)e->ofuncs.xxx_wctomb(e, buf, (ucs4_t)w1, 32)), n = 0, pos = 0;
    if (k < 0) return;
    int q = (int)sa_part((uint64_t)(int64_t)e->ofuncs.xxx_wctomb(e, buf + k, wc, 32));
    if (q < 0) return;
    k += q;
    if (e->ofuncs.xxx_reset) { q = (int)sa_part((uint64_t)(int64_t)e->ofuncs.xxx_reset(e, buf + k, 64 - k)); if (q > 0) k += q; }
    for (int step = 0; step < 40 && pos < k; step++) {
        int r = (int)sa_part((uint64_t)(int64_t)d->ifuncs.xxx_mbtowc(d, &x, buf + pos, k - pos));
        if (r >= 0) { if (n < 6) got[n] = x; n++; pos += r; }
        else if (IS_ILSEQ(r)) { sa_collect("bad2", 1, wc); return; }
        else if (DECODE_TOOFEW(r) > 0) pos += DECODE_TOOFEW(r);
        else break;
    }
    if (pos < k) { sa_collect("bad2", 1, wc); return; }
    if (d->ifuncs.xxx_flushwc && sa_part(d->ifuncs.xxx_flushwc(d, &x))) { if (n < 6) got[n] = x; n++; }
    sa_reach("rt:pair");
    if (n != 2) { sa_collect("count2", 1, wc); return; }
    sa_collect("differs2", got[0] != (ucs4_t)w1 || got[1] != wc, wc);
}
/* Repertoires: the characters the decoder yields from any state, and those the encoder accepts. */
void h_yields(int idx, int n)
{
    conv_t d = mk(idx);
    uint64_t st = sa_part(sa_state_in("i"));
    const unsigned char *s = sa_input("in", n);
    ucs4_t wc;
    unpk(d, st);
    int r = (int)sa_part((uint64_t)(int64_t)d->ifuncs.xxx_mbtowc(d, &wc, s, n));
    if (r < 0) return;
    sa_reach("inv:decoded");
    sa_collect("yields", 1, wc);
}
void h_accepts(int idx, int wlo, int whi)
{
    conv_t e = mk(idx);
    ucs4_t wc = sa_u32("wc", (unsigned)wlo, (unsigned)whi);
    unsigned char *o = sa_output("out", 32);
    int k = (int)sa_part((uint64_t)(int64_t)e->ofuncs.xxx_wctomb(e, o, wc, 32));
    sa_collect("accepts", k >= 0, wc);
    sa_reach("inv:encoded");
}
/* A decoder that delivers a character without consuming input does so only finitely often. */
void h_prog(int idx, int nlo, int nhi)
{
    conv_t d = mk(idx);
    uint64_t st = sa_part(sa_state_in("i"));
    uint64_t n = sa_part(sa_u64("n", nlo, nhi));
    const unsigned char *s = sa_input("in", n);
    ucs4_t wc;
    unpk(d, st);
    int r = 0, i;
    for (i = 0; i < 3 && r == 0; i++) r = (int)sa_part((uint64_t)(int64_t)d->ifuncs.xxx_mbtowc(d, &wc, s, n));
    sa_reach(i > 1 ? "prog:pending" : "prog:step");
    sa_check(r != 0, "progress: decoder keeps delivering characters without consuming input");
}
/* Flushing the decoder delivers a pending character once. */
void h_flushwc(int idx, int nlo, int nhi)
{
    conv_t d = mk(idx), c = mk(idx);
    uint64_t st = sa_part(sa_state_in("i"));
    if (!d->ifuncs.xxx_flushwc) return;
    ucs4_t wc, w2;
    unpk(d, st);
    int f = (int)sa_part((uint64_t)(int64_t)d->ifuncs.xxx_flushwc(d, &wc));
    sa_reach(f ? "flushwc:pending" : "flushwc:none");
    sa_check(f == 0 || f == 1, "flush: result is not one of the defined codes");
    if (f) {
        sa_check(!sa_isundef(wc), "value: flush reports a character without setting it");
        int f2 = (int)sa_part((uint64_t)(int64_t)d->ifuncs.xxx_flushwc(d, &w2));
        sa_check(f2 == 0, "flush: a pending character is delivered twice");
        /* it is the character that further input would have delivered, unless that input combines with it */
        const unsigned char *s = sa_input("in", 1);
        unpk(c, st);
        int r = (int)sa_part((uint64_t)(int64_t)c->ifuncs.xxx_mbtowc(c, &w2, s, 1));
        if (r == 0) { sa_reach("flushwc:same"); sa_check(w2 == wc, "flush: the pending character is not the one further input would deliver"); }
    }
}
/* How much input the loop skips after invalid input when discarding. */
static unsigned char *U_BASE;
static int u_mbtowc(conv_t cd, ucs4_t *pwc, const unsigned char *s, size_t n) { return s == U_BASE ? RET_SHIFT_ILSEQ(0) : RET_TOOFEW(0); }
void h_unit(int idx)
{
    conv_t cd = (conv_t)reiconv_open_from_index(idx, ei_ascii, REICONV_DISCARD_ILSEQ);
    cd->ifuncs.xxx_mbtowc = u_mbtowc;
    unsigned char *s = sa_input("in", 16), *o = sa_output("out", 4);
    U_BASE = s;
    char *ip = (char *)s, *op = (char *)o; size_t il = 16, ol = 4;
    reiconv_iconv(cd, &ip, &il, &op, &ol);
    sa_reach("unit:done");
    sa_out("unit", 16 - il);
}
/* Invalid input is only reported where a whole unit can be skipped. */
void h_skip(int idx, int unit, int nhi)
{
    sa_join(1);
    conv_t cd = mk(idx);
    uint64_t st = sa_part(sa_state_in("i"));
    uint64_t n = sa_u64("n", 1, nhi);
    const unsigned char *s = sa_input("in", n);
    ucs4_t wc;
    unpk(cd, st);
    int r = (int)sa_part((uint64_t)(int64_t)cd->ifuncs.xxx_mbtowc(cd, &wc, s, n));
    if (r < 0 && IS_ILSEQ(r)) {
        sa_reach("skip:ilseq");
        sa_check((uint64_t)DECODE_SHIFT_ILSEQ(r) + unit <= n, "skip: discarding invalid input skips past its end");
    }
}
