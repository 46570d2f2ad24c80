/* Obligations on the conversion loop and the calls built on it: the library's own loop runs over a converter pair
   that is as general as the converter contract allows, and is compared with the loop the documentation describes. */
#include "iconv.c"
#include "sa.h"
#include "builtins.h"

#define MAXIN 6
#define FL (MAXIN + 1)                  /* slot of the character a flush delivers */
static unsigned char *BASE, *IEND;      /* the input the caller owns */
static unsigned char K[2][FL + 1], NS[FL + 1];        /* decoder: outcome by state and position, next state */
static uint32_t WC[FL + 1];                           /* decoder: character */
static unsigned char L[2][2][FL + 1], ES[2][2][FL + 1]; /* encoder: length (3: none) and next state, by state, for the character itself or U+FFFD in its place */
static unsigned char RL[2];                           /* length of the return sequence by encoder state */
static unsigned CUR;                                  /* slot of the character last delivered */
static int BOM;
static unsigned PRE;                                  /* plain characters, PRELEN bytes each when encoded, before the general ones */
#define PRELEN 7
#define PRESLOT (FL + 1)

enum { TOOFEW0, ILSEQ0, ILSEQ1, SHIFT1, CHAR1, CHAR2, CHAR0, NKIND };

/* what the converters do, as pure functions, so that both loops see the same converter */
static int d_step(unsigned pos, size_t n, unsigned st, unsigned *nst)
{
    unsigned k = (unsigned)sa_part(K[st][pos]);
    if (k == CHAR0 && !st) k = CHAR1;
    if ((k == ILSEQ1 || k == CHAR2) && n < 2) k = TOOFEW0;
    *nst = k == TOOFEW0 ? st : k == CHAR0 ? 0 : NS[pos];
    switch (k) {
    case TOOFEW0: return RET_TOOFEW(0);
    case ILSEQ0: return RET_SHIFT_ILSEQ(0);
    case ILSEQ1: return RET_SHIFT_ILSEQ(1);
    case SHIFT1: return RET_TOOFEW(1);
    case CHAR1: return 1;
    case CHAR2: return 2;
    default: return 0;
    }
}
static int e_step(unsigned slot, int repl, unsigned st, unsigned *nst)
{
    unsigned l = (unsigned)sa_part(L[st][repl][slot]);
    *nst = ES[st][repl][slot];
    return l == 3 ? -1 : (int)l;
}
static unsigned char e_byte(unsigned slot, int repl, unsigned st, int i) { return (unsigned char)(slot * 16 + repl * 8 + st * 4 + i + 1); }

static int s_mbtowc(conv_t cd, ucs4_t *pwc, const unsigned char *s, size_t n)
{
    sa_check(n >= 1, "pre: the decoder is called without input");
    sa_check(s >= BASE && s + n <= IEND, "pre: the decoder is given bytes the caller does not own");
    unsigned nst, pos = (unsigned)sa_part(s - BASE);
    if (pos < PRE) { *pwc = 'A'; CUR = PRESLOT; return 1; }
    pos -= PRE;
    int r = d_step(pos, n, (unsigned)sa_part(cd->istate), &nst);
    cd->istate = nst;
    if (BOM && r != RET_TOOFEW(0)) cd->ibyteorder ^= 1;
    if (r >= 0) { *pwc = WC[pos]; CUR = pos; }
    return r;
}
static int s_wctomb(conv_t cd, unsigned char *r, ucs4_t wc, size_t n)
{
    sa_check(n >= 1, "pre: the encoder is called without room");
    sa_check(sa_room(r) >= n, "pre: the encoder is promised more room than there is");
    if (CUR == PRESLOT) {
        sa_check(wc == 'A', "pre: the encoder is given another character than the decoder delivered");
        if (n < PRELEN) return RET_TOOSMALL;
        for (int i = 0; i < PRELEN; i++) r[i] = (unsigned char)(0xa0 + i);
        return PRELEN;
    }
    unsigned st = (unsigned)sa_part(cd->ostate), nst;
    int repl = wc == 0xfffd;
    sa_check(repl || wc == WC[CUR], "pre: the encoder is given another character than the decoder delivered");
    int l = e_step(CUR, repl, st, &nst);
    if (l < 0) return RET_ILUNI;
    if ((size_t)l > n) return RET_TOOSMALL;
    for (int i = 0; i < l; i++) r[i] = e_byte(CUR, repl, st, i);
    cd->ostate = nst;
    return l;
}
static int s_flushwc(conv_t cd, ucs4_t *pwc) { if (sa_part(cd->istate)) { *pwc = WC[FL]; CUR = FL; cd->istate = 0; return 1; } return 0; }
static int s_reset(conv_t cd, unsigned char *r, size_t n)
{
    sa_check(n == 0 || sa_room(r) >= n, "pre: the encoder's reset is promised more room than there is");
    unsigned st = (unsigned)sa_part(cd->ostate);
    unsigned l = (unsigned)sa_part(RL[st]);
    if (l > n) return RET_TOOSMALL;
    for (unsigned i = 0; i < l; i++) r[i] = (unsigned char)(0xe0 + st + i);
    return (int)l;
}

/* lite: for the calls built on the loop, a smaller choice of single steps suffices */
static void world_(int nin, unsigned pre, int lite)
{
    sa_join(2);
    for (int i = 0; i <= nin; i++) {
        int p = i == nin ? FL : i;
        K[0][p] = sa_u8("k0", 0, NKIND - 1); K[1][p] = sa_u8("k1", 0, NKIND - 1); NS[p] = sa_u8("ns", 0, 1);
        WC[p] = sa_u32("wc", 0, 0x10ffff);
        sa_assume(WC[p] != 0xfffd);
        L[0][0][p] = sa_u8("l00", 0, 3); L[0][1][p] = sa_u8("l01", 0, 3); L[1][0][p] = sa_u8("l10", 0, 3); L[1][1][p] = sa_u8("l11", 0, 3);
        ES[0][0][p] = sa_u8("e00", 0, 1); ES[0][1][p] = sa_u8("e01", 0, 1); ES[1][0][p] = sa_u8("e10", 0, 1); ES[1][1][p] = sa_u8("e11", 0, 1);
    }
    RL[0] = lite ? 0 : sa_u8("rl0", 0, 1); RL[1] = sa_u8("rl1", lite, 2);
    if (lite) for (int i = 0; i <= nin; i++) {
        int p = i == nin ? FL : i;
        static const unsigned char map[4] = { TOOFEW0, ILSEQ0, SHIFT1, CHAR1 };
        K[0][p] = map[sa_u8("kk0", 0, 3)]; K[1][p] = map[sa_u8("kk1", 0, 3)];
        L[0][1][p] = L[1][1][p] = 1; ES[0][1][p] = 0; ES[1][1][p] = 1;
        L[1][0][p] = i & 1 ? 1 : 2; ES[1][0][p] = i & 1;
    }
    PRE = pre;
    BASE = sa_input("in", pre + nin); IEND = BASE + pre + nin;
}
static void world(int nin) { world_(nin, 0, 0); }
/* opts: 1 discard, 2 no flush function, 4 no reset function, 8 decoder starts in state 1, 16 encoder starts in state 1 */
static conv_t mkcd(int opts)
{
    conv_t cd = (conv_t)reiconv_open_from_index(ei_ascii, ei_ascii, (opts & 1) ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS);
    cd->ifuncs.xxx_mbtowc = s_mbtowc;
    cd->ifuncs.xxx_flushwc = (opts & 2) ? NULL : s_flushwc;
    cd->ofuncs.xxx_wctomb = s_wctomb;
    cd->ofuncs.xxx_reset = (opts & 4) ? NULL : s_reset;
    return cd;
}

/* The conversion as documented. */
struct ref { unsigned ist, ost; size_t in, out; long result; int err; unsigned char buf[16]; };
static int ref_put(struct ref *x, unsigned slot, size_t room, int disc)
{
    unsigned nst;
    int l = e_step(slot, 0, x->ost, &nst), repl = 0;
    long lost = 0;
    if (l < 0) {
        if (WC[slot] >= 0xe0000 && WC[slot] <= 0xe007f) return 0;            /* language tags vanish */
        lost = 1;
        if (disc) { x->result++; return 0; }
        repl = 1;
        l = e_step(slot, repl, x->ost, &nst);
        if (l < 0) return EILSEQ;
    }
    if ((size_t)l > room - x->out) return E2BIG;
    for (int i = 0; i < l; i++) if (x->out + i < sizeof x->buf) x->buf[x->out + i] = e_byte(slot, repl, x->ost, i);
    x->out += l; x->ost = nst; x->result += lost;
    return 0;
}
static void ref_convert(struct ref *x, size_t nin, size_t room, int disc)
{
    x->result = 0; x->err = 0;
    while (x->in < nin) {
        unsigned nst;
        x->ist = (unsigned)sa_part(x->ist);
        int r = d_step((unsigned)x->in, nin - x->in, x->ist, &nst);
        if (r >= 0) {
            x->ost = (unsigned)sa_part(x->ost);
            int e = ref_put(x, (unsigned)x->in, room, disc);
            if (e) { x->err = e; x->result = -1; return; }
            x->ist = nst; x->in += r;
        } else if (r == RET_TOOFEW(0)) { x->err = EINVAL; x->result = -1; return; }
        else if (r == RET_TOOFEW(1)) { x->ist = nst; x->in += 1; }
        else {
            x->ist = nst; x->in += r == RET_SHIFT_ILSEQ(1) ? 1 : 0;
            if (!disc) { x->err = EILSEQ; x->result = -1; return; }
            x->in += 1;
        }
    }
}

static void ref_flush(struct ref *x, size_t room, int opts)
{
    x->result = 0; x->err = 0;
    x->ist = (unsigned)sa_part(x->ist); x->ost = (unsigned)sa_part(x->ost);
    if (x->ist && !(opts & 2)) {
        int e = ref_put(x, FL, room, opts & 1);
        x->ost = (unsigned)sa_part(x->ost);
        if (e) { x->err = e; x->result = -1; return; }
        x->ist = 0;
    }
    unsigned l = (opts & 4) ? 0 : (unsigned)sa_part(RL[x->ost]);
    if (l > room - x->out) { x->err = E2BIG; x->result = -1; return; }
    for (unsigned i = 0; i < l; i++) if (x->out + i < sizeof x->buf) x->buf[x->out + i] = (unsigned char)(0xe0 + x->ost + i);
    x->out += l; x->ist = x->ost = 0;
}

void h_loop(int opts, int nin, int nout)
{
    world(nin);
    conv_t cd = mkcd(opts);
    struct ref x = {0};
    x.ist = (unsigned)((opts >> 3) & 1); x.ost = (unsigned)((opts >> 4) & 1);
    cd->istate = x.ist; cd->ostate = x.ost;
    cd->ibyteorder = 5;
    unsigned char *o = sa_output("out", nout);
    ref_convert(&x, nin, nout, opts & 1);
    char *ip = (char *)BASE, *op = (char *)o;
    size_t il = nin, ol = nout;
    errno = 0;
    size_t res = reiconv_iconv(cd, &ip, &il, &op, &ol);
    sa_reach(x.err == E2BIG ? "loop:full" : x.err == EILSEQ ? "loop:invalid" : x.err == EINVAL ? "loop:incomplete" : "loop:done");
    sa_check((unsigned char *)ip - BASE == (long)x.in, "position: input pointer does not stop where conversion stopped");
    sa_check(il == nin - x.in, "position: input count disagrees with the input pointer");
    sa_check((unsigned char *)op - o == (long)x.out, "position: output pointer does not follow the bytes produced");
    sa_check(ol == nout - x.out, "position: output count disagrees with the output pointer");
    sa_check(res == (size_t)x.result, "result: wrong return value");
    if (x.result == -1) sa_check(errno == x.err, "result: wrong error code");
    sa_check(cd->istate == x.ist, "state: decoder state after the call does not match the input consumed");
    sa_check(cd->ostate == x.ost, "state: encoder state after the call does not match the output produced");
    sa_check(cd->ibyteorder == 5, "state: the loop changes the byte order");
    sa_check(sa_extent(o) <= x.out, "beyond: bytes past the reported output are written");
    for (unsigned i = 0; i < x.out; i++) sa_check(o[i] == x.buf[i], "bytes: output differs");
}

static int same_out(const unsigned char *a, const unsigned char *b, size_t n) { for (size_t i = 0; i < n; i++) sa_check(a[i] == b[i], "bytes: output differs from the uninterrupted conversion"); return 1; }

/* interrupted by a full output buffer after any number of bytes, then continued */
void h_resume(int opts, int nin, int nout)
{
    world(nin);
    conv_t a = mkcd(opts), b = mkcd(opts);
    unsigned s1 = (unsigned)((opts >> 3) & 1), s2 = (unsigned)((opts >> 4) & 1);
    a->istate = b->istate = s1; a->ostate = b->ostate = s2;
    unsigned char *o = sa_output("o1", 16), *q = sa_output("o2", 16);
    char *ip = (char *)BASE, *op = (char *)o; size_t il = nin, ol = nout;
    size_t r = reiconv_iconv(a, &ip, &il, &op, &ol), first = r;
    int e = r == (size_t)-1 ? errno : 0;
    if (e != E2BIG) return;
    sa_reach("resume:full");
    ol += 16 - nout;
    r = reiconv_iconv(a, &ip, &il, &op, &ol);
    e = r == (size_t)-1 ? errno : 0;
    char *ip2 = (char *)BASE, *op2 = (char *)q; size_t il2 = nin, ol2 = 16;
    size_t r2 = reiconv_iconv(b, &ip2, &il2, &op2, &ol2);
    int e2 = r2 == (size_t)-1 ? errno : 0;
    sa_check(e == e2, "result: a conversion continued after a full buffer ends differently");
    sa_check(il == il2 && ip == ip2, "position: a conversion continued after a full buffer stops elsewhere");
    sa_check(ol == ol2, "position: a conversion continued after a full buffer produces another amount");
    sa_check(a->istate == b->istate && a->ostate == b->ostate, "state: a conversion continued after a full buffer ends in another state");
    if (ol == ol2) same_out(o, q, 16 - ol);
}

/* input handed over in two pieces */
void h_split(int opts, int nin, int cut)
{
    world(nin);
    conv_t a = mkcd(opts), b = mkcd(opts);
    unsigned s1 = (unsigned)((opts >> 3) & 1), s2 = (unsigned)((opts >> 4) & 1);
    a->istate = b->istate = s1; a->ostate = b->ostate = s2;
    unsigned char *o = sa_output("o1", 16), *q = sa_output("o2", 16);
    char *ip = (char *)BASE, *op = (char *)o; size_t il = cut, ol = 16;
    IEND = BASE + cut;
    size_t r = reiconv_iconv(a, &ip, &il, &op, &ol);
    IEND = BASE + nin;
    int e = r == (size_t)-1 ? errno : 0;
    if (e != 0 && e != EINVAL) return;
    sa_reach(e ? "split:carried" : "split:clean");
    il += nin - cut;
    r = reiconv_iconv(a, &ip, &il, &op, &ol);
    e = r == (size_t)-1 ? errno : 0;
    char *ip2 = (char *)BASE, *op2 = (char *)q; size_t il2 = nin, ol2 = 16;
    size_t r2 = reiconv_iconv(b, &ip2, &il2, &op2, &ol2);
    int e2 = r2 == (size_t)-1 ? errno : 0;
    sa_check(e == e2, "result: input given in pieces ends differently");
    sa_check(il == il2 && ip == ip2, "position: input given in pieces stops elsewhere");
    sa_check(ol == ol2, "position: input given in pieces produces another amount");
    sa_check(a->istate == b->istate && a->ostate == b->ostate, "state: input given in pieces ends in another state");
    if (ol == ol2) same_out(o, q, 16 - ol);
}

/* flush */
void h_flush(int opts, int unused, int nout)
{
    world(1);
    conv_t cd = mkcd(opts);
    struct ref x = {0};
    x.ist = (unsigned)((opts >> 3) & 1); x.ost = (unsigned)((opts >> 4) & 1);
    cd->istate = x.ist; cd->ostate = x.ost; cd->ibyteorder = 5;
    unsigned char *o = sa_output("out", nout);
    ref_flush(&x, nout, opts);
    char *op = (char *)o; size_t ol = nout;
    char *none = NULL; size_t zero = 0;
    errno = 0;
    size_t res = sa_part(sa_u32("how", 0, 1)) ? reiconv_iconv(cd, &none, &zero, &op, &ol) : reiconv_iconv(cd, NULL, NULL, &op, &ol);
    sa_reach(x.err == E2BIG ? "flush:full" : x.err == EILSEQ ? "flush:invalid" : "flush:done");
    sa_check(res == (size_t)x.result, "result: wrong return value of a flush");
    if (x.result == -1) sa_check(errno == x.err, "result: wrong error code of a flush");
    sa_check((unsigned char *)op - o == (long)x.out, "position: output pointer does not follow the bytes flushed");
    sa_check(ol == nout - x.out, "position: output count disagrees with the output pointer");
    sa_check(cd->istate == x.ist, "state: decoder state after a flush");
    sa_check(cd->ostate == x.ost, "state: encoder state after a flush");
    sa_check(cd->ibyteorder == 5, "state: a flush changes the byte order");
    sa_check(sa_extent(o) <= x.out, "beyond: bytes past the reported output are written");
    for (unsigned i = 0; i < x.out; i++) sa_check(o[i] == x.buf[i], "bytes: flushed output differs");
}
/* reset without output */
void h_zero(int opts)
{
    world(1);
    conv_t cd = mkcd(opts);
    cd->istate = sa_u32("ist", 0, 0xffffffffu); cd->ostate = sa_u32("ost", 0, 0xffffffffu); cd->ibyteorder = 5;
    char *none = NULL; size_t zero = 0, ol = 4; char *nout = NULL;
    unsigned how = (unsigned)sa_part(sa_u32("how", 0, 3));
    size_t r = reiconv_iconv(cd, how & 1 ? &none : NULL, &zero, how & 2 ? &nout : NULL, &ol);
    sa_reach("zero:done");
    sa_check(r == 0, "result: reset fails");
    sa_check(cd->istate == 0 && cd->ostate == 0, "state: reset does not return to the initial state");
    sa_check(cd->ibyteorder == 5, "state: reset changes the byte order");
}

/* ---- whole-string calls */
static void start(conv_t cd, int opts) { BOM = 1; cd->ibyteorder = (state_t)((opts >> 5) & 1); }
/* full conversion with unlimited room: final length, or the error */
static int ref_whole(struct ref *x, size_t nin, size_t room, int opts, int drop_tail)
{
    ref_convert(x, nin, room, opts & 1);
    if (x->err && !(x->err == EINVAL && drop_tail)) return x->err == EINVAL ? EILSEQ : x->err;
    ref_flush(x, room, opts);
    return x->err;
}
static void settled(conv_t cd, int opts, int order)
{
    sa_check(cd->istate == 0 && cd->ostate == 0, "state: the call leaves a shift state in the descriptor");
    if (order) sa_check(cd->ibyteorder == (state_t)((opts >> 5) & 1), "state: measuring changes the byte order");
}

/* big: as many plain characters before, so that the result is longer than any buffer on the stack would be */
void h_size(int opts, int nin, int big)
{
    world_(nin, (unsigned)big, 1);
    conv_t cd = mkcd(opts);
    start(cd, opts);
    errno = 0;
    size_t r = reiconv_result_size(cd, (const char *)BASE, PRE + nin);
    int err = errno;
    struct ref x = {0};
    x.out = (size_t)PRE * PRELEN;
    int e = ref_whole(&x, nin, (size_t)1 << 40, opts, 0);
    sa_reach(e ? "size:error" : PRE ? "size:long" : "size:ok");
    if (e) { sa_check(r == (size_t)-1, "size: measuring input that cannot be converted does not fail"); sa_check(err == e, "result: wrong error code from measuring"); }
    else sa_check(r == x.out, "size: the measured size is not the size of the result");
    settled(cd, opts, 1);
}

void h_static(int opts, int nin, int nout)
{
    world_(nin, 0, 1);
    conv_t cd = mkcd(opts);
    start(cd, opts);
    unsigned char *o = sa_output("out", nout);
    struct ref x = {0};
    int e = ref_whole(&x, nin, nout, opts, 1);
    errno = 0;
    int r = reiconv_convert_static_size(cd, (const char *)BASE, nin, (char *)o, nout);
    sa_reach(e == E2BIG ? "static:full" : e ? "static:error" : "static:ok");
    if (e) { sa_check(r == -1, "result: a failed conversion is reported as success"); sa_check(errno == e, "result: wrong error code"); }
    else {
        sa_check(r == 0, "result: a conversion that fits is reported as failed");
        sa_check(sa_extent(o) <= x.out, "beyond: the rest of the buffer is changed");
        for (unsigned i = 0; i < x.out; i++) sa_check(o[i] == x.buf[i], "bytes: result differs");
    }
    settled(cd, opts, 0);
}

/* mode 0: fresh buffer, 1: caller's heap buffer, 2: no place for the result; +4: no place for the length; +8: allocation may fail */
void h_conv(int opts, int nin, int mode)
{
    world_(nin, 0, 1);
    conv_t cd = mkcd(opts);
    start(cd, opts);
    struct ref x = {0};
    int e = ref_whole(&x, nin, (size_t)1 << 40, opts, 0);
    char *p = NULL;
    if (mode & 1) { p = malloc(3); p[0] = 1; }
    size_t len = 77;
    if (mode & 8) sa_alloc_may_fail(1);
    errno = 0;
    int r = reiconv_convert(cd, (const char *)BASE, nin, (mode & 2) ? NULL : &p, (mode & 4) ? NULL : &len);
    sa_alloc_may_fail(0);
    if (mode & 2) { sa_reach("conv:noplace"); sa_check(r == -1, "result: a conversion without a place for the result succeeds"); if (!e) sa_check(errno == EINVAL, "result: wrong error code"); }
    else if (e) { sa_reach("conv:error"); sa_check(r == -1, "result: a failed conversion is reported as success"); sa_check(errno == e, "result: wrong error code"); }
    else if (r == 0) {
        sa_reach("conv:ok");
        if (!(mode & 4)) sa_check(len == x.out, "size: the reported length is not the length of the result");
        sa_check(p != NULL && sa_is_live(p), "memory: the result is not an allocated buffer");
        sa_check(sa_objsize(p) >= x.out, "memory: the result buffer is shorter than the result");
        for (unsigned i = 0; i < x.out; i++) sa_check((unsigned char)p[i] == x.buf[i], "bytes: result differs");
    } else if (!(mode & 4)) {   /* without a place for the length, success and failure are both tolerated */
        sa_reach("conv:nomem");
        sa_check((mode & 8) && errno == ENOMEM, "result: a conversion that should succeed fails");
    }
    if (p) sa_check(sa_is_live(p), "memory: the caller is left with a pointer to freed memory");
    sa_check(sa_heap_live() == 1 + (p != NULL), "memory: the call loses memory or the descriptor");
    settled(cd, opts, 0);
    sa_check(reiconv_handle_close(cd) == 0, "result: closing fails");
    sa_check(sa_heap_live() == (p != NULL), "memory: closing does not release the descriptor");
}

/* two conversions on one descriptor: the second does not depend on the first */
void h_again(int opts, int nin, int which)
{
    world_(nin, 0, 1);
    conv_t cd = mkcd(opts);
    start(cd, opts);
    unsigned char *o = sa_output("o1", 16), *q = sa_output("o2", 16);
    char *p1 = NULL; size_t l1;
    int r1 = which == 0 ? reiconv_convert(cd, (const char *)BASE, nin, &p1, &l1) : which == 1 ? reiconv_convert_static_size(cd, (const char *)BASE, nin, (char *)o, 1)
           : (int)reiconv_result_size(cd, (const char *)BASE, nin);
    cd->ibyteorder = (state_t)((opts >> 5) & 1);
    struct ref x = {0};
    int e = ref_whole(&x, nin, 16, opts, 1);
    errno = 0;
    int r = reiconv_convert_static_size(cd, (const char *)BASE, nin, (char *)q, 16);
    sa_reach(r1 == -1 ? "again:after-error" : "again:after-success");
    sa_check(r == (e ? -1 : 0), "state: an earlier conversion changes the outcome of a later one");
    if (!e) for (unsigned i = 0; i < x.out; i++) sa_check(q[i] == x.buf[i], "bytes: an earlier conversion changes the result of a later one");
}
