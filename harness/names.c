/* Obligations on name and codepage lookup and on opening. names_ref.inc is generated from encodings.h.snippet. */
#include "iconv.c"
#include "sa.h"
#ifdef ANY_STRCMP   /* for arbitrary names: comparison may come out either way */
#define strcmp builtin_strcmp
#endif
#include "builtins.h"
#ifdef ANY_STRCMP
#undef strcmp
int strcmp(const char *a, const char *b) { (void)*(volatile const char *)a; (void)*(volatile const char *)b; return (int)sa_u32("cmp", 0, 1); }
#endif
#include <cppp/encodings/reiconv.h>
struct known { const char *name; int idx; };
static const struct known KNOWN[] = {
#include "names_ref.inc"
};
static const struct { int cp, idx; } CPS[] = {
#include "cps_ref.inc"
};
#define NKNOWN (sizeof KNOWN / sizeof KNOWN[0])

static size_t spell(char *d, const char *s, int how)
{
    size_t n = 0;
    for (; *s; s++) {
        char c = *s;
        if ((how & 1) && c >= 'A' && c <= 'Z') c = (char)(c + 32);
        if (how & 2) d[n++] = '-';
        d[n++] = c;
        if (how & 4) d[n++] = '_';
    }
    d[n] = 0;
    return n;
}
void h_alias(int lo, int hi, int how)
{
    for (int k = lo; k < hi && (size_t)k < NKNOWN; k++) {
        char *b = sa_output("name", 256);
        spell(b, KNOWN[k].name, how);
        sa_note("alias", k);
        int r = reiconv_lookup_from_name(b);
        sa_check(r != -1, "name: a documented name is not found");
        sa_check(r == -1 || r == KNOWN[k].idx, "name: a documented name denotes another encoding");
        sa_reach("name:found");
    }
}
/* names that differ from a declared one in one byte: what they denote is collected */
void h_edit(int k, int pos, int how)
{
    char *b = sa_output("name", 256);
    const char *s = KNOWN[k].name;
    size_t n = 0;
    unsigned c = how == 2 ? 0 : sa_u8("c", 1, 255);
    for (int i = 0; ; i++) {
        if (i == pos && how == 1) b[n++] = (char)c;
        if (!s[i]) break;
        if (i == pos && how == 0) b[n++] = (char)c;
        else if (i != pos || how != 2) b[n++] = s[i];
    }
    b[n] = 0;
    int r = reiconv_lookup_from_name(b);
    sa_reach("edit:done");
    sa_collect("edit", r != -1, (uint64_t)(uint32_t)r << 8 | c);
}
void h_codepages(void)
{
    uint32_t cp = sa_u32("codepage", 0, 0xffffffffu);
    int r = reiconv_lookup_from_codepage((int)cp);
    sa_check(r >= -1 && r < ei_end, "codepage: lookup yields something that is neither an encoding nor -1");
    sa_collect("cp", r != -1, (uint64_t)cp << 32 | (uint32_t)r);
    sa_reach("codepage:done");
}
void h_canon(int n)
{
    sa_join(2);
    char *s = sa_output("name", n + 1), *o = sa_output("out", n + 1), want[16];
    unsigned k = 0;
    for (int i = 0; i < n; i++) {
        unsigned char c = sa_u8("c", 1, 255);
        s[i] = (char)c;
        if (c == '-' || c == '_') continue;
        want[k++] = (char)(c >= 'a' && c <= 'z' ? c - 32 : c);
    }
    s[n] = 0;
    size_t r = reiconv_name_canonicalize(s, o);
    sa_reach("canon:done");
    sa_check(r == k, "canon: wrong length");
    for (unsigned i = 0; i < k; i++) sa_check(o[i] == want[i], "canon: wrong character");
    sa_check(o[k] == 0, "canon: result is not terminated");
}
/* memory safety for arbitrary names: n arbitrary bytes after `fill` copies of a letter */
void h_anyname(int fill, int n)
{
    char *s = sa_output("name", fill + n + 1);
    for (int i = 0; i < fill; i++) s[i] = 'A';
    for (int i = 0; i < n; i++) s[fill + i] = (char)sa_u8("c", 1, 255);
    s[fill + n] = 0;
    int r = reiconv_lookup_from_name(s);
    sa_reach("anyname:done");
    sa_check(r >= -1 && r < ei_end, "name: lookup yields something that is neither an encoding nor -1");
}
void h_anyopen(int fill, int n)
{
    char *s = sa_output("name", fill + n + 1);
    for (int i = 0; i < fill; i++) s[i] = 'A';
    for (int i = 0; i < n; i++) s[fill + i] = (char)sa_u8("c", 1, 255);
    s[fill + n] = 0;
    int w = (int)sa_part(sa_u32("which", 0, 3));
    errno = 0;
    reiconv_t cd = w == 0 ? reiconv_open(s, "UTF-8") : w == 1 ? reiconv_open("UTF-8", s) : w == 2 ? reiconv_open_from_name(s, "UTF-8", REICONV_NO_FLAGS) : reiconv_open_from_name("UTF-8", s, REICONV_NO_FLAGS);
    sa_reach("anyopen:done");
    if (cd == (reiconv_t)-1) sa_check(errno == EINVAL, "open: an unknown name is refused with another error code");
    if (cd == (reiconv_t)-1) sa_check(sa_heap_live() == 0, "memory: a failed open loses memory");
    else sa_check(sa_heap_live() == 1 && sa_is_live(cd), "memory: open yields no descriptor");
}
static void opened(reiconv_t icd, int from, int to, int disc)
{
    conv_t cd = (conv_t)icd;
    sa_check(icd != (reiconv_t)-1 && icd != NULL, "open: opening a known pair fails");
    sa_check(sa_is_live(icd), "open: the descriptor is not allocated");
#ifdef HAVE_iindex
    sa_check(cd->iindex == from, "open: the source is not the one asked for");
#endif
    sa_check(cd->ifuncs.xxx_mbtowc == all_encodings[from].ifuncs.xxx_mbtowc && cd->ifuncs.xxx_flushwc == all_encodings[from].ifuncs.xxx_flushwc, "open: the decoder is not the source encoding's");
    sa_check(cd->ofuncs.xxx_wctomb == all_encodings[to].ofuncs.xxx_wctomb && cd->ofuncs.xxx_reset == all_encodings[to].ofuncs.xxx_reset, "open: the encoder is not the target encoding's");
    sa_check(cd->istate == 0 && cd->ostate == 0 && cd->ibyteorder == 0, "open: the descriptor does not start in the initial state");
    sa_check((cd->discard_ilseq != 0) == disc, "open: discarding of invalid input is not what was asked for");
}
static void closed(reiconv_t cd)
{
    sa_check(reiconv_handle_close(cd) == 0, "open: closing fails");
    sa_check(sa_heap_live() == 0, "memory: closing does not release the descriptor");
}
static void cat(char *d, const char *s) { while (*d) d++; while ((*d++ = *s++)) ; }
void h_open(int a, int b)
{
    static const char *const suf[] = { "", "//IGNORE", "//ignore", "//TRANSLIT", "//TRANSLIT//IGNORE" };
    for (int i = 0; i < 2; i++) {
        reiconv_t cd = reiconv_open_from_index(a, b, i ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS);
        opened(cd, a, b, i); closed(cd);
    }
    const char *na = 0, *nb = 0;
    for (size_t k = 0; k < NKNOWN; k++) { if (KNOWN[k].idx == a) na = KNOWN[k].name; if (KNOWN[k].idx == b) nb = KNOWN[k].name; }
    if (!na || !nb) return;
    for (int i = 0; i < 2; i++) {
        reiconv_t cd = reiconv_open_from_name(na, nb, i ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS);
        opened(cd, a, b, i); closed(cd);
    }
    for (int i = 0; i < 5; i++) {
        char *t = sa_output("to", 128), *f = sa_output("from", 128);
        t[0] = f[0] = 0; cat(t, nb); cat(t, suf[i]); cat(f, na);
        reiconv_t cd = reiconv_open(t, f);
        opened(cd, a, b, i == 1 || i == 2 || i == 4); closed(cd);
        t[0] = f[0] = 0; cat(f, na); cat(f, suf[i]); cat(t, nb);
        cd = reiconv_open(t, f);
        opened(cd, a, b, i == 1 || i == 2 || i == 4); closed(cd);
    }
    sa_reach("open:done");
    sa_alloc_may_fail(1);
    errno = 0;
    reiconv_t cd = reiconv_open_from_index(a, b, REICONV_NO_FLAGS);
    if (cd == (reiconv_t)-1) { sa_reach("open:nomem"); sa_check(errno == ENOMEM, "open: wrong error code without memory"); sa_check(sa_heap_live() == 0, "memory: a failed open loses memory"); }
    else opened(cd, a, b, 0);
}
void h_unknown(void)
{
    static const char *const bad[] = { "", "A", "NOSUCHENCODING", "UTF", "UTF-88", "/", "//IGNORE", "UTF 8", "ISO-8859-1x", "-", "_-_" };
    for (unsigned i = 0; i < sizeof bad / sizeof bad[0]; i++) {
        sa_note("bad", i);
        sa_check(reiconv_lookup_from_name(bad[i]) == -1, "name: a name nobody defined is accepted");
        for (int w = 0; w < 4; w++) {
            errno = 0;
            reiconv_t cd = w == 0 ? reiconv_open(bad[i], "UTF-8") : w == 1 ? reiconv_open("UTF-8", bad[i]) : w == 2 ? reiconv_open_from_name(bad[i], "UTF-8", REICONV_NO_FLAGS) : reiconv_open_from_name("UTF-8", bad[i], REICONV_NO_FLAGS);
            sa_check(cd == (reiconv_t)-1 && errno == EINVAL, "open: an unknown name is not refused");
        }
    }
    for (int i = 0; i < 2; i++) {
        uint32_t cp = sa_u32("badcp", 0, 0xffffffffu);
        if (reiconv_lookup_from_codepage((int)cp) != -1) sa_stop();
        errno = 0;
        reiconv_t cd = i ? reiconv_open_from_codepage((int)cp, 65001, REICONV_NO_FLAGS) : reiconv_open_from_codepage(65001, (int)cp, REICONV_NO_FLAGS);
        sa_check(cd == (reiconv_t)-1 && errno == EINVAL, "open: an unknown codepage is not refused");
    }
    sa_check(sa_heap_live() == 0, "memory: a failed open loses memory");
    sa_reach("unknown:done");
}
/* every target for one source: by index with any flag value, by name, by codepage */
void h_pairs(int a, int how, int lo, int n)
{
    const char *na = 0;
    for (size_t k = 0; k < NKNOWN; k++) if (KNOWN[k].idx == a) { na = KNOWN[k].name; break; }
    for (int b = lo; b < lo + n && b < ei_end; b++) {
        sa_note("to", b);
        if (how == 0) {
            for (int i = 0; i < 4; i++) {
                reiconv_t cd = reiconv_open_from_index(a, b, (enum ConvertFlag)i);
                opened(cd, a, b, i & 1); closed(cd);
            }
            continue;
        }
        const char *nb = 0;
        for (size_t k = 0; k < NKNOWN; k++) if (KNOWN[k].idx == b) { nb = KNOWN[k].name; break; }
        if (!na || !nb || reiconv_lookup_from_name(nb) != b || reiconv_lookup_from_name(na) != a) continue;
        for (int i = 0; i < 2; i++) {
            reiconv_t cd = reiconv_open_from_name(na, nb, i ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS);
            opened(cd, a, b, i); closed(cd);
            char t[128];
            t[0] = 0; cat(t, nb); if (i) cat(t, "//IGNORE");
            cd = reiconv_open(t, na);
            opened(cd, a, b, i); closed(cd);
        }
    }
    sa_reach("pairs:done");
}
void h_pairscp(int c1, int i1, size_t lo)
{
    for (size_t k = lo; k < lo + 50 && k < sizeof CPS / sizeof CPS[0]; k++)
        for (int i = 0; i < 2; i++) {
            sa_note("to", CPS[k].cp);
            reiconv_t cd = reiconv_open_from_codepage(c1, CPS[k].cp, i ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS);
            opened(cd, i1, CPS[k].idx, i); closed(cd);
        }
    sa_reach("pairs:done");
}
void h_opencp(int c1, int i1, int c2, int i2)
{
    for (int i = 0; i < 2; i++) {
        reiconv_t cd = reiconv_open_from_codepage(c1, c2, i ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS);
        opened(cd, i1, i2, i); closed(cd);
    }
    sa_reach("opencp:done");
}
void h_count(void)
{
    sa_out("encodings", sizeof all_encodings / sizeof all_encodings[0]); sa_out("end", ei_end);
}

/* the public index constants */
void h_index(void)
{
#define IDX(name, ei) sa_check(ENCODING_##name == ei, "index: the constant ENCODING_" #name " is not the index of its encoding"); n++;
    uint64_t n = 0;
#include "index_ref.inc"
    sa_out("indexes", n);
    sa_reach("index:done");
}
