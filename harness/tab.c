/* Character tables against the reference mappings (tab_ref.inc, generated from tests/data on every run). */
#include "iconv.c"
#include "sa.h"
#include "builtins.h"
#include "tab_ref.inc"
static conv_t mk(int idx) { return (conv_t)reiconv_open_from_index(idx, idx, REICONV_NO_FLAGS); }
/* every byte */
void h_sdec(int k)
{
    conv_t cd = mk(SREF[k].ei);
    const unsigned char *s = sa_input("in", 1);
    ucs4_t wc;
    sa_join(1);
    int r = (int)sa_part((uint64_t)(int64_t)cd->ifuncs.xxx_mbtowc(cd, &wc, s, 1));
    unsigned want = SFROM[k][s[0]];
    if (r == 1) { sa_reach("tab:mapped"); sa_check(wc == want, "decode: a byte decodes to another character than the reference gives"); }
    else { sa_reach("tab:unmapped"); sa_check(want == 0xffff, "decode: a byte the reference maps is rejected"); sa_check(r == RET_ILSEQ, "decode: a byte the reference does not map is not reported as invalid"); }
}
/* every value */
void h_senc(int k)
{
    conv_t cd = mk(SREF[k].ei);
    ucs4_t wc = sa_u32("wc", 0, 0xffffffffu);
    unsigned char *o = sa_output("out", 1);
    sa_join(1);
    int r = (int)sa_part((uint64_t)(int64_t)cd->ofuncs.xxx_wctomb(cd, o, wc, 1));
    if (r == 1) { sa_reach("tab:encoded"); unsigned b = o[0]; sa_check(STO[k][b][0] == wc || STO[k][b][1] == wc, "encode: a character encodes to another byte than the reference gives"); }
    else { sa_reach("tab:refused"); sa_check(r == RET_ILUNI, "encode: a character the reference does not have is not reported as such"); }
}
/* every character the reference has */
void h_sall(int k)
{
    conv_t cd = mk(SREF[k].ei);
    unsigned char b = sa_u8("b", 0, 255);
    unsigned char *o = sa_output("out", 1);
    int j = (int)sa_part(sa_u8("j", 0, 1));
    sa_join(1);
    ucs4_t wc = STO[k][b][j];
    if (wc == 0xffff) return;
    int r = (int)sa_part((uint64_t)(int64_t)cd->ofuncs.xxx_wctomb(cd, o, wc, 1));
    sa_reach("tab:all");
    sa_check(r == 1, "encode: a character the reference has is refused");
    if (r == 1) sa_check(o[0] == b, "encode: a character encodes to another byte than the reference gives");
}
void h_ddec(int k)
{
    conv_t cd = mk(DREF[k].ei);
    const unsigned char *s = sa_input("in", 2);
    ucs4_t wc;
    sa_join(1);
    int r = (int)sa_part((uint64_t)(int64_t)cd->ifuncs.xxx_mbtowc(cd, &wc, s, 2));
    unsigned a = s[0], b = s[1], want = 0xffff;
    if (a >= 0x21 && a <= 0x7e && b >= 0x21 && b <= 0x7e) want = DFROM[k][(a - 0x21) * 94 + (b - 0x21)];
    if (r == 2) { sa_reach("tab:mapped2"); sa_collect("dec", wc != want, a << 8 | b); }
    else { sa_reach("tab:unmapped2"); sa_collect("missing", want != 0xffff, a << 8 | b); sa_check(r == RET_ILSEQ, "decode: a byte pair the reference does not map is not reported as invalid"); }
}
void h_denc(int k)
{
    conv_t cd = mk(DREF[k].ei);
    ucs4_t wc = sa_u32("wc", 0, 0x1ffff);
    unsigned char *o = sa_output("out", 2);
    sa_join(1);
    int r = (int)sa_part((uint64_t)(int64_t)cd->ofuncs.xxx_wctomb(cd, o, wc, 2));
    if (r == 2) {
        unsigned a = o[0], b = o[1];
        sa_reach("tab:encoded2");
        sa_check(a >= 0x21 && a <= 0x7e && b >= 0x21 && b <= 0x7e, "encode: a character encodes to bytes outside the set");
        if (a >= 0x21 && a <= 0x7e && b >= 0x21 && b <= 0x7e) sa_collect("enc", DFROM[k][(a - 0x21) * 94 + (b - 0x21)] != wc, wc);
    } else { sa_reach("tab:refused2"); sa_check(r == RET_ILUNI, "encode: a character the reference does not have is not reported as such"); }
}
