/* The C++ interface over the real C library: the two modules are linked before the analysis. */
#include "reiconv.cpp"
#include "sa.h"
#include "encoding_indexes.h"
#include <cppp/encodings/reiconv.hpp>
#include <new>
extern "C" void h_cxx(int from, int to, int n, int flag, int fail)
{
    sa_join(2);
    const char *in = (const char *)sa_input("in", n);
    /* what the C interface makes of the same input */
    char *want = nullptr; size_t wlen = 0; int wres = -1, werr = 0;
    errno = 0;
    ::reiconv_t cd = ::reiconv_open_from_index(from, to, (enum ::ConvertFlag)flag);
    if (cd == (::reiconv_t)-1) werr = errno;
    else { wres = ::reiconv_convert(cd, in, n, &want, &wlen); werr = errno; ::reiconv_handle_close(cd); }
    uint64_t live = sa_heap_live();
    int how = 0, code = 0;
    if (fail) sa_alloc_may_fail(1);
    try {
        std::string s = reiconv::convert(reiconv::Encoding(static_cast<reiconv::Encodings>(from)), reiconv::Encoding(static_cast<reiconv::Encodings>(to)), std::string_view(in, n), flag ? reiconv::ConvertFlag::DISCARD_ILSEQ : reiconv::ConvertFlag::NO_FLAGS);
        sa_alloc_may_fail(0);
        sa_reach("cxx:returned");
        sa_check(wres == 0, "result: a conversion that fails is returned as a string");
        if (wres == 0) {
            sa_check(s.size() == wlen, "result: the string has another length than the conversion");
            if (s.size() == wlen) for (size_t i = 0; i < wlen; i++) sa_check(s[i] == want[i], "result: the string differs from the conversion");
        }
        how = 1;
    }
    catch (const std::system_error &e) { how = 2; code = e.code().value(); }
    catch (const std::bad_alloc &) { how = 3; }
    catch (...) { how = 4; }
    sa_alloc_may_fail(0);
    if (how == 2) {
        sa_reach("cxx:system_error");
        if (wres == 0) sa_check(fail && code == ENOMEM, "result: a conversion that succeeds is reported as an error");
        else sa_check(code == werr || (fail && code == ENOMEM), "result: the exception carries another error code");
    }
    if (how == 3) sa_check(fail, "result: wrong kind of exception");
    if (how == 3) sa_reach("cxx:bad_alloc");
    sa_check(how != 4, "result: wrong kind of exception");
    sa_check(sa_heap_live() == live, "leak: the call leaves memory or a descriptor allocated");
}
extern "C" void h_ctor(int which)
{
    sa_join(2);
    static const char *const names[] = { "UTF-8", "ISO-8859-1", "NOSUCH", "", "utf_16le", "//IGNORE" };
    static const int cps[] = { 65001, 1252, 0x7fffffff, -1, 932, 1 };
    int want, how = 0, got = -2;
    uint64_t live = sa_heap_live();
    try {
        if (which < 6) { want = ::reiconv_lookup_from_name(names[which]); reiconv::Encoding e(names[which]); got = e; }
        else if (which < 12) { want = ::reiconv_lookup_from_codepage(cps[which - 6]); reiconv::Encoding e(cps[which - 6]); got = e; }
        else if (which == 12) {
            int cp = (int)sa_u32("codepage", 0, 0xffffffffu); want = ::reiconv_lookup_from_codepage(cp); reiconv::Encoding e(cp); got = e;
        } else { want = ::reiconv_lookup_from_name(names[which - 13]); reiconv::Encoding e{std::string(names[which - 13])}; got = e; }
        how = 1;
    }
    catch (const std::invalid_argument &) { how = 2; }
    catch (...) { how = 3; }
    sa_reach(how == 1 ? "ctor:ok" : "ctor:throws");
    if (how == 1) sa_check(want != -1 && got == want, "ctor: the encoding is not the one asked for");
    else { sa_check(how == 2, "ctor: wrong kind of exception"); sa_check(want == -1, "ctor: a known encoding is refused"); }
    sa_check(sa_heap_live() == live, "leak: the constructor leaves memory allocated");
}
extern "C" void h_eq(int a, int b)
{
    reiconv::Encoding x(static_cast<reiconv::Encodings>(a)), y(static_cast<reiconv::Encodings>(b));
    sa_reach("eq:done");
    sa_check((x == y) == (a == b), "ctor: equality of encodings");
    sa_check((int)x == a && (int)y == b, "ctor: the index is not the one given");
}

extern "C" void h_index(void)
{
#define IDX(name, ei) sa_check((int)reiconv::Encodings::name == (int)ei, "index: the enumerator " #name " is not the index of its encoding"); n++;
    uint64_t n = 0;
#include "index_ref.inc"
    sa_out("indexes", n);
    sa_reach("index:done");
}
