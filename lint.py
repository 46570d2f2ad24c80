"""Effects: shared mutable state and external calls."""
from vlib import *
# results of these depend on, or change, state outside the arguments
DENY = set("strtok setlocale getenv setenv putenv rand srand random time localtime gmtime asctime ctime strerror toupper tolower isalpha isalnum isspace isupper islower isxdigit isprint ispunct strcasecmp strncasecmp strcoll strxfrm mbrtowc wcrtomb mbtowc wctomb mblen mbstowcs wcstombs mbrlen btowc wctob nl_langinfo __ctype_b_loc __ctype_toupper_loc __ctype_tolower_loc __ctype_get_mb_cur_max strtod atof printf fprintf puts putchar fputs fwrite fopen open write read exit _exit signal alarm sleep tmpnam getpwnam gethostbyname localeconv".split())
OK = set("__errno_location abort free malloc realloc calloc memcmp memset memcpy memmove strcmp strncmp strlen strnlen strchr memchr strcpy strrchr strstr strspn strcspn strpbrk strncpy strcat strncat strdup strndup abs mempcpy memrchr isdigit isascii bsearch __assert_fail".split())
def run(cx):
    lt = engine().replace("rsa-", "lint-"); out = []; tot = dict(functions=0, instructions=0, stores=0, roots=0, constants=0)
    for src, cxx, roots in (("lib/iconv.c", False, ["reiconv"]), ("lib/reiconv.cpp", True, ["reiconv"])):
        bc = compile_ir(cx.w, REPO + "/" + src, "lint_" + os.path.basename(src).replace(".", "_"), cxx=cxx)
        p = subprocess.run([lt, bc] + roots, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode: raise Broken("effect analysis failed: " + p.stderr[-500:])
        d = json.loads(p.stdout)
        for k in tot: tot[k] += d[k]
        for g in d["globals"]:
            for w in g["writes"]:
                out.append(("lint:global:" + g["name"], "shared: %s of the %smodule-level object %s at %s in %s: state outside the descriptor, shared by all conversions" % (w["what"], "thread-local " if g["tls"] else "", g["name"], w["where"].replace(REPO + "/", ""), w["func"])))
        for f, where in d["external"].items():
            if f in DENY: out.append(("lint:call:" + f, "shared: call of %s at %s: its effect depends on or changes state outside the descriptor" % (f, where.replace(REPO + "/", ""))))
            elif f not in OK and not cxx: cx.notes.append("effects of external function %s not known (%s)" % (f, where))
        cx.extra.setdefault("external_calls", []).extend(sorted(d["external"])[:30])
        if src.endswith(".c") and d["functions"] < 200: raise Broken("only %d functions reachable from the API" % d["functions"])
        if cxx and not d["roots"]: raise Broken("no entry points in " + src)
    cx.extra.update(tot)
    return out
