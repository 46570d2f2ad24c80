#include <stdlib.h>
#undef isdigit
#undef isascii
#undef strdup
#undef strndup
/* C definitions of the library functions the sources use, so that their effects are analysed too. */
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int strcmp(const char *a, const char *b) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; for (;; x++, y++) { if (*x != *y) return *x < *y ? -1 : 1; if (!*x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; for (; n; x++, y++, n--) { if (*x != *y) return *x < *y ? -1 : 1; if (!*x) return 0; } return 0; }
size_t strlen(const char *a) { size_t k = 0; while (a[k]) k++; return k; }
size_t strnlen(const char *a, size_t n) { size_t k = 0; while (k < n && a[k]) k++; return k; }
char *strchr(const char *a, int c) { for (;; a++) { if (*a == (char)c) return (char *)a; if (!*a) return 0; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strrchr(const char *a, int c) { const char *r = 0; for (;; a++) { if (*a == (char)c) r = a; if (!*a) return (char *)r; } }
char *strstr(const char *a, const char *b) { for (;; a++) { size_t i = 0; while (b[i] && a[i] == b[i]) i++; if (!b[i]) return (char *)a; if (!*a) return 0; } }
size_t strspn(const char *a, const char *b) { size_t k = 0; for (; a[k]; k++) { size_t i = 0; while (b[i] && b[i] != a[k]) i++; if (!b[i]) break; } return k; }
size_t strcspn(const char *a, const char *b) { size_t k = 0; for (; a[k]; k++) { size_t i = 0; while (b[i] && b[i] != a[k]) i++; if (b[i]) break; } return k; }
char *strpbrk(const char *a, const char *b) { a += strcspn(a, b); return *a ? (char *)a : 0; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; for (; n && *s; n--) *d++ = *s++; *d = 0; return r; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); if (r) for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); if (r) { for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; } return r; }
int abs(int a) { return a < 0 ? -a : a; }
void *mempcpy(void *d, const void *s, size_t n) { unsigned char *p = d; const unsigned char *q = s; for (; n; n--) *p++ = *q++; return p; }
void *memrchr(const void *a, int c, size_t n) { const unsigned char *p = a; for (; n; n--) if (p[n - 1] == (unsigned char)c) return (void *)(p + n - 1); return 0; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isascii(int c) { return (c & ~127) == 0; }
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{ size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const void *p = (const char *)base + m * sz; int c = cmp(key, p); if (c == 0) return (void *)p; if (c < 0) hi = m; else lo = m + 1; } return 0; }
void *memchr(const void *a, int c, size_t n) { const unsigned char *p = a; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
#undef memset
#undef memcpy
#undef memmove
void *memset(void *d, int c, size_t n) { unsigned char *p = d; for (; n; n--) *p++ = (unsigned char)c; return d; }
void *memcpy(void *d, const void *s, size_t n) { unsigned char *p = d; const unsigned char *q = s; for (; n; n--) *p++ = *q++; return d; }
void *memmove(void *d, const void *s, size_t n) { unsigned char *p = d; const unsigned char *q = s; if (p <= q) for (; n; n--) *p++ = *q++; else for (; n; n--) p[n - 1] = q[n - 1]; return d; }
