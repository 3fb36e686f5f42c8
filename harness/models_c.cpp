// C string functions, interpreted by the executor (compiled with -fno-builtin).
typedef __SIZE_TYPE__ size_t;
extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return const_cast<char *>(s); if (!*s) return nullptr; } }
void *memchr(const void *s, int c, size_t n) { for (const unsigned char *p = (const unsigned char *)s; n; p++, n--) if (*p == (unsigned char)c) return const_cast<unsigned char *>(p); return nullptr; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
}
