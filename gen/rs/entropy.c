/* LD_PRELOAD: answers every request for random bytes with the bytes of $ENTROPY (hex), repeated. */
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
static int hex(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void fill(unsigned char *b, size_t n) {
    const char *e = getenv("ENTROPY");
    size_t k = e ? strlen(e) / 2 : 0, i;
    for (i = 0; i < n; i++) b[i] = k ? hex(e[2 * (i % k)]) * 16 + hex(e[2 * (i % k) + 1]) : 0;
}
ssize_t getrandom(void *b, size_t n, unsigned f) { (void)f; fill(b, n); return n; }
int getentropy(void *b, size_t n) { fill(b, n); return 0; }
