// LD_PRELOAD shim that owns the one source of nondeterminism of the tool: the OS randomness that
// seeds its hash maps. MC_SEED selects the byte stream handed out.
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    const char *s = getenv("MC_SEED");
    uint64_t x = s ? strtoull(s, 0, 10) : 0;
    x = x * 0x9E3779B97F4A7C15ull + 0x1234567ull;
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; p[i] = (unsigned char)(x >> 24); }
    return (ssize_t)n;
}
int getentropy(void *buf, size_t n) { getrandom(buf, n, 0); return 0; }
