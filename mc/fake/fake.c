// Stand-in for `cargo` and `rustc` (multi-call, by argv[0]). It only ever reads from and writes to
// the directory given in MC_FAKE, records how it was called, and replays prepared answers.
//   log            every invocation: "B\n", then argv and selected environment entries, one per
//                  line with \n and \\ escaped, then "E\n"
//   rustc.vV/.cfg  answers of rustc; rustc.vV.rc / rustc.cfg.rc their exit codes
//   cargo.err/.out what cargo prints; cargo.rc its exit status ("s9" = dies by signal 9)
//   cargo.act      actions of the build, one per line, TAB separated: "mv SRC DST", "rm PATH",
//                  "touch PATH SECONDS"
//   cargo.late     (exists) messages first, then the actions of the build
//   wrapped.*      (argv[0] == "realrustc") answers when used as the wrapped compiler
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>

static const char *dir;
static char path[4096];
static const char *in(const char *f) { snprintf(path, sizeof path, "%s/%s", dir, f); return path; }

static char buf[1 << 20];
static size_t blen;
static void put(const char *s, size_t n) { if (blen + n < sizeof buf) { memcpy(buf + blen, s, n); blen += n; } }
static void put_esc(const char *s) {
    for (; *s; s++) {
        if (*s == '\n') put("\\n", 2);
        else if (*s == '\\') put("\\\\", 2);
        else put(s, 1);
    }
    put("\n", 1);
}

static void cat(const char *f, int fd) {
    static char b[65536];
    int i = open(in(f), O_RDONLY);
    if (i < 0) return;
    ssize_t n;
    while ((n = read(i, b, sizeof b)) > 0) { ssize_t o = 0; while (o < n) { ssize_t w = write(fd, b + o, n - o); if (w <= 0) { close(i); return; } o += w; } }
    close(i);
}

static void finish(const char *f) {
    char b[64] = "0";
    int i = open(in(f), O_RDONLY);
    if (i >= 0) { ssize_t n = read(i, b, 63); b[n < 0 ? 0 : n] = 0; close(i); }
    if (b[0] == 's') { int s = atoi(b + 1); signal(s, SIG_DFL); kill(getpid(), s); pause(); }
    _exit(atoi(b));
}

static void actions(void) {
    FILE *f = fopen(in("cargo.act"), "r");
    if (!f) return;
    static char line[8192];
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        char *op = strtok(line, "\t"), *a = strtok(NULL, "\t"), *b = strtok(NULL, "\t");
        if (!op || !a) continue;
        // keep every effect inside the scratch directory
        if (strncmp(a, dir, strlen(dir)) != 0 || strstr(a, "..")) _exit(99);
        if (!strcmp(op, "mv") && b) { if (strncmp(b, dir, strlen(dir)) != 0 || strstr(b, "..")) _exit(99); if (rename(a, b)) _exit(98); }
        else if (!strcmp(op, "rm")) unlink(a);
        else if (!strcmp(op, "touch") && b) { struct timeval tv[2]; long long t = atoll(b); tv[0].tv_sec = tv[1].tv_sec = t / 1000000; tv[0].tv_usec = tv[1].tv_usec = t % 1000000; utimes(a, tv); }
    }
    fclose(f);
}

int main(int argc, char **argv, char **envp) {
    dir = getenv("MC_FAKE");
    if (!dir) return 97;
    const char *base = strrchr(argv[0], '/');
    base = base ? base + 1 : argv[0];
    put("B\n", 2);
    put(base, strlen(base)); put("\n", 1);
    for (int i = 1; i < argc; i++) { put("A", 1); put_esc(argv[i]); }
    for (char **e = envp; *e; e++)
        if (!strncmp(*e, "RUSTC", 5) || !strncmp(*e, "CARGO", 5) || !strncmp(*e, "RUSTFLAGS", 9)) { put("V", 1); put_esc(*e); }
    char cwd[4096];
    if (getcwd(cwd, sizeof cwd)) { put("C", 1); put_esc(cwd); }
    // modification times of the files named in MC_PROBE (separated by `:`), as seen by the build
    const char *probe = getenv("MC_PROBE");
    if (probe) {
        static char list[8192];
        snprintf(list, sizeof list, "%s", probe);
        for (char *p = strtok(list, ":"); p; p = strtok(NULL, ":")) {
            struct stat st;
            char t[64];
            snprintf(t, sizeof t, "T%lld\n", stat(p, &st) ? -1LL : (long long)st.st_mtime);
            put(t, strlen(t));
        }
    }
    put("E\n", 2);
    int l = open(in("log"), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (l >= 0) { if (write(l, buf, blen) < 0) {} close(l); }
    if (!strcmp(base, "cargo")) {
        if (!access(in("cargo.late"), F_OK)) {
            // the build goes on after it has closed its standard error
            cat("cargo.out", 1);
            cat("cargo.err", 2);
            close(2);
            usleep(60000);
            actions();
            finish("cargo.rc");
        }
        actions();
        cat("cargo.out", 1);
        cat("cargo.err", 2);
        finish("cargo.rc");
    } else if (!strcmp(base, "realrustc")) {
        if (getenv("MC_STDIN")) { char c; while (read(0, &c, 1) == 1) { if (write(1, &c, 1) < 0) break; } }
        cat("wrapped.out", 1);
        cat("wrapped.err", 2);
        finish("wrapped.rc");
    } else {
        for (int i = 1; i < argc; i++) {
            if (!strcmp(argv[i], "-vV") || !strcmp(argv[i], "--version") || !strcmp(argv[i], "-V")) { cat("rustc.vV", 1); finish("rustc.vV.rc"); }
            if (strstr(argv[i], "cfg")) { cat("rustc.cfg", 1); finish("rustc.cfg.rc"); }
        }
        finish("rustc.rc");
    }
    return 0;
}
