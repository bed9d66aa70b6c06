/* batch server: one job per stdin line (tab-separated args); every job runs in its own forked process.
 * Reply: "<status> <stdout bytes> <stderr bytes>\n" followed by both. */
#ifndef BATCH_H
#define BATCH_H
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
static void batch_copy(int fd, long n) {
    static char buf[65536]; long o = 0, k;
    while (o < n && (k = pread(fd, buf, n - o < 65536 ? n - o : 65536, o)) > 0) { fwrite(buf, 1, k, stdout); o += k; }
}
/* CPU ticks used by a job whose threads are all asleep, -1 while one can run */
static long batch_idle(pid_t pid) {
    char n[64], s[512]; snprintf(n, sizeof n, "/proc/%d/task", (int)pid); DIR *d = opendir(n); if (!d) return -1;
    long sum = 0; struct dirent *e;
    while ((e = readdir(d))) if (e->d_name[0] != '.') {
        char f[400]; snprintf(f, sizeof f, "%s/%.20s/stat", n, e->d_name); FILE *p = fopen(f, "r"); if (!p) { sum = -1; break; }
        const size_t k = fread(s, 1, sizeof s - 1, p); fclose(p); s[k] = 0; char *c = strrchr(s, ')'), st; unsigned long u, v;
        if (!c || sscanf(c + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &st, &u, &v) != 3 || st != 'S') { sum = -1; break; }
        sum += u + v;
    }
    closedir(d); return sum;
}
/* waits for the job; one that sleeps for 12 s without using the CPU is ended (76), and so is one whose own alarm never
 * comes through (77: ThreadSanitizer holds signals back while a thread spins) */
static int batch_wait(pid_t pid, int *st, long limit) {
    sigset_t m; sigemptyset(&m); sigaddset(&m, SIGCHLD); long last = -1; int same = 0, end = 0; const time_t t0 = time(NULL);
    for (;;) {
        const pid_t r = waitpid(pid, st, WNOHANG);
        if (r == pid) return end ? 76 : 0; if (r < 0 && errno != EINTR) return -1;
        const struct timespec ts = { 1, 0 };
        if (sigtimedwait(&m, NULL, &ts) > 0) continue;
        if (limit && !end && time(NULL) - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, st, 0); return 77; }
        if (end) { if (++end > 4) kill(pid, SIGKILL); continue; }
        const long t = batch_idle(pid); same = t >= 0 && t == last ? same + 1 : 0; last = t;
        if (same >= 12) { end = 1; kill(pid, SIGALRM); }
    }
}
static int batch_main(int argc, char **argv, int (*job)(int, char **)) {
    if (argc < 2 || strcmp(argv[1], "batch")) return job(argc, argv);
    char *line = NULL; size_t cap = 0; ssize_t n;
    FILE *fo = tmpfile(), *fe = tmpfile(); if (!fo || !fe) return 3;
    const int o = fileno(fo), e = fileno(fe);
    sigset_t bs, os; sigemptyset(&bs); sigaddset(&bs, SIGCHLD); sigprocmask(SIG_BLOCK, &bs, &os);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        static char *av[256]; int ac = 1; av[0] = argv[0];
        for (char *p = strtok(line, "\t"); p && ac < 255; p = strtok(NULL, "\t")) av[ac++] = p;
        av[ac] = NULL;
        if (ftruncate(o, 0) || ftruncate(e, 0)) return 3;
        lseek(o, 0, SEEK_SET); lseek(e, 0, SEEK_SET);
        const pid_t pid = fork();
        if (pid < 0) return 4;
        if (!pid) { sigprocmask(SIG_SETMASK, &os, NULL); dup2(o, 1); dup2(e, 2); const int r = job(ac, av); fflush(stdout); exit(r); }
        int st = 0; long lim = 120; for (int k = 1; k < ac; k++) if (!strncmp(av[k], "timeout=", 8)) lim = atol(av[k] + 8);
        const int idle = batch_wait(pid, &st, lim ? lim + lim / 2 + 15 : 0); if (idle < 0) return 5;
        const int rc = idle ? idle : WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
        long a = lseek(o, 0, SEEK_END), b = lseek(e, 0, SEEK_END); if (a > 16 << 20) a = 16 << 20; if (b > 256 << 10) b = 256 << 10;
        printf("%d %ld %ld\n", rc, a, b); batch_copy(o, a); batch_copy(e, b); fflush(stdout);
    }
    return 0;
}
static char **b_av; static int b_ac;
static const char *b_opt(const char *k, const char *d) { const size_t n = strlen(k); for (int i = 1; i < b_ac; i++) if (!strncmp(b_av[i], k, n) && b_av[i][n] == '=') return b_av[i] + n + 1; return d; }
static long b_int(const char *k, long d) { const char *s = b_opt(k, NULL); return s ? strtol(s, NULL, 0) : d; }
static uint64_t b_seed; static uint64_t b_rnd(void) { b_seed += 0x9E3779B97F4A7C15ull; uint64_t z = b_seed; z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; z = (z ^ z >> 27) * 0x94D049BB133111EBull; return z ^ z >> 31; }
static uint8_t *b_file(const char *n, size_t *sz) { FILE *f = fopen(n, "rb"); if (!f) { fprintf(stderr, "open %s\n", n); exit(2); } fseek(f, 0, SEEK_END); *sz = ftell(f); rewind(f); uint8_t *b = (malloc)(*sz + 1); if (fread(b, 1, *sz, f) != *sz) exit(2); fclose(f); return b; }
#endif
