/* Helper program run by generated oh programs. Everything it does is confined
   to its own standard streams, except "touch" and "mark" which append to the
   named file. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <time.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
extern char **environ;
static void hex(FILE *f, const char *s, size_t n) { for (size_t i = 0; i < n; i++) fprintf(f, "%02x", (unsigned char)s[i]); }
static void wr(int fd, const char *b, size_t n) {
  while (n) { ssize_t k = write(fd, b, n); if (k < 0) { if (errno == EINTR) continue; _exit(141); } b += k; n -= k; }
}
static void puth(int fd, const char *h) {
  size_t n = strlen(h) / 2; char *b = malloc(n + 1);
  for (size_t i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); b[i] = v; }
  wr(fd, b, n); free(b);
}
static void gen(int fd, long n, unsigned seed) { /* pseudo-random text with newlines */
  char buf[4096]; size_t k = 0; unsigned s = seed * 2654435761u + 1;
  while (n-- > 0) { s = s * 1103515245u + 12345u; unsigned v = (s >> 16) % 64;
    buf[k++] = v == 0 ? '\n' : 33 + v; if (k == sizeof buf) { wr(fd, buf, k); k = 0; } }
  wr(fd, buf, k);
}
int main(int c, char **v) {
  signal(SIGPIPE, SIG_DFL);
  if (c < 2) return 99;
  const char *m = v[1];
  if (!strcmp(m, "args")) { for (int i = 2; i < c; i++) { putchar('['); hex(stdout, v[i], strlen(v[i])); puts("]"); } puts("end"); return 0; }
  if (!strcmp(m, "env")) { for (char **e = environ; *e; e++) { hex(stdout, *e, strlen(*e)); putchar('\n'); } puts("end"); return 0; }
  if (!strcmp(m, "envof")) { for (int i = 2; i < c; i++) { char *x = getenv(v[i]); if (x) { printf("%s=", v[i]); hex(stdout, x, strlen(x)); puts(""); } else printf("%s unset\n", v[i]); } return 0; }
  if (!strcmp(m, "enval")) { for (int i = 2; i < c; i++) { char *x = getenv(v[i]); printf("env %s ", v[i]); if (x) { putchar('x'); hex(stdout, x, strlen(x)); } else putchar('-'); putchar(10); } return 0; }
  if (!strcmp(m, "exit")) return atoi(v[2]);
  if (!strcmp(m, "sig")) { int s = atoi(v[2]); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); signal(s, SIG_DFL);
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, s); sigprocmask(SIG_UNBLOCK, &ss, 0); kill(getpid(), s); pause(); return 98; }
  if (!strcmp(m, "core")) { int g = atoi(v[2]); struct rlimit z; getrlimit(RLIMIT_CORE, &z); z.rlim_cur = z.rlim_max; setrlimit(RLIMIT_CORE, &z);
    signal(g, SIG_DFL); sigset_t ss; sigemptyset(&ss); sigaddset(&ss, g); sigprocmask(SIG_UNBLOCK, &ss, 0); kill(getpid(), g); pause(); return 98; }
  if (!strcmp(m, "stop")) { /* stop, be continued (or killed) after some milliseconds by a child, then exit */
    long ms = atol(v[2]); int code = atoi(v[3]); pid_t me = getpid(), k = fork();
    if (k == 0) { close(0); close(1); close(2); usleep(ms * 1000); for (int i = 0; i < 400 && getppid() == me; i++) { kill(me, code < 0 ? SIGKILL : SIGCONT); usleep(20000); } _exit(0); }
    kill(me, SIGSTOP); kill(k, SIGKILL); waitpid(k, 0, 0); return code; }
  if (!strcmp(m, "cat")) { char b[65536]; ssize_t n; while ((n = read(0, b, sizeof b)) > 0) wr(1, b, n); return n < 0 ? 1 : 0; }
  if (!strcmp(m, "catx")) { char b[65536]; ssize_t n; while ((n = read(0, b, sizeof b)) > 0) wr(1, b, n); return atoi(v[2]); }
  if (!strcmp(m, "catf")) { for (int i = 2; i < c; i++) { int f = open(v[i], O_RDONLY); if (f < 0) return 1; char b[65536]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) wr(1, b, n); close(f); } return 0; }
  if (!strcmp(m, "cat2")) { /* copy the first N files named to standard output and to each of the others */
    int n = atoi(v[2]), fs[16], k = 0; for (int i = 3 + n; i < c && k < 16; i++) { fs[k] = open(v[i], O_WRONLY); if (fs[k] < 0) return 1; k++; }
    for (int i = 3; i < 3 + n; i++) { int f = open(v[i], O_RDONLY); if (f < 0) return 1; char b[65536]; ssize_t z; while ((z = read(f, b, sizeof b)) > 0) { wr(1, b, z); for (int j = 0; j < k; j++) wr(fs[j], b, z); } close(f); }
    return 0; }
  if (!strcmp(m, "puth")) { for (int i = 2; i < c; i++) puth(1, v[i]); return 0; }
  if (!strcmp(m, "puteh")) { for (int i = 2; i < c; i++) puth(2, v[i]); return 0; }
  if (!strcmp(m, "oe")) { puth(1, v[2]); puth(2, v[3]); return c > 4 ? atoi(v[4]) : 0; }
  if (!strcmp(m, "tof")) { int f = open(v[2], O_WRONLY); if (f < 0) return 1; for (int i = 3; i < c; i++) puth(f, v[i]); close(f); return 0; }
  if (!strcmp(m, "teef")) { /* copy stdin to stdout and to each named file */
    int fs[16], n = 0; for (int i = 2; i < c && n < 16; i++) { fs[n] = open(v[i], O_WRONLY); if (fs[n] < 0) return 1; n++; }
    char b[65536]; ssize_t k; while ((k = read(0, b, sizeof b)) > 0) { wr(1, b, k); for (int i = 0; i < n; i++) wr(fs[i], b, k); } return 0; }
  if (!strcmp(m, "gen")) { gen(1, atol(v[2]), atoi(v[3])); return 0; }
  if (!strcmp(m, "sum")) { unsigned long long h = 1469598103934665603ull; long t = 0; char b[65536]; ssize_t n;
    while ((n = read(0, b, sizeof b)) > 0) { t += n; for (ssize_t i = 0; i < n; i++) { h ^= (unsigned char)b[i]; h *= 1099511628211ull; } }
    printf("%ld %016llx\n", t, h); return 0; }
  if (!strcmp(m, "upper")) { int ch; while ((ch = getchar()) != EOF) putchar(ch >= 'a' && ch <= 'z' ? ch - 32 : ch); return 0; }
  if (!strcmp(m, "number")) { /* number lines */ char *l = 0; size_t z = 0; ssize_t n; int i = 0; while ((n = getline(&l, &z, stdin)) > 0) { printf("%d:", ++i); fwrite(l, 1, n, stdout); } return 0; }
  if (!strcmp(m, "headc")) { long k = atol(v[2]); char b; while (k-- > 0 && read(0, &b, 1) == 1) wr(1, &b, 1); return 0; }
  if (!strcmp(m, "pwd")) { char b[8192]; if (!getcwd(b, sizeof b)) return 1; hex(stdout, b, strlen(b)); putchar('\n'); return 0; }
  if (!strcmp(m, "fds")) { DIR *d = opendir("/proc/self/fd"); struct dirent *e; int self = dirfd(d); while ((e = readdir(d))) { if (e->d_name[0] == '.' || atoi(e->d_name) == self) continue; char p[300], l[512]; snprintf(p, sizeof p, "/proc/self/fd/%s", e->d_name); ssize_t n = readlink(p, l, sizeof l - 1); if (n < 0) continue; l[n] = 0; printf("%s %s\n", e->d_name, l); } puts("end"); return 0; }
  if (!strcmp(m, "census")) { /* FILE: descriptors and other children of the parent */
    char p[300]; snprintf(p, sizeof p, "/proc/%d/fd", getppid()); DIR *d = opendir(p); int n = 0, kids = 0; struct dirent *e; if (!d) return 1;
    int o = open(v[2], O_WRONLY | O_CREAT | O_APPEND, 0666); if (o < 0) return 1; char b[65536]; int k = 0;
    while ((e = readdir(d))) { if (e->d_name[0] == '.') continue; n++; char l[256]; snprintf(p, sizeof p, "/proc/%d/fd/%s", getppid(), e->d_name);
      ssize_t z = readlink(p, l, sizeof l - 1); if (z < 0) z = 0; l[z] = 0; for (char *q = l; *q; q++) if (*q <= ' ') *q = '_'; if (k < 60000) k += snprintf(b + k, 400, " %s", l); }
    closedir(d); d = opendir("/proc"); if (!d) return 1;
    while ((e = readdir(d))) { int pid = atoi(e->d_name); if (!pid || pid == getpid()) continue; snprintf(p, sizeof p, "/proc/%s/stat", e->d_name); FILE *f = fopen(p, "r"); if (!f) continue;
      char t[1024]; size_t z = fread(t, 1, sizeof t - 1, f); fclose(f); t[z] = 0; char *q = strrchr(t, ')'), st; int pp; if (q && sscanf(q + 1, " %c %d", &st, &pp) == 2 && pp == getppid()) kids++; }
    dprintf(o, "%d %d%s\n", n, kids, b); return 0; }
  if (!strcmp(m, "extrafds")) { /* FILE: add a line for each descriptor other than 0, 1 and 2 */
    DIR *d = opendir("/proc/self/fd"); struct dirent *e; int self = dirfd(d); int n = 0;
    while ((e = readdir(d))) { int q = atoi(e->d_name); if (e->d_name[0] == '.' || q == self || q < 3) continue; char p[300], l[512]; snprintf(p, sizeof p, "/proc/self/fd/%d", q); ssize_t z = readlink(p, l, sizeof l - 1); if (z < 0) continue; l[z] = 0;
      int o = open(v[2], O_WRONLY | O_CREAT | O_APPEND, 0666); dprintf(o, "%d %s\n", q, l); close(o); n++; }
    int i; for (i = 0; i < 3; i++) if (fcntl(i, F_GETFD) < 0) { int o = open(v[2], O_WRONLY | O_CREAT | O_APPEND, 0666); dprintf(o, "%d closed\n", i); }
    return 0; }
  if (!strcmp(m, "ppidfds")) { /* number of open descriptors and children of the parent */
    char p[100]; snprintf(p, sizeof p, "/proc/%d/fd", getppid()); DIR *d = opendir(p); int n = 0; struct dirent *e; if (!d) return 1; while ((e = readdir(d))) if (e->d_name[0] != '.') n++; printf("%d\n", n); return 0; }
  if (!strcmp(m, "sleep")) { long ms = atol(v[2]); struct timespec t = {ms / 1000, (ms % 1000) * 1000000L}; while (nanosleep(&t, &t) < 0 && errno == EINTR) ; return 0; }
  if (!strcmp(m, "mark")) { /* append one line atomically */
    int f = open(v[2], O_WRONLY | O_CREAT | O_APPEND, 0666); if (f < 0) return 1; char b[4096]; int n = snprintf(b, sizeof b, "%s\n", c > 3 ? v[3] : ""); wr(f, b, n); return 0; }
  if (!strcmp(m, "waitfor")) { /* wait until the file exists, for at most 100 s */
    for (int i = 0; i < 20000; i++) { if (!access(v[2], F_OK)) return 0; usleep(5000); } return 1; }
  if (!strcmp(m, "hold")) { wr(1, v[2], strlen(v[2])); wr(1, "\n", 1); for (;;) pause(); }
  if (!strcmp(m, "gate")) { /* FIFO OUT TAG CODE: say @TAG, then a mark for each n read from FIFO, until q */
    char b[4096]; int k = 0, g = open(v[2], O_RDONLY), f = open(v[3], O_WRONLY | O_CREAT | O_APPEND, 0666);
    if (g < 0 || f < 0) return 98;
    wr(f, b, snprintf(b, sizeof b, "pid %d\n", getpid()));
    for (;;) { char x; ssize_t n = read(g, &x, 1); if (n < 0 && errno == EINTR) continue; if (n <= 0) return 99;
      if (x == 'q') { wr(f, b, snprintf(b, sizeof b, "%s end\n", v[4])); return atoi(v[5]); }
      wr(f, b, snprintf(b, sizeof b, "%s %d\n", v[4], ++k)); } }
  if (!strcmp(m, "fs")) { /* OP PATH [PATH]: change files */
    if (!strcmp(v[2], "touch")) { int f = open(v[3], O_WRONLY | O_CREAT, 0644); return f < 0; }
    if (!strcmp(v[2], "rm")) return unlink(v[3]) != 0;
    if (!strcmp(v[2], "mkdir")) return mkdir(v[3], 0755) != 0;
    if (!strcmp(v[2], "rmdir")) return rmdir(v[3]) != 0;
    if (!strcmp(v[2], "ren")) return rename(v[3], v[4]) != 0;
    if (!strcmp(v[2], "ln")) return link(v[3], v[4]) != 0;
    return 2; }
  if (!strcmp(m, "stat")) { struct stat s; if (stat(v[2], &s)) { puts("none"); return 1; } printf("%o %ld\n", s.st_mode & 07777, (long)s.st_size); return 0; }
  return 97;
}
