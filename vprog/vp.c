// The puppet program: a command whose behaviour is given by its arguments and whose
// every system call is released one at a time by the model checker (see mc/ctl.py).
// If no controller listens on ./ctl beside the executable it runs freely.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <ctype.h>
#include <stdint.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>

extern char **environ;
static int ctl = -1;
static uint64_t hash = 1469598103934665603ull, wino = 0;
static uint32_t nsys = 0, opi = 0;
static int argc; static char **argv;
static int status_ = 0, epipe_status = 0;

static void mix(const void *p, size_t n) { const unsigned char *c = p; for (size_t i = 0; i < n; i++) { hash ^= c[i]; hash *= 1099511628211ull; } }
static void mixi(int64_t v) { mix(&v, sizeof v); }
static void did(int kind, int64_t n, const void *data) {
  nsys++; mixi(opi); mixi(kind); mixi(n); if (n > 0 && data) mix(data, n);
}
static int ready(int fd, short ev) {
  struct pollfd p = { fd, ev, 0 };
  if (ctl < 0) return 1;
  int r = poll(&p, 1, 0);
  return r != 0;
}

// state of the current op
static int phase = 0, src = 0, dst = 1, opened = -1;
static long long left, total, pos, linelen;
static size_t chunk; static char buf[65536]; static size_t blen, boff; static int upper, dosink, closeat;
static char *text; static size_t tlen; static int forever, pattern;

enum { NEXT, PROGRESS, BLOCKED, PAUSED, TERM, STOPME };

static void die(int code) { // about to end: tell the controller, then do so
  struct { char st; char pad[3]; uint32_t nsys, opi; uint32_t code; uint64_t hash, wino; } r = {0};
  r.st = 'X'; r.nsys = nsys; r.opi = opi; r.code = code; r.hash = hash; r.wino = wino;
  if (ctl >= 0) { if (write(ctl, &r, sizeof r) < 0) {} }
  _exit(code);
}
static void reply(char st) {
  struct { char st; char pad[3]; uint32_t nsys, opi; uint32_t code; uint64_t hash, wino; } r = {0};
  r.st = st; r.nsys = nsys; r.opi = opi; r.hash = hash; r.wino = wino;
  if (ctl >= 0) { if (write(ctl, &r, sizeof r) < 0) _exit(98); }
}
static void unhex(char *h) { size_t n = strlen(h) / 2; text = malloc(n + 1); for (size_t i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); text[i] = v; } tlen = n; }
static void plain(char *t) { tlen = strlen(t); text = malloc(tlen + 1); memcpy(text, t, tlen + 1); for (size_t i = 0; i < tlen; i++) if (text[i] == '/') text[i] = '\n'; else if (text[i] == '_') text[i] = ' '; }

static char *field(char *s, int n) { // n-th ':'-separated field (last one takes the rest only when asked by rest())
  static char out[8][8192]; static int k = 0; char *o = out[k++ % 8];
  while (n-- > 0) { s = strchr(s, ':'); if (!s) return NULL; s++; }
  size_t l = strcspn(s, ":"); if (l > 8191) l = 8191; memcpy(o, s, l); o[l] = 0; return o;
}
static char *rest(char *s, int n) { while (n-- > 0) { s = strchr(s, ':'); if (!s) return (char *)""; s++; } return s; }
static long long num(char *s, int n, long long dflt) { char *f = field(s, n); return f && *f ? atoll(f) : dflt; }

static int wr(const char *p, size_t n) { // one write
  struct stat st;
  if (!ready(dst, POLLOUT)) return BLOCKED;
  if (fstat(dst, &st) == 0) wino = st.st_ino;
  ssize_t r = write(dst, p, n);
  if (r < 0) {
    int e = errno; did('w', -e, 0);
    if (e == EPIPE) { if (epipe_status) die(epipe_status); die(0); }
    die(99);
  }
  did('w', r, p); return (int)(r + 1000);
}

static int setup(char *op) {
  phase = 1; src = 0; dst = 1; blen = boff = 0; upper = dosink = closeat = forever = pattern = 0; left = -1; opened = -1; chunk = 4096; pos = 0;
  char *k = field(op, 0);
  if (!strcmp(k, "o")) plain(rest(op, 1));
  else if (!strcmp(k, "e")) { dst = 2; plain(rest(op, 1)); }
  else if (!strcmp(k, "w")) { dst = num(op, 1, 1); plain(rest(op, 2)); }
  else if (!strcmp(k, "oh")) unhex(rest(op, 1));
  else if (!strcmp(k, "eh")) { dst = 2; unhex(rest(op, 1)); }
  else if (!strcmp(k, "wh")) { dst = num(op, 1, 1); unhex(rest(op, 2)); }
  else if (!strcmp(k, "y")) { plain(rest(op, 1)); forever = 1; }
  else if (!strcmp(k, "O")) { pattern = 1; total = num(op, 1, 0); linelen = num(op, 2, 64); chunk = num(op, 3, 4096); }
  else if (!strcmp(k, "W")) { pattern = 1; dst = num(op, 1, 1); total = num(op, 2, 0); linelen = num(op, 3, 64); chunk = num(op, 4, 4096); }
  else if (!strcmp(k, "c") || !strcmp(k, "u") || !strcmp(k, "s")) { src = num(op, 1, 0); chunk = num(op, 2, 4096); upper = *k == 'u'; dosink = *k == 's'; }
  else if (!strcmp(k, "t")) { left = num(op, 1, 0); src = num(op, 2, 0); closeat = 1; }
  else if (!strcmp(k, "r")) { left = num(op, 1, 0); src = num(op, 2, 0); dosink = 1; }
  return 0;
}
static char *describe(size_t *n);
static void onlive(int s) {
  if (s == SIGUSR2) kill(getppid(), SIGTSTP);
  else _exit(s == SIGUSR1 ? 7 : s == SIGHUP ? 0 : 255);
}
static void live(char *path) {
  struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onlive;
  sigaction(SIGUSR1, &a, 0); sigaction(SIGUSR2, &a, 0); sigaction(SIGHUP, &a, 0); sigaction(SIGWINCH, &a, 0);
  int fd = open(path, O_WRONLY | O_CREAT, 0666); if (fd < 0) _exit(96);
  close(fd);
  for (;;) pause();
}
static int known(char *k) {
  static const char *ops[] = {"o","e","w","oh","eh","wh","y","O","W","c","u","s","t","r","f","F","C","q","x","k","K","z","p","n","E","D","L",0};
  for (int i = 0; ops[i]; i++) if (!strcmp(ops[i], k)) return 1;
  return 0;
}
static void done(void) { phase = 0; opi++; if (opened >= 0) { close(opened); opened = -1; } }

// perform (or, with dry, only look at) one system call of the current op
static int step(int dry) {
  for (;;) {
    if ((int)opi + 1 >= argc) { if (dry) return PROGRESS; return TERM; }
    char *op = argv[opi + 1]; char *k = field(op, 0);
    if (op[0] == '-' && strchr(op, '=')) op = strchr(op, '=') + 1, k = field(op, 0);
    if (op[0] == '/') { // a file: written to if it is open for writing, read otherwise
      int fd = -1; k = sscanf(op, "/dev/fd/%d", &fd) == 1 && (fcntl(fd, F_GETFL) & O_ACCMODE) == O_WRONLY ? "C" : "f";
    } else if (!known(k)) { opi++; continue; }
    if (phase == 0) setup(op[0] == '/' ? k : op);
    if (!strcmp(k, "x")) { if (dry) return PROGRESS; status_ = num(op, 1, 0); return TERM; }
    if (!strcmp(k, "E")) { epipe_status = num(op, 1, 0); done(); continue; }
    if (!strcmp(k, "p")) return PAUSED;
    if (!strcmp(k, "z")) { if (dry) return PROGRESS; did('z', 0, 0); done(); return STOPME; }
    if (!strcmp(k, "k") || !strcmp(k, "K")) {
      if (dry) return PROGRESS;
      int s = *k == 'K' ? SIGSEGV : num(op, 1, SIGTERM);
      did('k', s, 0); done();
      signal(s, SIG_DFL); sigset_t m; sigemptyset(&m); sigaddset(&m, s); sigprocmask(SIG_UNBLOCK, &m, 0);
      struct { char st; char pad[3]; uint32_t nsys, opi; uint32_t code; uint64_t hash, wino; } r = {0};
      r.st = 'K'; r.nsys = nsys; r.opi = opi; r.code = *k == 'K' ? 128 + s : s; r.hash = hash;
      if (ctl >= 0) { if (write(ctl, &r, sizeof r) < 0) {} }
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      kill(getpid(), s); for (;;) pause();
    }
    if (!strcmp(k, "L")) { // lives until told otherwise by a signal (free running only)
      if (dry) return PAUSED;
      if (setpgid(0, 0) < 0) {} // not orphaned: can be stopped by a terminal
      live(rest(op, 1));
    }
    if (!strcmp(k, "n")) { if (dry) return PROGRESS; did('n', 0, 0); done(); return PROGRESS; }
    if (!strcmp(k, "q")) { if (dry) return PROGRESS; close(num(op, 1, 0)); did('q', 0, 0); done(); return PROGRESS; }
    if (!strcmp(k, "D")) { // describe yourself in a file
      if (dry) return PROGRESS;
      size_t n, off = 0; char *b = describe(&n);
      int fd = open(rest(op, 1), O_WRONLY | O_CREAT | O_TRUNC, 0666);
      if (fd < 0) die(96);
      while (off < n) { ssize_t r = write(fd, b + off, n - off); if (r <= 0) die(96); off += r; }
      close(fd); free(b); did('D', 0, 0); done(); return PROGRESS;
    }
    // paths
    if (!strcmp(k, "f") || !strcmp(k, "F") || !strcmp(k, "C")) {
      if (opened < 0) {
        if (dry) return PROGRESS;
        char *path = *op == '/' ? op : *k == 'F' ? field(op, 1) : rest(op, 1);
        opened = open(path, *k == 'f' ? O_RDONLY : O_WRONLY | O_CREAT, 0666);
        did('O', opened < 0 ? -errno : 0, 0);
        if (opened < 0) die(97);
        if (*k == 'F') plain(rest(op, 2));
        return PROGRESS;
      }
      if (*k == 'f') src = opened, dst = 1; else if (*k == 'F') dst = opened; else src = 0, dst = opened;
    }
    int writer = text != NULL || pattern || forever;
    if (writer) {
      if (pattern) {
        if (pos >= total) { text = NULL; done(); continue; }
        if (dry) return ready(dst, POLLOUT) ? PROGRESS : BLOCKED;
        size_t n = chunk; if ((long long)n > total - pos) n = total - pos;
        for (size_t i = 0; i < n; i++) { long long p = pos + i; buf[i] = p % linelen == linelen - 1 ? '\n' : 'a' + (p / linelen * 7 + p % linelen) % 26; }
        int r = wr(buf, n); if (r == BLOCKED) return BLOCKED; pos += r - 1000; 
        if (pos >= total) { pattern = 0; done(); }
        return PROGRESS;
      }
      if (!forever && boff >= tlen) { free(text); text = NULL; done(); continue; }
      if (dry) return ready(dst, POLLOUT) ? PROGRESS : BLOCKED;
      if (forever && boff >= tlen) boff = 0;
      size_t n = tlen - boff; if (n > 4096) n = 4096;
      int r = wr(text + boff, n); if (r == BLOCKED) return BLOCKED; boff += r - 1000;
      if (!forever && boff >= tlen) { free(text); text = NULL; done(); }
      return PROGRESS;
    }
    // copies
    if (boff < blen) {
      if (dry) return ready(dst, POLLOUT) ? PROGRESS : BLOCKED;
      size_t n = blen - boff; if (n > 4096) n = 4096;
      int r = wr(buf + boff, n); if (r == BLOCKED) return BLOCKED; boff += r - 1000; return PROGRESS;
    }
    if (left == 0) { if (closeat) { if (dry) return PROGRESS; close(src); did('q', 0, 0); done(); return PROGRESS; } done(); continue; }
    if (dry) return ready(src, POLLIN) ? PROGRESS : BLOCKED;
    if (!ready(src, POLLIN)) return BLOCKED;
    size_t n = chunk; if (left >= 0 && (long long)n > left) n = left;
    ssize_t r = read(src, buf, n);
    if (r < 0) { did('r', -errno, 0); die(99); }
    did('r', r, buf);
    if (r == 0) { done(); return PROGRESS; }
    if (left > 0) left -= r;
    if (upper) for (ssize_t i = 0; i < r; i++) buf[i] = toupper((unsigned char)buf[i]);
    if (!dosink) { blen = r; boff = 0; }
    return PROGRESS;
  }
}

static void hexout(FILE *f, const char *s) { for (; *s; s++) fprintf(f, "%02x", (unsigned char)*s); }
static char *describe(size_t *n) {
  char *b; FILE *f = open_memstream(&b, n);
  char p[4096]; ssize_t l;
  fprintf(f, "pid %d %d\n", getpid(), getppid());
  if (getcwd(p, sizeof p)) { fprintf(f, "cwd "); hexout(f, p); fprintf(f, "\n"); }
  for (int i = 0; i < argc; i++) { fprintf(f, "arg "); hexout(f, argv[i]); fprintf(f, "\n"); }
  for (char **e = environ; *e; e++) { fprintf(f, "env "); hexout(f, *e); fprintf(f, "\n"); }
  for (int fd = 0; fd < 4096; fd++) {
    if (fd == ctl) continue;
    int fl = fcntl(fd, F_GETFL); if (fl < 0) continue;
    struct stat st; fstat(fd, &st); char lk[64]; snprintf(lk, sizeof lk, "/proc/self/fd/%d", fd);
    l = readlink(lk, p, sizeof p - 1); if (l < 0) l = 0; p[l] = 0;
    fprintf(f, "fd %d %d %lld %d %llu ", fd, fl, (long long)lseek(fd, 0, SEEK_CUR), (int)(st.st_mode & S_IFMT), (unsigned long long)st.st_ino);
    hexout(f, p); fprintf(f, "\n");
  }
  fclose(f);
  return b;
}
static void report(void) {
  size_t n; char *b = describe(&n);
  uint32_t len = n; if (write(ctl, &len, 4) != 4) _exit(98);
  size_t off = 0; while (off < n) { ssize_t r = write(ctl, b + off, n - off); if (r <= 0) _exit(98); off += r; }
  free(b);
}

int main(int ac, char **av) {
  argc = ac; argv = av;
  signal(SIGPIPE, SIG_IGN); // a write to a closed pipe fails
  char exe[4096]; ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (l > 0) {
    exe[l] = 0; char *s = strrchr(exe, '/'); if (s) *s = 0;
    struct sockaddr_un sa = {0}; sa.sun_family = AF_UNIX;
    if (snprintf(sa.sun_path, sizeof sa.sun_path, "%s/ctl", exe) < (int)sizeof sa.sun_path) {
      int s0 = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
      if (s0 >= 0) {
        int hi = fcntl(s0, F_DUPFD_CLOEXEC, 600);
        if (hi < 0) { struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); hi = fcntl(s0, F_DUPFD_CLOEXEC, 600); }
        close(s0);
        if (hi >= 0 && connect(hi, (struct sockaddr *)&sa, sizeof sa) == 0) ctl = hi; else if (hi >= 0) close(hi);
      }
    }
  }
  if (ctl < 0 && getenv("VA_REPORT")) { // say how we were called and use the files among the arguments
    size_t n; char *b = describe(&n); FILE *f = fopen(getenv("VA_REPORT"), "w");
    fwrite(b, 1, n, f);
    for (int i = 1; i < argc; i++) {
      char *a = strstr(argv[i], "/dev/fd/"); if (!a) continue;
      int fd = atoi(a + 8), acc = fcntl(fd, F_GETFL) & O_ACCMODE;
      if (acc == O_WRONLY) { dprintf(fd, "to %d\nend\n", i); continue; }
      int mine = open(a, O_RDONLY); char c[4096]; ssize_t l;
      fprintf(f, "data %d ", i);
      while (mine >= 0 && (l = read(mine, c, sizeof c)) > 0) for (ssize_t k = 0; k < l; k++) fprintf(f, "%02x", (unsigned char)c[k]);
      fprintf(f, "\n");
    }
    fclose(f); _exit(0);
  }
  if (ctl < 0) { // free running
    for (;;) { int r = step(0); if (r == TERM) _exit(status_); if (r == STOPME) raise(SIGSTOP); if (r == PAUSED) for (;;) pause(); }
  }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  report();
  char c; ssize_t r;
  for (;;) {
    do r = read(ctl, &c, 1); while (r < 0 && errno == EINTR);
    if (r <= 0) _exit(98);
    int q;
    if (c == 'Q') q = step(1);
    else for (;;) {
      q = step(0);
      if (q == TERM) die(status_);
      if (q == STOPME) { reply('Z'); raise(SIGSTOP); break; }
      if (q == BLOCKED || q == PAUSED) break;
      if (c == 'S') { q = step(1); break; }
    }
    if (q == STOPME) continue;
    reply(q == BLOCKED ? 'b' : q == PAUSED ? 'p' : 'r');
  }
}
