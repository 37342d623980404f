/* libsimos.so: a deterministic simulated operating system, interposed on libc by LD_PRELOAD.
 *
 * The program under test runs unmodified; its calls for files, sockets, name resolution, time,
 * sleeping, randomness and thread blocking end up here and are answered from a plan kept in
 * shared memory (simos.h).  Threads of the program are tasks of a cooperative scheduler: exactly
 * one runs at a time and the next one is chosen by a seeded generator at every intercepted call,
 * so a run is a pure function of the plan.
 *
 * MODE_TASKS    only threads registered by the harness are simulated (in-process library runs)
 * MODE_PROCESS  every thread of the process is simulated, fds 0/1/2 and all paths are virtual
 * MODE_PREFIX   only paths below `prefix` are virtual, everything else is passed through
 */
#define _GNU_SOURCE
#include "simos.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

static SimShm *S;
static __thread int self_task __attribute__((tls_model("initial-exec"))) = -1;
static __thread int in_sim __attribute__((tls_model("initial-exec"))) = 0;

/* ---------------------------------------------------------------- raw helpers */
static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static long rawe(long n, long a, long b, long c, long d, long e, long f) {
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
#define R3(n, a, b, c) rawe(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define R6(n, a, b, c, d, e, f) rawe(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static void die(const char *msg) {
  raw(SYS_write, 2, (long)"simos: ", 7, 0, 0, 0);
  raw(SYS_write, 2, (long)msg, (long)strlen(msg), 0, 0, 0);
  raw(SYS_write, 2, (long)"\n", 1, 0, 0, 0);
  raw(SYS_exit_group, 99, 0, 0, 0, 0, 0);
}

static uint64_t rng_state;
static uint64_t mix64(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static uint64_t rng(void) { return mix64(rng_state += 0x9E3779B97F4A7C15ULL); }
static uint64_t rand_state;

/* ---------------------------------------------------------------- tasks and the scheduler */
enum { T_NONE, T_READY, T_SLEEP, T_FUTEX, T_JOIN, T_DONE };
typedef struct {
  int state;
  uint64_t wake;             /* T_SLEEP / timed T_FUTEX: absolute simulated ns, ~0: never */
  int *faddr;
  int woken;
  int join;
  pthread_t th;
  int have_th;
} Task;
static Task tasks[MAXTASKS];
static int ntasks_seen, cur_task = -1, entered;
static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t GC[MAXTASKS];
static int started;

static uint64_t fnv(uint64_t h, const void *p, size_t n) {
  const uint8_t *b = p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
  return h;
}

static void kill_now(void) {
  S->killed = 1;
  raw(SYS_exit_group, 137, 0, 0, 0, 0, 0);
}

static void log_op(int op, int fd, int64_t a, int64_t ret, const char *str) {
  uint64_t rec[5] = {(uint64_t)op, (uint64_t)(self_task + 1), (uint64_t)(int64_t)fd, (uint64_t)a, (uint64_t)ret};
  S->trace_hash = fnv(S->trace_hash, rec, sizeof rec);
  if (str) S->trace_hash = fnv(S->trace_hash, str, strlen(str));
  uint64_t i = S->nops++;
  if (i < MAXOPS) {
    SimOp *o = &S->ops[i];
    o->op = (uint16_t)op; o->task = (uint16_t)(self_task + 1); o->fd = fd; o->a = a; o->ret = ret;
    o->str = 0; o->t_us = S->now_ns / 1000;
    if (str) {
      size_t n = strlen(str) + 1;
      if (n > 2000) n = 2000;
      if (S->str_used + n + 1 < STRCAP) {
        o->str = S->str_used;
        memcpy(S->strs + S->str_used, str, n);
        S->strs[S->str_used + n - 1] = 0;
        S->str_used += (uint32_t)n;
      }
    }
  }
  if (S->step_cap && S->nops > S->step_cap) {
    S->step_capped = 1;
    raw(SYS_exit_group, 97, 0, 0, 0, 0, 0);
  }
  if (S->kill_at_op && S->nops >= S->kill_at_op) kill_now();
}

static int pick_next(int me) {
  /* wake sleepers; when nobody is ready, jump the clock to the next wake-up */
  for (;;) {
    int ready[MAXTASKS], n = 0, me_ready = 0;
    uint64_t min = ~0ULL;
    for (int i = 0; i < ntasks_seen; i++) {
      Task *t = &tasks[i];
      if ((t->state == T_SLEEP || t->state == T_FUTEX) && t->wake <= S->now_ns) t->state = T_READY;
      if (t->state == T_JOIN && tasks[t->join].state == T_DONE) t->state = T_READY;
      if (t->state == T_READY) { ready[n++] = i; if (i == me) me_ready = 1; }
      else if ((t->state == T_SLEEP || t->state == T_FUTEX) && t->wake < min) min = t->wake;
    }
    if (n) {
      uint32_t k = S->nsched;
      int choice;
      if (n == 1) choice = ready[0];
      else {
        if (k >= MAXSCHED) choice = me_ready ? me : ready[0];
        else if (S->sched_n) {
          int want = k < S->sched_n ? S->sched_in[k] : 255;
          int ok = 0;
          for (int i = 0; i < n; i++) if (ready[i] == want) ok = 1;
          choice = ok ? want : (me_ready ? me : ready[0]);
        } else if (me_ready && rng() % 100 >= S->switch_pct) choice = me;
        else choice = ready[rng() % (uint64_t)n];
        if (k < MAXSCHED) { S->sched_out[k] = (uint8_t)choice; S->nsched = k + 1; }
        if (choice != me) {
          S->n_switches++;
          uint64_t rec[2] = {0x5c4edULL, (uint64_t)choice};
          S->trace_hash = fnv(S->trace_hash, rec, sizeof rec);
        }
      }
      return choice;
    }
    if (min == ~0ULL) {
      int all_done = 1;
      for (int i = 0; i < ntasks_seen; i++) if (tasks[i].state != T_DONE && tasks[i].state != T_NONE) all_done = 0;
      if (all_done) return -1;
      S->deadlock = 1;
      raw(SYS_exit_group, 98, 0, 0, 0, 0, 0);
    }
    S->now_ns = min;
  }
}

/* give up the token until this task is chosen again; the caller has set its own state */
static void reschedule(void) {
  int me = self_task;
  int next = pick_next(me);
  if (next == me) return;
  pthread_mutex_lock(&G);
  cur_task = next;
  if (next >= 0) pthread_cond_signal(&GC[next]);
  while (cur_task != me) pthread_cond_wait(&GC[me], &G);
  pthread_mutex_unlock(&G);
}

static void sched_point(void) {
  if (self_task < 0 || ntasks_seen < 2) return;
  reschedule();
}

static void sleep_until(uint64_t t) {
  if (t <= S->now_ns) return;
  if (self_task < 0 || ntasks_seen < 2) { S->now_ns = t; return; }
  tasks[self_task].state = T_SLEEP;
  tasks[self_task].wake = t;
  reschedule();
}

static int active(void) {
  if (!S || in_sim) return 0;
  switch (S->mode) {
    case MODE_TASKS: case MODE_PROCESS: return self_task >= 0;
    case MODE_PREFIX: return 1;
    default: return 0;
  }
}

/* the prefix mode has real threads: one lock around the simulator state */
static pthread_mutex_t PL = PTHREAD_MUTEX_INITIALIZER;
static void enter(void) {
  in_sim++;
  if (S->mode == MODE_PREFIX) pthread_mutex_lock(&PL);
  else { in_sim--; sched_point(); in_sim++; }
}
static void leave(void) {
  if (S->mode == MODE_PREFIX) pthread_mutex_unlock(&PL);
  in_sim--;
}

/* ---------------------------------------------------------------- descriptors */
enum { K_FREE, K_FILE, K_SOCK, K_STDIN, K_STDOUT, K_STDERR, K_DIR };
typedef struct { uint32_t idx, rem; uint64_t until; } Cursor;
#define MAXQ 8
typedef struct {
  int kind, file, flags, refs;
  uint64_t pos, wpos;
  Cursor rc, wc;
  /* sockets */
  int nonblock, ep, connected, conn_err, closed_wr;
  uint64_t conn_at, rcvtimeo, sndtimeo;
  uint32_t ip, port;
  int q[MAXQ], qclose[MAXQ], qn;   /* responses queued on this connection: stream index, close */
  uint64_t qpos;
  char *req; uint32_t reqlen;
  int raw_started;
  int alias;                      /* for dup */
} Fd;
static Fd fds[MAXFDS];

static int fd_alloc(int kind) {
  uint32_t lim = S->fd_limit ? S->fd_limit : MAXFDS;
  for (uint32_t i = 0; i < MAXFDS && i < lim; i++)
    if (fds[i].kind == K_FREE) {
      char *keep = fds[i].req;
      memset(&fds[i], 0, sizeof fds[i]);
      fds[i].req = keep;
      fds[i].kind = kind;
      fds[i].file = -1;
      fds[i].ep = -1;
      S->open_fds++;
      if (S->open_fds > S->max_open_fds) S->max_open_fds = S->open_fds;
      return (int)i;
    }
  S->n_emfile++;
  return -1;
}
static Fd stdio_fd[3];
/* virtual descriptor or NULL when the fd is not ours */
static Fd *vfd(int fd) {
  if (!S) return NULL;
  if (fd >= FD_BASE && fd < FD_BASE + MAXFDS) {
    Fd *f = &fds[fd - FD_BASE];
    return f->kind == K_FREE ? NULL : f;
  }
  if (S->mode == MODE_PROCESS && fd >= 0 && fd <= 2 && self_task >= 0) return &stdio_fd[fd];
  return NULL;
}
static int is_virtual_range(int fd) { return S && fd >= FD_BASE && fd < FD_BASE + MAXFDS; }

/* ---------------------------------------------------------------- scripts */
#define GATE_EOF (-100000)
/* decides how many of n bytes may move at pos; negative errno or GATE_EOF otherwise */
static int64_t gate(const SimScript *s, Cursor *c, uint64_t pos, uint64_t n, uint64_t timeout, int nonblock) {
  uint64_t limit = n;
  for (;;) {
    while (c->idx < s->ev_n && S->events[s->ev_start + c->idx].off < pos) { c->idx++; c->rem = 0; c->until = 0; }
    if (c->idx >= s->ev_n) break;
    const SimEvent *e = &S->events[s->ev_start + c->idx];
    if (e->off > pos) { if (e->off - pos < limit) limit = e->off - pos; break; }
    switch (e->kind) {
      case EV_EINTR:
        if (nonblock) break; /* only waiting calls are interrupted */
        if (c->rem == 0) c->rem = e->arg + 1;
        if (c->rem > 1) { c->rem--; S->fired[EV_EINTR]++; return -EINTR; }
        break;
      case EV_ERR:
        if (e->arg2 == 0) { S->fired[EV_ERR]++; return -(int64_t)e->arg; }
        if (c->rem == 0) c->rem = e->arg2 + 1;
        if (c->rem > 1) { c->rem--; S->fired[EV_ERR]++; return -(int64_t)e->arg; }
        break;
      case EV_EOF:
        S->fired[EV_EOF]++;
        return GATE_EOF;
      case EV_DELAY: {
        if (!c->until) { c->until = S->now_ns + (uint64_t)e->arg * 1000000ULL; S->fired[EV_DELAY]++; }
        if (S->now_ns < c->until) {
          if (nonblock) return -EAGAIN;
          if (timeout && S->now_ns + timeout < c->until) {
            S->n_rcvtimeo++;
            sleep_until(S->now_ns + timeout);
            return -EAGAIN;
          }
          sleep_until(c->until);
        }
        break;
      }
      case EV_STALL:
        S->fired[EV_STALL]++;
        if (nonblock) return -EAGAIN;
        if (timeout) { S->n_rcvtimeo++; sleep_until(S->now_ns + timeout); return -EAGAIN; }
        S->hang = 1;
        return -ECONNABORTED;
      case EV_KILL:
        S->fired[EV_KILL]++;
        kill_now();
        break;
      case EV_SPLIT:
        S->fired[EV_SPLIT]++;
        break;
    }
    c->idx++; c->rem = 0; c->until = 0;
  }
  if (s->chunk && limit > s->chunk) limit = s->chunk;
  if (s->jitter && limit > 1) limit = 1 + rng() % limit;
  if (limit < n) S->n_short++;
  return (int64_t)limit;
}

/* ---------------------------------------------------------------- file system */
static void normalise(const char *in, char *out) {
  char tmp[1024];
  if (in[0] == '/') snprintf(tmp, sizeof tmp, "%s", in);
  else snprintf(tmp, sizeof tmp, "%s/%s", S->cwd[0] ? S->cwd : "/", in);
  char *parts[128]; int n = 0;
  for (char *p = strtok(tmp, "/"); p; p = strtok(NULL, "/")) {
    if (!strcmp(p, ".")) continue;
    if (!strcmp(p, "..")) { if (n) n--; continue; }
    if (n < 128) parts[n++] = p;
  }
  out[0] = 0;
  size_t l = 0;
  if (!n) { strcpy(out, "/"); return; }
  for (int i = 0; i < n; i++) l += (size_t)snprintf(out + l, PATHCAP > l ? PATHCAP - l : 0, "/%s", parts[i]);
}
static int find_file(const char *path) {
  char p[PATHCAP + 1024];
  normalise(path, p);
  for (uint32_t i = 0; i < S->nfiles; i++)
    if (S->files[i].path[0] && !strcmp(S->files[i].path, p)) return (int)i;
  return -1;
}
/* a record named "*" stands for every path that has no record of its own and is only looked at or read */
static int find_read(const char *path, const char *norm) {
  int i = find_file(path);
  if (i >= 0) return i;
  static const char *const not_ours[] = {"/proc/", "/sys/", "/etc/", "/dev/", "/usr/", "/lib/", "/lib64/"};
  for (size_t k = 0; k < sizeof not_ours / sizeof *not_ours; k++) if (!strncmp(norm, not_ours[k], strlen(not_ours[k]))) return -1;
  if (!strcmp(norm, "/") || !strcmp(norm, S->cwd)) return -1;
  for (uint32_t k = 0; k < S->nfiles; k++)
    if (S->files[k].path[0] == '*' && !S->files[k].path[1]) return (int)k;
  return -1;
}
static int path_virtual(const char *path) {
  if (!path) return 0;
  if (S->mode == MODE_PREFIX) {
    size_t n = strlen(S->prefix);
    /* also as a relative path */
    if (n > 2 && path[0] == '.' && path[1] == '/' && !strncmp(path + 2, S->prefix + 1, n - 1)) return 1;
    if (n > 2 && !strncmp(path, S->prefix + 1, n - 1)) return 1;
    return n && !strncmp(path, S->prefix, n);
  }
  return 1;
}
/* a parent directory exists if it is "/" , the cwd, or a directory record, or a prefix of some record */
static int dir_exists(const char *norm) {
  char d[PATHCAP]; snprintf(d, sizeof d, "%s", norm);
  char *s = strrchr(d, '/');
  if (!s || s == d) return 1;
  *s = 0;
  if (!strcmp(d, S->cwd)) return 1;
  for (uint32_t i = 0; i < S->nfiles; i++)
    if (S->files[i].exists && S->files[i].is_dir && !strcmp(S->files[i].path, d)) return 1;
  return 0;
}
static int new_file(const char *path) {
  char p[PATHCAP + 1024];
  normalise(path, p);
  int i = -1;
  for (uint32_t k = 0; k < S->nfiles; k++) if (!S->files[k].path[0]) i = (int)k;
  if (i < 0) { if (S->nfiles >= MAXFILES) return -1; i = (int)S->nfiles++; }
  SimFile *f = &S->files[i];
  memset(f, 0, sizeof *f);
  snprintf(f->path, PATHCAP, "%s", p);
  f->fake_size = -1;
  f->data_off = S->data_used;
  return i;
}
static int ensure_cap(SimFile *f, uint64_t need) {
  if (need <= f->data_cap) return 0;
  uint64_t cap = f->data_cap ? f->data_cap * 2 : 65536;
  while (cap < need) cap *= 2;
  if (S->data_used + cap > DATACAP) return -1;
  memcpy(S->data + S->data_used, S->data + f->data_off, f->data_len);
  f->data_off = S->data_used;
  f->data_cap = cap;
  S->data_used += cap;
  return 0;
}

static int is_there(int i) { SimFile *f = &S->files[i]; return f->exists && !(f->open_limit && f->opens_r >= f->open_limit); }

static int do_open(const char *path, int flags) {
  int acc = flags & O_ACCMODE;
  int want_w = acc == O_WRONLY || acc == O_RDWR || (flags & (O_TRUNC | O_CREAT));
  char norm[PATHCAP + 1024]; normalise(path, norm);
  int i = want_w ? find_file(path) : find_read(path, norm);
  if (i < 0 || !is_there(i)) {
    if (i < 0) S->unknown_paths++;
    if (i >= 0 && S->files[i].open_err && !want_w) { S->n_open_err++; log_op(OP_OPEN, -1, flags, -S->files[i].open_err, norm); errno = S->files[i].open_err; return -1; }
    if (i >= 0 && S->files[i].openw_err && want_w) { S->n_open_err++; log_op(OP_OPEN, -1, flags, -S->files[i].openw_err, norm); errno = S->files[i].openw_err; return -1; }
    if (!(flags & O_CREAT) || !dir_exists(norm)) { log_op(OP_OPEN, -1, flags, -ENOENT, norm); errno = ENOENT; return -1; }
    if (i < 0) i = new_file(path);
    if (i < 0) { log_op(OP_OPEN, -1, flags, -ENOSPC, norm); errno = ENOSPC; return -1; }
    S->files[i].exists = 1; S->files[i].created = 1; S->files[i].changed = 1;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { log_op(OP_OPEN, -1, flags, -EEXIST, norm); errno = EEXIST; return -1; }
  SimFile *f = &S->files[i];
  int err = 0;
  if (f->is_dir && want_w) err = EISDIR;
  else if (want_w && f->openw_err) err = f->openw_err;
  else if (!want_w && f->open_err) err = f->open_err;
  else if (acc == O_RDWR && f->open_err) err = f->open_err;
  if (err) { S->n_open_err++; log_op(OP_OPEN, -1, flags, -err, norm); errno = err; return -1; }
  int k = fd_alloc(f->is_dir ? K_DIR : K_FILE);
  if (k < 0) { log_op(OP_OPEN, -1, flags, -EMFILE, norm); errno = EMFILE; return -1; }
  fds[k].file = i; fds[k].flags = flags;
  log_op(OP_OPEN, FD_BASE + k, flags, FD_BASE + k, norm);
  if (want_w) {
    f->opens_w++;
    if (!f->first_open_w_seq) f->first_open_w_seq = S->nops;
  } else f->opens_r++;
  if ((flags & O_TRUNC) && !f->is_fifo) { if (f->data_len) f->changed = 1; f->data_len = 0; f->truncated++; }
  return FD_BASE + k;
}

static SimScript no_script;
static int64_t do_read_at(Fd *d, void *buf, uint64_t n, uint64_t pos, Cursor *c) {
  SimFile *f = d->file >= 0 ? &S->files[d->file] : NULL;
  if (d->kind == K_DIR) return -EISDIR;
  if (!f) return -EBADF;
  if ((d->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
  if (n == 0) return 0;
  f->last_read_seq = S->nops;
  int64_t g = gate(&f->rd, c, pos, n, 0, 0);
  if (g == GATE_EOF) return 0;
  if (g < 0) return g;
  if (pos >= f->data_len) { f->eof_seen = 1; return 0; }
  uint64_t m = f->data_len - pos;
  if (m > (uint64_t)g) m = (uint64_t)g;
  memcpy(buf, S->data + f->data_off + pos, m);
  f->bytes_read += m;
  return (int64_t)m;
}
static int64_t do_write_at(Fd *d, int file, const void *buf, uint64_t n, uint64_t pos) {
  SimFile *f = &S->files[file];
  if (d->kind == K_FILE && (d->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
  if (n == 0) return 0;
  int64_t g = gate(&f->wr, &d->wc, pos, n, 0, 0);
  if (g == GATE_EOF) g = -ENOSPC;
  if (g < 0) return g;
  uint64_t m = (uint64_t)g;
  if (ensure_cap(f, pos + m)) return -ENOSPC;
  uint8_t *base = S->data + f->data_off;
  if (pos > f->data_len) memset(base + f->data_len, 0, pos - f->data_len);
  memcpy(base + pos, buf, m);
  if (pos + m > f->data_len) f->data_len = pos + m;
  f->bytes_written += m;
  f->changed = 1;
  return (int64_t)m;
}

/* ---------------------------------------------------------------- sockets: the simulated peer */
static int find_ep(uint32_t ip, uint32_t port) {
  for (uint32_t i = 0; i < S->neps; i++)
    if (S->eps[i].ip == ip && S->eps[i].port == port) return (int)i;
  /* a record with no address stands for every other one */
  for (uint32_t i = 0; i < S->neps; i++)
    if (S->eps[i].ip == 0xffffffffu) return (int)i;
  return -1;
}
static void queue_response(Fd *d, int stream, int close_after) {
  if (d->qn < MAXQ) { d->q[d->qn] = stream; d->qclose[d->qn] = close_after; d->qn++; }
}
static void server_got(Fd *d) {
  SimEp *e = &S->eps[d->ep];
  if (e->raw_stream >= 0) {
    if (!d->raw_started) { d->raw_started = 1; queue_response(d, e->raw_stream, (int)e->raw_close); }
    return;
  }
  for (;;) {
    char *end = d->reqlen ? memmem(d->req, d->reqlen, "\r\n\r\n", 4) : NULL;
    if (!end) return;
    uint32_t hl = (uint32_t)(end - d->req) + 4;
    char head[REQCAP];
    uint32_t cp = hl < REQCAP - 1 ? hl : REQCAP - 1;
    memcpy(head, d->req, cp); head[cp] = 0;
    memmove(d->req, d->req + hl, d->reqlen - hl);
    d->reqlen -= hl;
    char method[32] = "", path[PATHCAP] = "", host[128] = "";
    sscanf(head, "%31s %255s", method, path);
    char *h = strcasestr(head, "\r\nhost:");
    if (h) { h += 7; while (*h == ' ') h++; size_t k = strcspn(h, "\r\n"); if (k > 127) k = 127; memcpy(host, h, k); host[k] = 0; }
    int found = -1;
    for (uint32_t i = 0; i < S->nroutes; i++) {
      SimRoute *r = &S->routes[i];
      if (r->ep >= 0 && r->ep != d->ep) continue;
      if (r->host[0] && strcasecmp(r->host, host)) continue;
      if (strcmp(r->path, path) && strcmp(r->path, "*")) continue;
      if (r->max_uses && r->uses >= r->max_uses) continue;
      found = (int)i; break;
    }
    if (S->nreqs < MAXREQS) {
      SimReq *q = &S->reqs[S->nreqs++];
      q->ep = d->ep; q->route = found; q->task = (uint32_t)(self_task + 1); q->len = cp; q->seq = S->nops;
      memcpy(q->text, head, cp + 1);
    }
    if (found >= 0) { S->routes[found].uses++; queue_response(d, S->routes[found].stream, (int)S->routes[found].close_after); }
    else queue_response(d, -2, 1);
  }
}
static const char NOTFOUND[] = "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";

static int64_t sock_recv(Fd *d, void *buf, uint64_t n, int flags) {
  int nb = d->nonblock || (flags & MSG_DONTWAIT);
  if (!d->connected) return -ENOTCONN;
  if (n == 0) return 0;
  for (;;) {
    if (d->qn == 0) {
      /* idle connection: nothing will ever come */
      if (nb) return -EAGAIN;
      if (d->rcvtimeo) { S->n_rcvtimeo++; sleep_until(S->now_ns + d->rcvtimeo); return -EAGAIN; }
      S->hang = 1;
      return -ECONNABORTED;
    }
    int st = d->q[0];
    const uint8_t *data; uint64_t len; const SimScript *sc;
    if (st == -2) { data = (const uint8_t *)NOTFOUND; len = sizeof NOTFOUND - 1; sc = &no_script; }
    else { data = S->data + S->streams[st].data_off; len = S->streams[st].data_len; sc = &S->streams[st].rd; }
    int64_t g = gate(sc, &d->rc, d->qpos, n, d->rcvtimeo, nb);
    if (g == GATE_EOF) return 0;
    if (g < 0) return g;
    if (d->qpos >= len) {
      if (d->qclose[0]) return 0;
      d->qn--;
      memmove(d->q, d->q + 1, sizeof(int) * MAXQ - sizeof(int));
      memmove(d->qclose, d->qclose + 1, sizeof(int) * MAXQ - sizeof(int));
      d->qpos = 0; memset(&d->rc, 0, sizeof d->rc);
      continue;
    }
    uint64_t m = len - d->qpos;
    if (m > (uint64_t)g) m = (uint64_t)g;
    memcpy(buf, data + d->qpos, m);
    if (!(flags & MSG_PEEK)) d->qpos += m;
    return (int64_t)m;
  }
}
static int64_t sock_send(Fd *d, const void *buf, uint64_t n) {
  if (!d->connected) return -EPIPE;
  if (d->closed_wr) return -EPIPE;
  if (n == 0) return 0;
  SimEp *e = &S->eps[d->ep];
  int64_t g = gate(&e->wr, &d->wc, d->wpos, n, d->sndtimeo, d->nonblock);
  if (g == GATE_EOF) g = -EPIPE;
  if (g < 0) return g;
  uint64_t m = (uint64_t)g;
  if (!d->req) { in_sim++; d->req = malloc(65536); in_sim--; }
  if (d->reqlen + m > 65536) m = 65536 - d->reqlen;
  memcpy(d->req + d->reqlen, buf, m);
  d->reqlen += (uint32_t)m;
  d->wpos += m;
  server_got(d);
  return (int64_t)m;
}

static int64_t stdin_read(Fd *d, void *buf, uint64_t n) {
  if (!S->stdin_stream) { S->stdin_eof++; return 0; }
  SimStream *st = &S->streams[S->stdin_stream - 1];
  if (n == 0) return 0;
  int64_t g = gate(&st->rd, &d->rc, d->pos, n, 0, 0);
  if (g == GATE_EOF) { S->stdin_eof++; return 0; }
  if (g < 0) return g;
  uint64_t m = st->data_len - d->pos;
  if (!m) { S->stdin_eof++; return 0; }
  if (m > (uint64_t)g) m = (uint64_t)g;
  memcpy(buf, S->data + st->data_off + d->pos, m);
  d->pos += m;
  S->stdin_read = d->pos;
  return (int64_t)m;
}

static int64_t any_read(Fd *d, int fd, void *buf, uint64_t n, int flags) {
  int64_t r;
  switch (d->kind) {
    case K_SOCK: r = sock_recv(d, buf, n, flags); log_op(OP_RECV, fd, (int64_t)n, r, NULL); break;
    case K_STDIN: r = stdin_read(d, buf, n); log_op(OP_READ, fd, (int64_t)n, r, NULL); break;
    case K_FILE: case K_DIR:
      r = do_read_at(d, buf, n, d->pos, &d->rc);
      if (r > 0) d->pos += (uint64_t)r;
      log_op(OP_READ, fd, (int64_t)n, r, NULL);
      break;
    default: r = -EBADF; log_op(OP_READ, fd, (int64_t)n, r, NULL);
  }
  return r;
}
static int64_t any_write(Fd *d, int fd, const void *buf, uint64_t n) {
  int64_t r;
  switch (d->kind) {
    case K_SOCK: r = sock_send(d, buf, n); log_op(OP_SEND, fd, (int64_t)n, r, NULL); break;
    case K_STDOUT: case K_STDERR: {
      uint32_t k = d->kind == K_STDOUT ? S->stdout_file : S->stderr_file;
      if (!k) r = (int64_t)n;
      else {
        SimFile *f = &S->files[k - 1];
        r = do_write_at(d, (int)(k - 1), buf, n, f->data_len);
      }
      log_op(OP_WRITE, fd, (int64_t)n, r, NULL);
      break;
    }
    case K_FILE: {
      SimFile *f = &S->files[d->file];
      if ((d->flags & O_APPEND) || f->is_fifo) d->pos = f->data_len;
      r = do_write_at(d, d->file, buf, n, d->pos);
      if (r > 0) d->pos += (uint64_t)r;
      log_op(OP_WRITE, fd, (int64_t)n, r, NULL);
      break;
    }
    default: r = -EBADF; log_op(OP_WRITE, fd, (int64_t)n, r, NULL);
  }
  return r;
}
static int64_t ret_errno(int64_t r) {
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}

/* ---------------------------------------------------------------- interposed: reading and writing */
static int ours(int fd) { return active() && vfd(fd) != NULL; }
/* a virtual-range descriptor that is not open: use after close */
static int stale(int fd) { return active() && is_virtual_range(fd) && vfd(fd) == NULL; }
static int bad_fd(int fd) { enter(); S->bad_close++; log_op(OP_BADFD, fd, 0, -EBADF, NULL); leave(); errno = EBADF; return -1; }

ssize_t read(int fd, void *buf, size_t n) {
  if (stale(fd)) return bad_fd(fd);
  if (!ours(fd)) return R3(SYS_read, fd, buf, n);
  enter(); int64_t r = any_read(vfd(fd), fd, buf, n, 0); leave();
  return (ssize_t)ret_errno(r);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t bl) { (void)bl; return read(fd, buf, n); }
ssize_t write(int fd, const void *buf, size_t n) {
  if (stale(fd)) return bad_fd(fd);
  if (!ours(fd)) return R3(SYS_write, fd, buf, n);
  enter(); int64_t r = any_write(vfd(fd), fd, buf, n); leave();
  return (ssize_t)ret_errno(r);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (stale(fd)) return bad_fd(fd);
  if (!ours(fd)) return R3(SYS_readv, fd, v, c);
  enter();
  Fd *d = vfd(fd);
  int64_t tot = 0; 
  size_t want = 0;
  for (int i = 0; i < c; i++) want += v[i].iov_len;
  if (want == 0) { leave(); return 0; }
  char *tmp = malloc(want);
  tot = any_read(d, fd, tmp, want, 0);
  if (tot > 0) {
    size_t off = 0, left = (size_t)tot;
    for (int i = 0; i < c && left; i++) {
      size_t m = v[i].iov_len < left ? v[i].iov_len : left;
      memcpy(v[i].iov_base, tmp + off, m); off += m; left -= m;
    }
  }
  free(tmp);
  leave();
  return (ssize_t)ret_errno(tot);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (stale(fd)) return bad_fd(fd);
  if (!ours(fd)) return R3(SYS_writev, fd, v, c);
  enter();
  size_t want = 0;
  for (int i = 0; i < c; i++) want += v[i].iov_len;
  char *tmp = malloc(want + 1); size_t off = 0;
  for (int i = 0; i < c; i++) { memcpy(tmp + off, v[i].iov_base, v[i].iov_len); off += v[i].iov_len; }
  int64_t r = any_write(vfd(fd), fd, tmp, want);
  free(tmp);
  leave();
  return (ssize_t)ret_errno(r);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
  if (stale(fd)) return bad_fd(fd);
  if (!ours(fd)) return R6(SYS_pread64, fd, buf, n, off, 0, 0);
  enter();
  Fd *d = vfd(fd); int64_t r;
  if (d->kind != K_FILE) r = -ESPIPE;
  else if (S->files[d->file].is_fifo) r = -ESPIPE;
  else {
    if ((uint64_t)off != d->wpos) { memset(&d->rc, 0, sizeof d->rc); }
    r = do_read_at(d, buf, n, (uint64_t)off, &d->rc);
    if (r > 0) d->wpos = (uint64_t)off + (uint64_t)r;
  }
  log_op(OP_READ, fd, (int64_t)n, r, NULL);
  leave();
  return (ssize_t)ret_errno(r);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
  if (stale(fd)) return bad_fd(fd);
  if (!ours(fd)) return R6(SYS_pwrite64, fd, buf, n, off, 0, 0);
  enter();
  Fd *d = vfd(fd);
  int64_t r = d->kind == K_FILE ? do_write_at(d, d->file, buf, n, (uint64_t)off) : -ESPIPE;
  log_op(OP_WRITE, fd, (int64_t)n, r, NULL);
  leave();
  return (ssize_t)ret_errno(r);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }

int close(int fd) {
  if (stale(fd)) {
    enter(); S->bad_close++; log_op(OP_BADFD, fd, 0, -EBADF, NULL); leave();
    errno = EBADF; return -1;
  }
  /* a descriptor of ours may be closed by a thread that is not a task (e.g. after its task ended) */
  if (is_virtual_range(fd) && S->mode != MODE_OFF) {
    Fd *d = vfd(fd);
    if (!d) { S->bad_close++; errno = EBADF; return -1; }
    int act = active();
    if (act) enter();
    d->kind = K_FREE; d->reqlen = 0;
    S->open_fds--;
    log_op(OP_CLOSE, fd, 0, 0, NULL);
    if (act) leave();
    return 0;
  }
  if (!ours(fd)) return (int)R3(SYS_close, fd, 0, 0);
  enter(); log_op(OP_CLOSE, fd, 0, 0, NULL); leave();
  return 0;
}
off64_t lseek64(int fd, off64_t off, int whence) {
  if (!ours(fd)) return R3(SYS_lseek, fd, off, whence);
  enter();
  Fd *d = vfd(fd); int64_t r;
  if (d->kind != K_FILE || S->files[d->file].is_fifo) r = -ESPIPE;
  else {
    SimFile *f = &S->files[d->file];
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)d->pos : (f->fake_size >= 0 ? f->fake_size : (int64_t)f->data_len);
    r = base + off;
    if (r < 0) r = -EINVAL;
    else { if ((uint64_t)r != d->pos) memset(&d->rc, 0, sizeof d->rc); d->pos = (uint64_t)r; }
  }
  log_op(OP_SEEK, fd, off, r, NULL);
  leave();
  return ret_errno(r);
}
off_t lseek(int fd, off_t off, int whence) { return lseek64(fd, off, whence); }

/* ---------------------------------------------------------------- interposed: opening and metadata */
static int open_common(int dirfd, const char *path, int flags, mode_t mode) {
  if (active() && path_virtual(path)) {
    enter();
    char buf[PATHCAP * 2 + 2];
    const char *p = path;
    if (path[0] != '/' && dirfd != AT_FDCWD) {
      Fd *d = vfd(dirfd);
      if (d && d->file >= 0) { snprintf(buf, sizeof buf, "%s/%s", S->files[d->file].path, path); p = buf; }
    }
    int r = do_open(p, flags);
    int e = errno;
    leave();
    errno = e;
    return r;
  }
  return (int)R6(SYS_openat, dirfd, path, flags, mode, 0, 0);
}
#define GETMODE(flags, last) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, last); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE(flags, flags) return open_common(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE(flags, flags) return open_common(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE(flags, flags) return open_common(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE(flags, flags) return open_common(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return open_common(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }

static void fill_stat(struct stat *st, SimFile *f, int kind) {
  memset(st, 0, sizeof *st);
  st->st_nlink = 1; st->st_blksize = 4096; st->st_uid = 0;
  if (kind == K_SOCK) { st->st_mode = S_IFSOCK | 0777; return; }
  if (!f) { st->st_mode = S_IFIFO | 0600; return; }
  st->st_ino = (ino_t)(f - S->files) + 10; st->st_dev = 77;
  if (S->mode != MODE_PREFIX) {
    st->st_ino += S->rand_seed % 100000;
    st->st_mtim.tv_sec = st->st_ctim.tv_sec = (time_t)(S->clock_start_ns / 1000000000LL) - (time_t)(S->rand_seed % 1000000);
    st->st_atim = st->st_mtim;
  }
  if (f->is_dir) st->st_mode = S_IFDIR | 0755;
  else if (f->is_fifo) st->st_mode = S_IFIFO | 0644;
  else st->st_mode = S_IFREG | 0644;
  st->st_size = f->fake_size >= 0 ? f->fake_size : (f->is_fifo ? 0 : (off_t)f->data_len);
  st->st_blocks = (st->st_size + 511) / 512;
}
/* 0 or -errno */
static int stat_path(const char *path, struct stat *st) {
  char norm[PATHCAP + 1024]; normalise(path, norm);
  int i = find_read(path, norm);
  int r = 0;
  SimFile dirf;
  if (i < 0 || !is_there(i)) {
    memset(&dirf, 0, sizeof dirf);
    if (!strcmp(norm, "/") || !strcmp(norm, S->cwd)) { dirf.is_dir = 1; dirf.fake_size = -1; fill_stat(st, &dirf, K_DIR); st->st_ino = 2; }
    else { r = -ENOENT; if (i < 0) S->unknown_paths++; }
  } else if (S->files[i].stat_err) { r = -S->files[i].stat_err; S->n_stat_err++; }
  else fill_stat(st, &S->files[i], K_FILE);
  log_op(OP_STAT, -1, 0, r, norm);
  return r;
}
static int stat_fd(int fd, struct stat *st) {
  Fd *d = vfd(fd);
  int r = 0;
  if (d->kind == K_FILE || d->kind == K_DIR) {
    SimFile *f = &S->files[d->file];
    if (f->stat_err) { r = -f->stat_err; S->n_stat_err++; }
    else fill_stat(st, f, d->kind);
  } else fill_stat(st, NULL, d->kind);
  log_op(OP_STAT, fd, 0, r, NULL);
  return r;
}
int fstat(int fd, struct stat *st) {
  if (stale(fd)) return bad_fd(fd);
  if (!ours(fd)) return (int)R3(SYS_fstat, fd, st, 0);
  enter(); int r = stat_fd(fd, st); leave();
  return (int)ret_errno(r);
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int __fxstat(int v, int fd, struct stat *st) { (void)v; return fstat(fd, st); }
int __fxstat64(int v, int fd, struct stat64 *st) { (void)v; return fstat(fd, (struct stat *)st); }
static int stat_common(const char *p, struct stat *st, int flag) {
  if (active() && path_virtual(p)) { enter(); int r = stat_path(p, st); leave(); return (int)ret_errno(r); }
  return (int)R6(SYS_newfstatat, AT_FDCWD, p, st, flag, 0, 0);
}
int stat(const char *p, struct stat *st) { return stat_common(p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return stat_common(p, (struct stat *)st, 0); }
int lstat(const char *p, struct stat *st) { return stat_common(p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return stat_common(p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *st, int flag) {
  if (active() && p && p[0] == 0 && (flag & AT_EMPTY_PATH) && vfd(d)) return fstat(d, st);
  if (active() && path_virtual(p) && (d == AT_FDCWD || p[0] == '/')) return stat_common(p, st, flag);
  return (int)R6(SYS_newfstatat, d, p, st, flag, 0, 0);
}
int fstatat64(int d, const char *p, struct stat64 *st, int flag) { return fstatat(d, p, (struct stat *)st, flag); }
static void to_statx(struct statx *x, const struct stat *st) {
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS;
  x->stx_blksize = (uint32_t)st->st_blksize; x->stx_nlink = (uint32_t)st->st_nlink;
  x->stx_mode = (uint16_t)st->st_mode; x->stx_ino = st->st_ino; x->stx_size = (uint64_t)st->st_size;
  x->stx_blocks = (uint64_t)st->st_blocks; x->stx_dev_minor = 77;
}
int statx(int d, const char *restrict p0, int flags, unsigned mask, struct statx *restrict x) {
  const char *p = p0;
  __asm__ volatile("" : "+r"(p)); /* std probes with a null path; the prototype says it cannot be null */
  if (active()) {
    struct stat st;
    if (stale(d) && p && p[0] == 0) return bad_fd(d);
    if (p && p[0] == 0 && (flags & AT_EMPTY_PATH) && vfd(d)) {
      enter(); int r = stat_fd(d, &st); leave();
      if (r == 0) to_statx(x, &st);
      return (int)ret_errno(r);
    }
    if (p && p[0] && path_virtual(p) && (d == AT_FDCWD || p[0] == '/')) {
      enter(); int r = stat_path(p, &st); leave();
      if (r == 0) to_statx(x, &st);
      return (int)ret_errno(r);
    }
  }
  return (int)R6(SYS_statx, d, p, flags, mask, x, 0);
}
static int access_common(const char *p, int m) {
  enter();
  char norm[PATHCAP + 1024]; normalise(p, norm);
  int i = (m & W_OK) ? find_file(p) : find_read(p, norm);
  struct stat st;
  int r = (i >= 0 && S->files[i].exists) ? 0 : -ENOENT;
  if (r == 0 && (m & W_OK) && S->files[i].openw_err == EACCES) r = -EACCES;
  if (r == 0 && (m & R_OK) && S->files[i].open_err == EACCES) r = -EACCES;
  (void)st;
  log_op(OP_ACCESS, -1, m, r, norm);
  leave();
  return (int)ret_errno(r);
}
int access(const char *p, int m) {
  if (active() && path_virtual(p)) return access_common(p, m);
  return (int)R3(SYS_access, p, m, 0);
}
int faccessat(int d, const char *p, int m, int fl) {
  if (active() && path_virtual(p)) return access_common(p, m);
  return (int)R6(SYS_faccessat, d, p, m, fl, 0, 0);
}
int ftruncate64(int fd, off64_t len) {
  if (!ours(fd)) return (int)R3(SYS_ftruncate, fd, len, 0);
  enter();
  Fd *d = vfd(fd); int r = 0;
  if (d->kind != K_FILE || (d->flags & O_ACCMODE) == O_RDONLY) r = -EINVAL;
  else {
    SimFile *f = &S->files[d->file];
    if ((uint64_t)len != f->data_len) f->changed = 1;
    if (ensure_cap(f, (uint64_t)len)) r = -ENOSPC;
    else { if ((uint64_t)len > f->data_len) memset(S->data + f->data_off + f->data_len, 0, (uint64_t)len - f->data_len); f->data_len = (uint64_t)len; }
    f->truncated++;
  }
  log_op(OP_TRUNC, fd, len, r, NULL);
  leave();
  return (int)ret_errno(r);
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
int truncate64(const char *p, off64_t len) {
  if (!(active() && path_virtual(p))) return (int)R3(SYS_truncate, p, len, 0);
  enter();
  int i = find_file(p), r = 0;
  if (i < 0 || !S->files[i].exists) r = -ENOENT;
  else { SimFile *f = &S->files[i]; if ((uint64_t)len < f->data_len) f->data_len = (uint64_t)len; f->changed = 1; f->truncated++; }
  char norm[PATHCAP + 1024]; normalise(p, norm);
  log_op(OP_TRUNC, -1, len, r, norm);
  leave();
  return (int)ret_errno(r);
}
int truncate(const char *p, off_t len) { return truncate64(p, len); }
int fsync(int fd) {
  if (!ours(fd)) return (int)R3(SYS_fsync, fd, 0, 0);
  enter(); log_op(OP_SYNC, fd, 0, 0, NULL); leave(); return 0;
}
int fdatasync(int fd) {
  if (!ours(fd)) return (int)R3(SYS_fdatasync, fd, 0, 0);
  enter(); log_op(OP_SYNC, fd, 0, 0, NULL); leave(); return 0;
}
static int do_rename(const char *a, const char *b) {
  enter();
  char na[PATHCAP + 1024], nb[PATHCAP + 1024];
  normalise(a, na); normalise(b, nb);
  int i = find_file(a), j = find_file(b), r = 0;
  if (i < 0 || !S->files[i].exists) r = -ENOENT;
  else if (j >= 0 && S->files[j].exists && S->files[j].is_dir) r = -EISDIR;
  else if (j >= 0 && S->files[j].openw_err && S->files[j].openw_err != EACCES) r = -S->files[j].openw_err;
  else if (!dir_exists(nb)) r = -ENOENT;
  else {
    if (j < 0) j = new_file(b);
    if (j < 0) r = -ENOSPC;
    else if (i != j) {
      SimFile *s = &S->files[i], *d = &S->files[j];
      d->exists = 1; d->changed = 1; d->data_off = s->data_off; d->data_len = s->data_len; d->data_cap = s->data_cap;
      d->is_dir = s->is_dir; d->is_fifo = s->is_fifo;
      s->exists = 0; s->changed = 1; s->data_cap = 0; s->data_len = 0;
      for (int k = 0; k < MAXFDS; k++) if (fds[k].kind == K_FILE && fds[k].file == i) fds[k].file = j;
    }
  }
  char both[PATHCAP * 4 + 2100]; snprintf(both, sizeof both, "%s -> %s", na, nb);
  log_op(OP_RENAME, -1, 0, r, both);
  leave();
  return (int)ret_errno(r);
}
int rename(const char *a, const char *b) {
  if (active() && path_virtual(a)) return do_rename(a, b);
  return (int)R3(SYS_rename, a, b, 0);
}
int renameat(int da, const char *a, int db, const char *b) {
  if (active() && path_virtual(a)) return do_rename(a, b);
  return (int)R6(SYS_renameat, da, a, db, b, 0, 0);
}
int renameat2(int da, const char *a, int db, const char *b, unsigned fl) {
  if (active() && path_virtual(a)) return do_rename(a, b);
  return (int)R6(SYS_renameat2, da, a, db, b, fl, 0);
}
static int do_unlink(const char *p) {
  enter();
  int i = find_file(p), r = 0;
  if (i < 0 || !S->files[i].exists) r = -ENOENT;
  else if (S->files[i].is_dir) r = -EISDIR;
  else { S->files[i].exists = 0; S->files[i].changed = 1; S->files[i].data_len = 0; }
  char norm[PATHCAP + 1024]; normalise(p, norm);
  log_op(OP_UNLINK, -1, 0, r, norm);
  leave();
  return (int)ret_errno(r);
}
int unlink(const char *p) {
  if (active() && path_virtual(p)) return do_unlink(p);
  return (int)R3(SYS_unlink, p, 0, 0);
}
int unlinkat(int d, const char *p, int fl) {
  if (active() && path_virtual(p)) return do_unlink(p);
  return (int)R3(SYS_unlinkat, d, p, fl);
}
static int refuse_path(int op, const char *p, int err) {
  enter();
  char norm[PATHCAP + 1024]; normalise(p, norm);
  log_op(op, -1, 0, -err, norm);
  leave();
  errno = err; return -1;
}
int mkdir(const char *p, mode_t m) {
  if (!(active() && path_virtual(p))) return (int)R3(SYS_mkdir, p, m, 0);
  enter();
  int i = find_file(p), r = 0;
  char norm[PATHCAP + 1024]; normalise(p, norm);
  if (i >= 0 && S->files[i].exists) r = -EEXIST;
  else { if (i < 0) i = new_file(p); if (i < 0) r = -ENOSPC; else { S->files[i].exists = 1; S->files[i].is_dir = 1; S->files[i].created = 1; S->files[i].changed = 1; } }
  log_op(OP_MKDIR, -1, m, r, norm);
  leave();
  return (int)ret_errno(r);
}
int rmdir(const char *p) { if (active() && path_virtual(p)) return refuse_path(OP_RMDIR, p, ENOTEMPTY); return (int)R3(SYS_rmdir, p, 0, 0); }
int link(const char *a, const char *b) { if (active() && path_virtual(a)) return refuse_path(OP_LINK, b, EPERM); return (int)R3(SYS_link, a, b, 0); }
int linkat(int d, const char *a, int e, const char *b, int f) { if (active() && path_virtual(a)) return refuse_path(OP_LINK, b, EPERM); return (int)R6(SYS_linkat, d, a, e, b, f, 0); }
int symlink(const char *a, const char *b) { if (active() && path_virtual(b)) return refuse_path(OP_LINK, b, EPERM); return (int)R3(SYS_symlink, a, b, 0); }
int chmod(const char *p, mode_t m) { if (active() && path_virtual(p)) { enter(); char norm[PATHCAP + 1024]; normalise(p, norm); log_op(OP_CHMOD, -1, m, 0, norm); leave(); return 0; } return (int)R3(SYS_chmod, p, m, 0); }
int fchmod(int fd, mode_t m) { if (ours(fd)) { enter(); log_op(OP_CHMOD, fd, m, 0, NULL); leave(); return 0; } return (int)R3(SYS_fchmod, fd, m, 0); }
int fchown(int fd, uid_t u, gid_t g) { if (ours(fd)) { enter(); log_op(OP_CHMOD, fd, u, 0, NULL); leave(); return 0; } return (int)R3(SYS_fchown, fd, u, g); }
ssize_t readlink(const char *p, char *b, size_t n) {
  if (active() && path_virtual(p) && strncmp(p, "/proc/", 6)) { refuse_path(OP_ACCESS, p, find_file(p) >= 0 ? EINVAL : ENOENT); return -1; }
  return (ssize_t)R3(SYS_readlink, p, b, n);
}
char *realpath(const char *p, char *out) {
  if (active() && path_virtual(p)) {
    enter();
    char norm[PATHCAP + 1024]; normalise(p, norm);
    int i = find_file(p), r = (i >= 0 && S->files[i].exists) || !strcmp(norm, S->cwd) || !strcmp(norm, "/") ? 0 : -ENOENT;
    log_op(OP_ACCESS, -1, 0, r, norm);
    char *res = NULL;
    if (r == 0) { if (out) { strcpy(out, norm); res = out; } else res = strdup(norm); }
    leave();
    if (r) errno = -r;
    return res;
  }
  static char *(*real)(const char *, char *);
  if (!real) real = dlsym(RTLD_NEXT, "realpath");
  return real(p, out);
}
int chdir(const char *p) {
  if (active() && S->mode != MODE_PREFIX) {
    enter();
    char norm[PATHCAP + 1024]; normalise(p, norm);
    int i = find_file(p), r = !strcmp(norm, "/") || !strcmp(norm, S->cwd) || (i >= 0 && S->files[i].exists && S->files[i].is_dir) ? 0 : -ENOENT;
    log_op(OP_ACCESS, -1, 0, r, norm);
    if (r == 0) snprintf(S->cwd, sizeof S->cwd, "%s", norm);
    leave();
    if (r) { errno = -r; return -1; }
    return 0;
  }
  int r = (int)R3(SYS_chdir, p, 0, 0);
  if (r == 0 && active() && S->mode == MODE_PREFIX) {
    char norm[PATHCAP + 1024]; normalise(p, norm);
    snprintf(S->cwd, sizeof S->cwd, "%s", norm);
  }
  return r;
}
char *getcwd(char *buf, size_t n) {
  if (active() && S->mode != MODE_PREFIX) {
    if (!buf) return strdup(S->cwd);
    if (strlen(S->cwd) + 1 > n) { errno = ERANGE; return NULL; }
    strcpy(buf, S->cwd);
    return buf;
  }
  if (!buf) { buf = malloc(4096); n = 4096; }
  long r = R3(SYS_getcwd, buf, n, 0);
  return r < 0 ? NULL : buf;
}
DIR *opendir(const char *p) {
  if (active() && path_virtual(p)) { refuse_path(OP_ACCESS, p, EACCES); return NULL; }
  static DIR *(*real)(const char *);
  if (!real) real = dlsym(RTLD_NEXT, "opendir");
  return real(p);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (stale(fd)) { errno = EBADF; return -1; }
  if (!ours(fd)) return (int)R3(SYS_fcntl, fd, cmd, arg);
  enter();
  Fd *d = vfd(fd); int r = 0;
  switch (cmd) {
    case F_GETFD: r = FD_CLOEXEC; break;
    case F_SETFD: r = 0; break;
    case F_GETFL: r = d->kind == K_SOCK ? (O_RDWR | (d->nonblock ? O_NONBLOCK : 0)) : d->flags & ~(O_CREAT | O_TRUNC | O_EXCL); break;
    case F_SETFL: d->nonblock = (arg & O_NONBLOCK) != 0; r = 0; break;
    case F_DUPFD: case F_DUPFD_CLOEXEC: {
      int k = fd_alloc(d->kind);
      if (k < 0) r = -EMFILE;
      else { Fd *n = &fds[k]; char *keep = n->req; *n = *d; n->req = keep; n->reqlen = 0; r = FD_BASE + k; }
      log_op(OP_DUP, fd, 0, r, NULL);
      break;
    }
    case F_SETLK: case F_SETLKW: case F_GETLK: r = 0; break;
    default: r = -EINVAL;
  }
  leave();
  return (int)ret_errno(r);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  return fcntl64(fd, cmd, arg);
}
int dup(int fd) { if (ours(fd)) return fcntl64(fd, F_DUPFD, 0L); return (int)R3(SYS_dup, fd, 0, 0); }
int isatty(int fd) {
  if (ours(fd)) {
    if (fd >= 0 && fd <= 2 && (S->tty_mask >> fd & 1)) return 1;
    errno = ENOTTY; return 0;
  }
  char t[64];
  return R3(SYS_ioctl, fd, TCGETS, t) == 0;
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); long arg = va_arg(ap, long); va_end(ap);
  if (stale(fd)) { errno = EBADF; return -1; }
  if (!ours(fd)) return (int)R3(SYS_ioctl, fd, req, arg);
  enter();
  Fd *d = vfd(fd); int r = -ENOTTY;
  if (req == FIONBIO && d->kind == K_SOCK) { d->nonblock = *(int *)arg != 0; r = 0; }
  else if (req == FIONREAD) { *(int *)arg = 0; r = 0; }
  else if (req == TIOCGWINSZ && fd >= 0 && fd <= 2 && (S->tty_mask >> fd & 1)) {
    struct winsize *w = (void *)arg; w->ws_row = 24; w->ws_col = 80; w->ws_xpixel = w->ws_ypixel = 0; r = 0;
  } else if (req == TCGETS && fd >= 0 && fd <= 2 && (S->tty_mask >> fd & 1)) { memset((void *)arg, 0, 36); r = 0; }
  leave();
  return (int)ret_errno(r);
}
ssize_t copy_file_range(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned fl) {
  if (ours(a) || ours(b)) { errno = ENOSYS; return -1; }
  return (ssize_t)R6(SYS_copy_file_range, a, oa, b, ob, n, fl);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (ours(o) || ours(i)) { errno = ENOSYS; return -1; }
  return (ssize_t)R6(SYS_sendfile, o, i, off, n, 0, 0);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, (off64_t *)off, n); }
ssize_t splice(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned fl) {
  if (ours(a) || ours(b)) { errno = EINVAL; return -1; }
  return (ssize_t)R6(SYS_splice, a, oa, b, ob, n, fl);
}
void *mmap64(void *addr, size_t len, int prot, int flags, int fd, off64_t off) {
  if (fd >= FD_BASE && ours(fd)) {
    /* give the program a private copy of the file's bytes */
    Fd *d = vfd(fd);
    if (d->kind != K_FILE) { errno = ENODEV; return MAP_FAILED; }
    void *p = (void *)R6(SYS_mmap, addr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return p;
    SimFile *f = &S->files[d->file];
    if ((uint64_t)off < f->data_len) {
      uint64_t m = f->data_len - (uint64_t)off; if (m > len) m = len;
      memcpy(p, S->data + f->data_off + off, m);
    }
    return p;
  }
  return (void *)R6(SYS_mmap, addr, len, prot, flags, fd, off);
}
void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) { return mmap64(addr, len, prot, flags, fd, off); }

/* ---------------------------------------------------------------- interposed: network */
static int net_active(void) { return active() && S->mode != MODE_PREFIX; }
int socket(int dom, int type, int proto) {
  if (!net_active()) return (int)R3(SYS_socket, dom, type, proto);
  enter();
  int r;
  if (dom != AF_INET) r = -EAFNOSUPPORT;
  else {
    int k = fd_alloc(K_SOCK);
    if (k < 0) r = -EMFILE;
    else { fds[k].nonblock = (type & SOCK_NONBLOCK) != 0; r = FD_BASE + k; }
  }
  log_op(OP_SOCKET, r, dom, r, NULL);
  leave();
  return (int)ret_errno(r);
}
static void finish_connect(Fd *d) {
  if (d->ep < 0) { d->conn_err = ECONNREFUSED; return; }
  SimEp *e = &S->eps[d->ep];
  if (e->behaviour == EP_ERR) { d->conn_err = e->err; S->n_conn_err++; }
  else if (e->behaviour == EP_OK) { d->connected = 1; e->connects++; if (e->raw_stream >= 0 && e->raw_close == 2) { d->raw_started = 1; queue_response(d, e->raw_stream, 1); } }
}
int connect(int fd, const struct sockaddr *a, socklen_t len) {
  if (!(net_active() && ours(fd))) return (int)R3(SYS_connect, fd, a, len);
  enter();
  Fd *d = vfd(fd);
  int64_t r = 0;
  char txt[64] = "";
  if (d->kind != K_SOCK) r = -ENOTSOCK;
  else if (d->connected) r = -EISCONN;
  else if (a->sa_family != AF_INET) r = -EAFNOSUPPORT;
  else {
    const struct sockaddr_in *in = (const void *)a;
    d->ip = ntohl(in->sin_addr.s_addr); d->port = ntohs(in->sin_port);
    snprintf(txt, sizeof txt, "%u.%u.%u.%u:%u", d->ip >> 24, d->ip >> 16 & 255, d->ip >> 8 & 255, d->ip & 255, d->port);
    d->ep = find_ep(d->ip, d->port);
    SimEp *e = d->ep >= 0 ? &S->eps[d->ep] : NULL;
    if (e && e->behaviour == EP_TIMEOUT) d->conn_at = ~0ULL;
    else d->conn_at = S->now_ns + (e ? (uint64_t)e->delay_ms * 1000000ULL : 0);
    if (d->nonblock) {
      r = -EINPROGRESS;
    } else {
      if (d->conn_at == ~0ULL) { sleep_until(S->now_ns + 130ULL * 1000000000ULL); r = -ETIMEDOUT; S->n_conn_err++; }
      else { sleep_until(d->conn_at); finish_connect(d); r = d->conn_err ? -d->conn_err : 0; }
    }
  }
  log_op(OP_CONNECT, fd, d->port, r, txt);
  leave();
  return (int)ret_errno(r);
}
static int sock_ready(Fd *d) {
  if (d->kind != K_SOCK) return POLLIN | POLLOUT;
  if (d->ep < 0 && !d->conn_err && d->conn_at <= S->now_ns && d->port) finish_connect(d);
  if (!d->connected && !d->conn_err && d->port && d->conn_at <= S->now_ns) finish_connect(d);
  if (d->conn_err) return POLLERR | POLLHUP | POLLOUT;
  if (d->connected) return POLLOUT | (d->qn ? POLLIN : 0);
  return 0;
}
int poll(struct pollfd *p, nfds_t n, int timeout) {
  int any = 0;
  if (active()) for (nfds_t i = 0; i < n; i++) if (ours(p[i].fd)) any = 1;
  if (!any) return (int)R3(SYS_poll, p, n, timeout);
  enter();
  uint64_t deadline = timeout < 0 ? ~0ULL : S->now_ns + (uint64_t)timeout * 1000000ULL;
  int cnt;
  for (;;) {
    cnt = 0;
    uint64_t next = ~0ULL;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      Fd *d = vfd(p[i].fd);
      if (!d) continue;
      int r = sock_ready(d) & (p[i].events | POLLERR | POLLHUP);
      p[i].revents = (short)r;
      if (r) cnt++;
      else if (d->kind == K_SOCK && !d->connected && d->port && d->conn_at < next) next = d->conn_at;
    }
    if (cnt || S->now_ns >= deadline) break;
    if (next > deadline) next = deadline;
    if (next == ~0ULL) { S->hang = 1; break; }
    sleep_until(next);
  }
  if (!cnt && timeout > 0) S->n_rcvtimeo++;
  log_op(OP_POLL, n ? p[0].fd : -1, timeout, cnt, NULL);
  leave();
  return cnt;
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *ss) {
  int any = 0;
  if (active()) for (nfds_t i = 0; i < n; i++) if (ours(p[i].fd)) any = 1;
  if (!any) return (int)R6(SYS_ppoll, p, n, ts, ss, 8, 0);
  return poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1);
}
int __poll_chk(struct pollfd *p, nfds_t n, int timeout, size_t l) { (void)l; return poll(p, n, timeout); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al) {
  if (stale(fd)) return bad_fd(fd);
  if (!ours(fd)) return (ssize_t)R6(SYS_recvfrom, fd, b, n, fl, a, al);
  enter(); int64_t r = any_read(vfd(fd), fd, b, n, fl); leave();
  return (ssize_t)ret_errno(r);
}
ssize_t recv(int fd, void *b, size_t n, int fl) { return recvfrom(fd, b, n, fl, NULL, NULL); }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al) {
  if (stale(fd)) return bad_fd(fd);
  if (!ours(fd)) return (ssize_t)R6(SYS_sendto, fd, b, n, fl, a, al);
  enter(); int64_t r = any_write(vfd(fd), fd, b, n); leave();
  return (ssize_t)ret_errno(r);
}
ssize_t send(int fd, const void *b, size_t n, int fl) { return sendto(fd, b, n, fl, NULL, 0); }
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
  if (!ours(fd)) return (ssize_t)R3(SYS_recvmsg, fd, m, fl);
  return readv(fd, m->msg_iov, (int)m->msg_iovlen);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
  if (!ours(fd)) return (ssize_t)R3(SYS_sendmsg, fd, m, fl);
  return writev(fd, m->msg_iov, (int)m->msg_iovlen);
}
int shutdown(int fd, int how) {
  if (!ours(fd)) return (int)R3(SYS_shutdown, fd, how, 0);
  enter();
  Fd *d = vfd(fd); int r = d->connected ? 0 : -ENOTCONN;
  if (how != SHUT_RD) d->closed_wr = 1;
  log_op(OP_SHUTDOWN, fd, how, r, NULL);
  leave();
  return (int)ret_errno(r);
}
int setsockopt(int fd, int lvl, int opt, const void *v, socklen_t l) {
  if (!ours(fd)) return (int)R6(SYS_setsockopt, fd, lvl, opt, v, l, 0);
  Fd *d = vfd(fd);
  if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && l >= sizeof(struct timeval)) {
    const struct timeval *tv = v;
    uint64_t ns = (uint64_t)tv->tv_sec * 1000000000ULL + (uint64_t)tv->tv_usec * 1000ULL;
    if (opt == SO_RCVTIMEO) d->rcvtimeo = ns; else d->sndtimeo = ns;
  }
  return 0;
}
int getsockopt(int fd, int lvl, int opt, void *v, socklen_t *l) {
  if (!ours(fd)) return (int)R6(SYS_getsockopt, fd, lvl, opt, v, l, 0);
  Fd *d = vfd(fd);
  if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
    uint64_t ns = opt == SO_RCVTIMEO ? d->rcvtimeo : d->sndtimeo;
    struct timeval *tv = v; tv->tv_sec = (time_t)(ns / 1000000000ULL); tv->tv_usec = (suseconds_t)(ns % 1000000000ULL / 1000);
    *l = sizeof *tv;
    return 0;
  }
  *(int *)v = 0; *l = sizeof(int);
  if (lvl == SOL_SOCKET && opt == SO_ERROR) { *(int *)v = d->conn_err; }
  else if (lvl == SOL_SOCKET && opt == SO_TYPE) *(int *)v = SOCK_STREAM;
  return 0;
}
static int fill_addr(struct sockaddr *a, socklen_t *l, uint32_t ip, uint32_t port) {
  struct sockaddr_in in; memset(&in, 0, sizeof in);
  in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(ip); in.sin_port = htons((uint16_t)port);
  socklen_t n = *l < sizeof in ? *l : (socklen_t)sizeof in;
  memcpy(a, &in, n); *l = sizeof in;
  return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  if (!ours(fd)) return (int)R3(SYS_getpeername, fd, a, l);
  Fd *d = vfd(fd);
  if (!d->connected) { errno = ENOTCONN; return -1; }
  return fill_addr(a, l, d->ip, d->port);
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
  if (!ours(fd)) return (int)R3(SYS_getsockname, fd, a, l);
  return fill_addr(a, l, 0x0a000001, 40000);
}
/* our results carry a marker so that freeaddrinfo knows them */
typedef struct { uint64_t magic; struct addrinfo ai; struct sockaddr_in sa; } OurAi;
int getaddrinfo(const char *restrict node, const char *restrict svc, const struct addrinfo *restrict hints, struct addrinfo **restrict res) {
  if (!net_active()) {
    static int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    if (!real) real = dlsym(RTLD_NEXT, "getaddrinfo");
    return real(node, svc, hints, res);
  }
  enter();
  int rc = EAI_NONAME; uint32_t addrs[MAXADDRS], n = 0;
  SimHost *h = NULL;
  for (uint32_t i = 0; i < S->nhosts; i++) if (node && !strcasecmp(S->hosts[i].name, node)) h = &S->hosts[i];
  if (!h && node) for (uint32_t i = 0; i < S->nhosts; i++) if (!strcmp(S->hosts[i].name, "*")) h = &S->hosts[i];
  if (h) {
    h->lookups++;
    rc = h->rc;
    if (h->delay_ms) sleep_until(S->now_ns + (uint64_t)h->delay_ms * 1000000ULL);
    n = h->naddrs; memcpy(addrs, h->addrs, sizeof addrs);
  }
  if (rc == 0 && n == 0) rc = EAI_NODATA;
  if (rc) S->n_dns_err++;
  log_op(OP_DNS, -1, rc, rc, node);
  struct addrinfo *head = NULL;
  int eno = EIO;
  if (rc == 0) {
    struct addrinfo **tail = &head;
    for (uint32_t i = 0; i < n; i++) {
      OurAi *o = calloc(1, sizeof *o);
      o->magic = 0x5151414151514141ULL;
      o->sa.sin_family = AF_INET; o->sa.sin_addr.s_addr = htonl(addrs[i]); o->sa.sin_port = htons((uint16_t)(svc ? atoi(svc) : 0));
      o->ai.ai_family = AF_INET; o->ai.ai_socktype = SOCK_STREAM; o->ai.ai_protocol = IPPROTO_TCP;
      o->ai.ai_addrlen = sizeof o->sa; o->ai.ai_addr = (struct sockaddr *)&o->sa;
      *tail = &o->ai; tail = &o->ai.ai_next;
    }
    *res = head;
  }
  leave();
  if (rc == EAI_SYSTEM) errno = eno;
  return rc;
}
void freeaddrinfo(struct addrinfo *a) {
  if (a) {
    OurAi *o = (OurAi *)((char *)a - offsetof(OurAi, ai));
    /* only results handed out while simulating have sockaddr right behind the record */
    if (a->ai_addr == (struct sockaddr *)&o->sa && o->magic == 0x5151414151514141ULL) {
      while (a) { OurAi *x = (OurAi *)((char *)a - offsetof(OurAi, ai)); a = a->ai_next; free(x); }
      return;
    }
  }
  static void (*real)(struct addrinfo *);
  if (!real) real = dlsym(RTLD_NEXT, "freeaddrinfo");
  real(a);
}
int __res_init(void) { return 0; }

/* ---------------------------------------------------------------- interposed: the machine and the environment */
static int circumstances(void) { return active() && S->mode != MODE_PREFIX; }
char *getenv(const char *name) {
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  if (circumstances() && S->env_any[0] && strncmp(name, "RUST", 4) && strncmp(name, "LD_", 3) && strncmp(name, "SIMOS", 5)) return S->env_any;
  return NULL;
}
pid_t getpid(void) { return circumstances() ? (pid_t)(2 + S->rand_seed % 30000) : (pid_t)R3(SYS_getpid, 0, 0, 0); }
pid_t getppid(void) { return circumstances() ? (pid_t)(1 + S->rand_seed % 300) : (pid_t)R3(SYS_getppid, 0, 0, 0); }
uid_t getuid(void) { return circumstances() ? (uid_t)(S->rand_seed % 3 * 500) : (uid_t)R3(SYS_getuid, 0, 0, 0); }
uid_t geteuid(void) { return circumstances() ? (uid_t)(S->rand_seed % 3 * 500) : (uid_t)R3(SYS_geteuid, 0, 0, 0); }
int uname(struct utsname *u) {
  int r = (int)R3(SYS_uname, u, 0, 0);
  if (r == 0 && circumstances()) {
    snprintf(u->nodename, sizeof u->nodename, "host-%u", (unsigned)(S->rand_seed % 1000));
    snprintf(u->release, sizeof u->release, "%u.%u.0", (unsigned)(3 + S->rand_seed % 5), (unsigned)(S->rand_seed % 19));
  }
  return r;
}
int gethostname(char *b, size_t n) {
  struct utsname u;
  if (uname(&u)) return -1;
  snprintf(b, n, "%s", u.nodename);
  return 0;
}
static int ncpus(void) { return (int)(1 + (S->rand_seed >> 8) % 64); }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
  if (!circumstances()) { long r = R3(SYS_sched_getaffinity, p, n, m); return r < 0 ? (int)r : 0; }
  memset(m, 0, n);
  for (int i = 0; i < ncpus() && (size_t)i < n * 8; i++) CPU_SET_S((size_t)i, n, m);
  return 0;
}
long sysconf(int k) {
  static long (*real)(int);
  if (circumstances() && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return ncpus();
  if (!real) real = dlsym(RTLD_NEXT, "sysconf");
  return real(k);
}

/* ---------------------------------------------------------------- interposed: time and randomness */
static int time_active(void) { return active() && S->mode != MODE_PREFIX; }
static uint64_t clock_read(int realtime) {
  S->nclock++;
  S->now_ns += S->tick_ns;
  return S->now_ns + (uint64_t)(realtime ? S->clock_start_ns : S->mono_start_ns);
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!time_active()) return (int)R3(SYS_clock_gettime, id, ts, 0);
  uint64_t t = clock_read(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE);
  ts->tv_sec = (time_t)(t / 1000000000ULL); ts->tv_nsec = (long)(t % 1000000000ULL);
  return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  if (!time_active()) return (int)R3(SYS_gettimeofday, tv, tz, 0);
  uint64_t t = clock_read(1);
  tv->tv_sec = (time_t)(t / 1000000000ULL); tv->tv_usec = (suseconds_t)(t % 1000000000ULL / 1000);
  return 0;
}
time_t time(time_t *p) {
  if (!time_active()) { struct timespec ts; R3(SYS_clock_gettime, CLOCK_REALTIME, &ts, 0); if (p) *p = ts.tv_sec; return ts.tv_sec; }
  time_t t = (time_t)(clock_read(1) / 1000000000ULL);
  if (p) *p = t;
  return t;
}
static int do_sleep(uint64_t ns) {
  enter();
  log_op(OP_SLEEP, -1, (int64_t)ns, 0, NULL);
  sleep_until(S->now_ns + ns);
  leave();
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!time_active()) return (int)R3(SYS_nanosleep, a, b, 0);
  return do_sleep((uint64_t)a->tv_sec * 1000000000ULL + (uint64_t)a->tv_nsec);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
  if (!time_active()) { long r = raw(SYS_clock_nanosleep, id, fl, (long)a, (long)b, 0, 0); return r < 0 ? (int)-r : 0; }
  uint64_t ns = (uint64_t)a->tv_sec * 1000000000ULL + (uint64_t)a->tv_nsec;
  if (fl & TIMER_ABSTIME) {
    uint64_t base = S->now_ns + (uint64_t)(id == CLOCK_REALTIME ? S->clock_start_ns : S->mono_start_ns);
    ns = ns > base ? ns - base : 0;
  }
  return do_sleep(ns);
}
int usleep(useconds_t us) { if (!time_active()) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; return nanosleep(&t, NULL); } return do_sleep((uint64_t)us * 1000); }
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (!time_active()) return (ssize_t)R3(SYS_getrandom, buf, n, fl);
  S->nrandom++;
  uint8_t *b = buf;
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = mix64(rand_state += 0x9E3779B97F4A7C15ULL);
    size_t m = n - i < 8 ? n - i : 8;
    memcpy(b + i, &v, m);
  }
  return (ssize_t)n;
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }

/* ---------------------------------------------------------------- interposed: threads */
static long do_futex(int *addr, int op, int val, const struct timespec *ts) {
  int cmd = op & FUTEX_CMD_MASK;
  S->nfutex++;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    enter();
    long r = 0;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { leave(); errno = EAGAIN; return -1; }
    Task *t = &tasks[self_task];
    t->state = T_FUTEX; t->faddr = addr; t->woken = 0; t->wake = ~0ULL;
    if (ts) {
      uint64_t ns = (uint64_t)ts->tv_sec * 1000000000ULL + (uint64_t)ts->tv_nsec;
      if (cmd == FUTEX_WAIT_BITSET) {
        uint64_t base = S->now_ns + (uint64_t)((op & FUTEX_CLOCK_REALTIME) ? S->clock_start_ns : S->mono_start_ns);
        ns = ns > base ? ns - base : 0;
      }
      t->wake = S->now_ns + ns;
    }
    reschedule();
    t->faddr = NULL;
    if (!t->woken && ts) { r = -1; }
    leave();
    if (r) errno = ETIMEDOUT;
    return r;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    long n = 0;
    for (int i = 0; i < ntasks_seen && n < val; i++)
      if (tasks[i].state == T_FUTEX && tasks[i].faddr == addr) { tasks[i].state = T_READY; tasks[i].woken = 1; n++; }
    return n;
  }
  errno = ENOSYS;
  return -1;
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active() && S->mode != MODE_PREFIX) {
    if (n == SYS_futex) return do_futex((int *)a, (int)b, (int)c, (const struct timespec *)d);
    if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
    if (n == SYS_clock_gettime) return clock_gettime((clockid_t)a, (struct timespec *)b);
  }
  if (active()) {
    if (n == SYS_statx) return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    if (n == SYS_copy_file_range && (ours((int)a) || ours((int)c))) { errno = ENOSYS; return -1; }
    if (n == SYS_openat) return open_common((int)a, (const char *)b, (int)c, (mode_t)d);
    if (n == SYS_read) return read((int)a, (void *)b, (size_t)c);
    if (n == SYS_write) return write((int)a, (const void *)b, (size_t)c);
    if (n == SYS_close) return close((int)a);
  }
  return rawe(n, a, b, c, d, e, f);
}
int sched_yield(void) {
  if (active() && S->mode != MODE_PREFIX) { enter(); leave(); S->nops++; if (S->step_cap && S->nops > S->step_cap) { S->step_capped = 1; raw(SYS_exit_group, 97, 0, 0, 0, 0, 0); } return 0; }
  return (int)R3(SYS_sched_yield, 0, 0, 0);
}

/* a task ends: hand the token on */
static void task_end(void) {
  int me = self_task;
  tasks[me].state = T_DONE;
  self_task = -1;
  int next = -1, live = 0;
  for (int i = 0; i < ntasks_seen; i++) if (tasks[i].state != T_DONE && tasks[i].state != T_NONE) live = 1;
  if (live) next = pick_next(-1);
  pthread_mutex_lock(&G);
  cur_task = next;
  if (next >= 0) pthread_cond_signal(&GC[next]);
  pthread_mutex_unlock(&G);
}
typedef struct { void *(*f)(void *); void *arg; int task; } Boot;
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static void *boot(void *p) {
  Boot b = *(Boot *)p;
  free(p);
  pthread_mutex_lock(&G);
  while (cur_task != b.task) pthread_cond_wait(&GC[b.task], &G);
  pthread_mutex_unlock(&G);
  self_task = b.task;
  void *r = b.f(b.arg);
  task_end();
  return r;
}
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!active() || S->mode == MODE_PREFIX || self_task < 0) return real_pthread_create(th, at, f, arg);
  enter();
  if (ntasks_seen >= MAXTASKS) { leave(); return EAGAIN; }
  int t = ntasks_seen++;
  memset(&tasks[t], 0, sizeof tasks[t]);
  tasks[t].state = T_READY;
  Boot *b = malloc(sizeof *b);
  b->f = f; b->arg = arg; b->task = t;
  S->nspawned++;
  log_op(OP_SPAWN, -1, t, 0, NULL);
  int r = real_pthread_create(th, at, boot, b);
  if (r) { tasks[t].state = T_DONE; } else { tasks[t].th = *th; tasks[t].have_th = 1; }
  leave();
  return r;
}
int pthread_join(pthread_t th, void **res) {
  if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  if (active() && S->mode != MODE_PREFIX && self_task >= 0) {
    for (int i = 0; i < ntasks_seen; i++)
      if (tasks[i].have_th && pthread_equal(tasks[i].th, th)) {
        enter();
        if (tasks[i].state != T_DONE) {
          tasks[self_task].state = T_JOIN; tasks[self_task].join = i;
          reschedule();
        }
        leave();
        break;
      }
  }
  return real_pthread_join(th, res);
}

/* ---------------------------------------------------------------- harness interface */
uint64_t simos_abi(void) { return sizeof(SimShm); }
void *simos_shm(void) { return S; }
/* prepares a run; results are cleared, configuration and tables are left as written */
static void reset_results(void) {
  S->now_ns = 0; S->nops = 0; S->trace_hash = 0xcbf29ce484222325ULL;
  memset(S->fired, 0, sizeof S->fired);
  S->n_short = S->n_open_err = S->n_stat_err = S->n_conn_err = S->n_dns_err = S->n_rcvtimeo = S->n_emfile = 0;
  S->hang = S->killed = S->step_capped = S->deadlock = 0;
  S->open_fds = S->max_open_fds = S->bad_close = S->unknown_paths = 0;
  S->nreqs = S->nsched = S->n_switches = S->npanic = 0;
  S->nrandom = S->nclock = S->nfutex = S->nspawned = 0;
  S->stdin_read = S->stdin_eof = 0;
  S->str_used = 1;
  for (int i = 0; i < MAXFDS; i++) fds[i].kind = K_FREE, fds[i].reqlen = 0;
  rng_state = S->seed;
  rand_state = S->rand_seed;
}
void simos_begin(uint32_t mode, uint32_t ntasks) {
  if (ntasks > MAXTASKS) die("too many tasks");
  reset_results();
  memset(tasks, 0, sizeof tasks);
  for (uint32_t i = 0; i < ntasks; i++) tasks[i].state = T_READY;
  ntasks_seen = (int)ntasks;
  entered = 0;
  cur_task = -2;
  S->ntasks = ntasks;
  S->mode = mode;
}
/* called by each harness thread; returns once this task is scheduled for the first time */
void simos_task_enter(uint32_t id) {
  if (!started) { for (int i = 0; i < MAXTASKS; i++) pthread_cond_init(&GC[i], NULL); started = 1; }
  pthread_mutex_lock(&G);
  entered++;
  if (entered == (int)S->ntasks) {
    int next = S->ntasks > 1 ? (S->sched_n ? S->sched_in[0] % (int)S->ntasks : (int)(rng() % S->ntasks)) : 0;
    if (S->ntasks > 1) { S->sched_out[0] = (uint8_t)next; S->nsched = 1; }
    cur_task = next;
    pthread_cond_signal(&GC[next]);
  }
  while (cur_task != (int)id) pthread_cond_wait(&GC[id], &G);
  pthread_mutex_unlock(&G);
  self_task = (int)id;
}
void simos_task_exit(void) { task_end(); }
void simos_yield(void) { if (self_task >= 0 && !in_sim) { in_sim++; sched_point(); in_sim--; } }
/* suspends interception for the calling thread (harness code inside a task) */
void simos_pause(void) { in_sim++; }
void simos_resume(void) { in_sim--; }
void simos_end(void) { S->mode = MODE_OFF; }
int simos_in_task(void) { return self_task >= 0; }
uint64_t simos_now(void) { return S->now_ns; }

__attribute__((constructor)) static void init(void) {
  for (int i = 0; i < MAXTASKS; i++) pthread_cond_init(&GC[i], NULL);
  started = 1;
  const char *e = getenv("SIMOS_FD");
  if (!e) return;
  int fd = atoi(e);
  void *p = (void *)R6(SYS_mmap, 0, sizeof(SimShm) + DATACAP, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (p == MAP_FAILED) die("mmap of the plan failed");
  S = p;
  const char *m = getenv("SIMOS_MODE");
  unsetenv("SIMOS_FD"); unsetenv("SIMOS_MODE"); unsetenv("LD_PRELOAD");
  S->magic = SIM_MAGIC; S->size = sizeof(SimShm);
  if (m && !strcmp(m, "process")) {
    raw(SYS_close, fd, 0, 0, 0, 0, 0);
    reset_results();
    memset(tasks, 0, sizeof tasks);
    stdio_fd[0].kind = K_STDIN; stdio_fd[0].file = -1;
    stdio_fd[1].kind = K_STDOUT; stdio_fd[1].flags = O_WRONLY; stdio_fd[1].file = -1;
    stdio_fd[2].kind = K_STDERR; stdio_fd[2].flags = O_WRONLY; stdio_fd[2].file = -1;
    tasks[0].state = T_READY; ntasks_seen = 1; cur_task = 0; self_task = 0; S->ntasks = 1;
    S->mode = MODE_PROCESS;
  } else if (m && !strcmp(m, "prefix")) {
    reset_results();
    S->mode = MODE_PREFIX;
  } else S->mode = MODE_OFF;
}
