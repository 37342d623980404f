/* Shared layout between libsimos.so and the harness (mirrored by sim/src/shm.rs). */
#ifndef SIMOS_H
#define SIMOS_H
#include <stdint.h>

#define SIM_MAGIC 0x53494d4f53303032ULL
#define MAXFILES 32
#define MAXSTREAMS 48
#define MAXEVENTS 16384
#define MAXHOSTS 24
#define MAXADDRS 4
#define MAXEPS 32
#define MAXROUTES 24
#define MAXFDS 256
#define MAXREQS 64
#define MAXOPS 8192
#define MAXTASKS 16
#define MAXSCHED (1u << 18)
#define STRCAP (1u << 20)
#define REQCAP 4096
#define PATHCAP 256
#define DATACAP (192ull << 20)
#define FD_BASE 1000

enum { EV_NONE, EV_SPLIT, EV_EINTR, EV_ERR, EV_EOF, EV_DELAY, EV_STALL, EV_KILL, EV_NKINDS = 16 };

enum {
  OP_NONE, OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_SEEK, OP_SOCKET, OP_CONNECT,
  OP_SEND, OP_RECV, OP_DNS, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_TRUNC, OP_ACCESS, OP_SYNC,
  OP_DUP, OP_SLEEP, OP_POLL, OP_SPAWN, OP_SHUTDOWN, OP_BADFD, OP_RMDIR, OP_LINK, OP_CHMOD, OP_OTHER
};

enum { MODE_OFF = 0, MODE_TASKS = 1, MODE_PROCESS = 2, MODE_PREFIX = 3 };

typedef struct { uint64_t off; uint32_t kind; uint32_t arg; uint32_t arg2; uint32_t pad; } SimEvent;

typedef struct {
  uint32_t ev_start, ev_n;   /* slice of events[], sorted by off */
  uint32_t chunk;            /* max bytes per transfer, 0: unlimited */
  uint32_t jitter;           /* 1: transfer size random in 1..=chunk */
} SimScript;

typedef struct {
  char path[PATHCAP];
  uint32_t exists, is_dir, is_fifo, nwriters;
  int32_t open_err, openw_err, stat_err;
  uint32_t open_limit;       /* gone once it was opened this often, 0: never */
  int64_t fake_size;         /* -1: real */
  uint64_t data_off, data_len, data_cap;
  SimScript rd, wr;
  /* results */
  uint32_t opens_r, opens_w, created, truncated;
  uint64_t bytes_read, bytes_written;
  uint64_t first_open_w_seq; /* op number of the first open for writing, 0: none */
  uint64_t last_read_seq;    /* op number of the last read */
  uint32_t changed, eof_seen;
} SimFile;

typedef struct { uint64_t data_off, data_len; SimScript rd; } SimStream;

typedef struct {
  char name[128];
  int32_t rc;                /* getaddrinfo return code */
  uint32_t naddrs;
  uint32_t addrs[MAXADDRS];  /* host order IPv4 */
  uint32_t delay_ms, lookups;
} SimHost;

enum { EP_OK = 0, EP_ERR = 1, EP_TIMEOUT = 2 };
typedef struct {
  uint32_t ip, port;
  uint32_t behaviour; int32_t err;
  uint32_t delay_ms;
  int32_t raw_stream;        /* >=0: answers anything with this stream, not HTTP */
  uint32_t raw_close, connects;
  SimScript wr;              /* faults on bytes the client sends */
} SimEp;

typedef struct {
  int32_t ep;                /* -1: any */
  char host[128];            /* Host header expected, "" any */
  char path[PATHCAP];
  int32_t stream;
  uint32_t close_after;      /* FIN after the response */
  uint32_t uses, max_uses;   /* max_uses 0: unlimited */
} SimRoute;

typedef struct { int32_t ep; int32_t route; uint32_t len; uint32_t task; uint64_t seq; char text[REQCAP]; } SimReq;

typedef struct { uint16_t op, task; int32_t fd; int64_t a, ret; uint32_t str, pad; uint64_t t_us; } SimOp;

typedef struct {
  uint64_t magic, size;
  uint64_t user[8];          /* harness scratch: [0] run in progress, [1] runs done, [2] heartbeat */
  uint32_t mode, quiet;
  /* configuration */
  uint64_t seed;             /* PRNG for scheduling, jitter */
  uint64_t rand_seed;        /* what getrandom returns */
  int64_t clock_start_ns;    /* realtime epoch of the run */
  int64_t mono_start_ns;
  uint64_t tick_ns;          /* every clock read advances by this */
  uint64_t step_cap;
  uint32_t fd_limit, ntasks;
  uint32_t switch_pct;       /* chance of a switch at a scheduling point */
  uint32_t sched_n;          /* explicit schedule length, 0: random */
  uint32_t tty_mask;         /* bit fd set: isatty(fd) */
  uint32_t stdin_stream;     /* index+1 of stream, 0: empty */
  uint32_t stdout_file, stderr_file; /* index+1 of file records receiving the output */
  uint64_t kill_at_op;       /* process mode: _exit at this op, 0: never */
  char cwd[PATHCAP];
  char prefix[PATHCAP];      /* MODE_PREFIX: only these paths are virtual */
  char env_any[64];          /* what every environment variable that is not set seems to hold */
  uint32_t nfiles, nstreams, nevents, nhosts, neps, nroutes;
  SimFile files[MAXFILES];
  SimStream streams[MAXSTREAMS];
  SimEvent events[MAXEVENTS];
  SimHost hosts[MAXHOSTS];
  SimEp eps[MAXEPS];
  SimRoute routes[MAXROUTES];
  uint8_t sched_in[MAXSCHED];
  uint64_t data_used;
  /* results */
  uint64_t now_ns;           /* simulated time since the start of the run */
  uint64_t nops, trace_hash;
  uint64_t fired[EV_NKINDS];
  uint64_t n_short, n_open_err, n_stat_err, n_conn_err, n_dns_err, n_rcvtimeo, n_emfile;
  uint32_t hang, killed, step_capped, deadlock;
  uint32_t open_fds, max_open_fds, bad_close, unknown_paths;
  uint32_t nreqs, nsched, n_switches, npanic;
  uint32_t nrandom, nclock, nfutex, nspawned;
  uint64_t stdin_read, stdin_eof;
  SimReq reqs[MAXREQS];
  SimOp ops[MAXOPS];
  uint8_t sched_out[MAXSCHED];
  uint32_t str_used, pad9;
  char strs[STRCAP];
  uint8_t data[];            /* DATACAP bytes */
} SimShm;
#endif
