// Shared layout between the C run time (simulated kernel + controlled scheduler)
// and the Rust explorer.  Everything the child writes lives in `struct shm`.
#ifndef SIMK_H
#define SIMK_H
#include <stdint.h>

#define MAXTHR 32
#define MAXACT 16
#define MAXSTEP 2048      // actions per actor
#define MAXCONN 512
#define MAXCHOICE 2000
#define MAXLOG 400000
#define F_ERRNOS 16   // every errno, not just the usual one
#define F_NAME 32     // getsockname
#define F_OPT 64      // setsockopt
#define NEWADDR 4096

enum act_kind {
  A_END = 0,
  A_CONNECT,      // arg = listener index (thread); arg2 = client port offset
  A_SEND,         // off,len in blob; flags&1: may be cut (split budget)
  A_WAIT_REPLIES, // arg = cumulative number of replies on conn
  A_WAIT_EOF,     // server closed conn
  A_HALF_CLOSE,   // client shutdown(WR)
  A_CLOSE,        // client close(): FIN both ways (server writes fail later)
  A_RST,          // client reset
  A_ADVANCE,      // arg = nanoseconds
  A_WAIT_ACTOR,   // arg = actor, arg2 = step reached
  A_PAUSE_READ,   // client stops reading; tx space = arg
  A_RESUME_READ,
  A_MARK,         // no effect; what is in use is logged
  A_START,        // a server thread held back so far starts; arg = thread
};

struct action {
  uint8_t kind, flags;
  uint16_t conn;
  uint32_t off, len;
  uint64_t arg, arg2;
};

enum bud { B_PREEMPT = 0, B_EARLY, B_ORDER, B_SPLIT, B_SHORT, B_FAULT, NBUD };

struct scenario {
  uint32_t nactors;
  uint32_t nsteps[MAXACT];
  struct action act[MAXACT][MAXSTEP];
  uint8_t budget[NBUD];
  uint8_t nseeds;        // number of random seeds (first choice)
  uint8_t free_threads;  // 1: which runnable thread goes on after a block is a free choice
  uint8_t stateful;      // visited-state pruning
  uint8_t ipv6;
  uint32_t fault_mask;   // bit0 accept EMFILE, bit1 accept ECONNABORTED, bit2 recv ECONNRESET, bit3 send EPIPE, F_*
  uint32_t outcap;       // bytes kept per connection
  uint32_t order;        // what of the past a state remembers: 0 nothing across connections,
                         // 1 client actions in order with what each had received, 2 all events in order
  uint32_t storm, storm_errno; // so many accepts fail at first, with this errno
  uint32_t ever, ever_errno, ever_from; // these calls fail for every connection from there on (accept: once)
  uint64_t bloblen;
};

enum log_kind {
  L_ACT = 1,    // a=actor b=step c=bytes(for partial sends)
  L_ACCEPT,     // a=conn b=fd c=thread
  L_RX,         // a=conn b=bytes (0 eof, >=1<<31 err)
  L_TX,         // a=conn b=offset c=len
  L_SRVCLOSE,   // a=conn
  L_TIME,       // c = now
  L_FAULT,      // a=what
  L_REPLY,      // a=conn b=index
  L_SHUT,       // a=conn  server shutdown(WR)
  L_IDLE,       // a=thread waits for events
  L_MARK,       // a=open sockets b=blocks c=bytes of heap in use (differences count)
};
struct logent { uint32_t step; uint8_t kind, pad; uint16_t a; uint32_t b; uint32_t c; };

struct connres {
  uint8_t connected, accepted, srv_closed, srv_shut, cl_half, cl_closed, cl_rst, badreply;
  uint32_t outlen, replies, rx_sent, rx_taken;
  int32_t fd;
  int32_t thr;
};

enum status {
  ST_NONE = 0, ST_DONE = 1, ST_PRUNED = 2, ST_DIVERGED = 3, ST_LIMIT = 4,
  ST_HEAP = 5, ST_HANG = 6, ST_INTERNAL = 7, ST_BADOP = 8,
};

struct result {
  uint32_t status;
  uint32_t nchoice;
  uint32_t nlog;
  uint32_t nnew;
  uint32_t new_states;
  uint32_t transitions;
  uint32_t shared_ops;
  uint32_t steps;
  uint64_t now;
  uint64_t final_fp;
  uint32_t apos[MAXACT];
  uint32_t thr_state[MAXTHR];
  uint32_t nconn;
  uint32_t pend_ops;
  uint32_t open_fds;
  uint32_t log_overflow;
  char msg[256];
  struct connres conn[MAXCONN];
  uint8_t choice[MAXCHOICE];
  uint8_t nopts[MAXCHOICE];
  uint64_t newaddr[NEWADDR];
  struct logent log[MAXLOG];
};

struct shm {
  uint32_t go;             // 0 idle, 1 run requested, 2 finished
  uint32_t hot_pages;
  uint32_t prefix_len;
  uint32_t no_prune;
  uint64_t salt;
  uint8_t prefix[MAXCHOICE];
  struct scenario sc;
  struct result res;
};

enum tstate { T_NEW = 0, T_RUN, T_ENTER, T_FUTEX, T_SLEEP, T_DONE, T_YIELD, T_HOLD };
#endif
