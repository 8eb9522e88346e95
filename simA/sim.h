/* World A: deterministic simulator for libffi's closure memory.
   One real pthread runs at a time (baton); every shared memory access of
   the library (-fsanitize=thread call-outs), every lock and every system
   call is a point where the plan may switch threads or inject a fault.  */
#ifndef SIM_H
#define SIM_H
#define _GNU_SOURCE 1
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/stat.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

#define MAXT 4
#define MAXOPS 96
#define MAXPRE 400
#define MAXFLT 400
#define NSLOT 320
#define NDIR 10          /* LIBFFI_TMPDIR TMPDIR /tmp /var/tmp /dev/shm HOME /mnt/a /mnt/b /mnt/c /mnt/d */

/* ---------- environment of the simulated machine ---------- */
enum { D_UNSET, D_OK, D_MISSING, D_NOPERM, D_ROFS, D_NOEXEC, D_FULL, D_CAP1, D_CAP2, D_CAP4, D_NOTDIR, D_EMPTYSTR, D_LONG, D_NSTATE };
enum { TF_YES, TF_OPNOTSUPP, TF_ISDIR, TF_INVAL, TF_N };
enum { LIB_OK, LIB_MULTI, LIB_DELETED, LIB_DELETED_OTHER, LIB_REPLACED, LIB_REPL_TAIL, LIB_TRUNC, LIB_SPACE, LIB_SPACE_DECOY,
       LIB_LONG, LIB_NOTLISTED, LIB_NOREAD, LIB_NOEXEC, LIB_NOOPEN, LIB_ODD, LIB_HUGEMAPS, LIB_N };
enum { MF_OK, MF_NOSYS, MF_ACCES, MF_NOEXEC, MF_N };
enum { RWX_OK, RWX_EACCES, RWX_EPERM, RWX_N };
enum { SE_NONE, SE_STATFS, SE_MOUNTS, SE_N };
enum { PAX_NONE, PAX_M, PAX_E, PAX_ME, PAX_N };
enum { PL_UP, PL_DOWN, PL_SCATTER, PL_MIX, PL_GAP, PL_N };
enum { MT_ABSENT, MT_LIST, MT_N };
struct env {
  int lib, memfd, rwx, selinux, pax, page, place, pseed;
  int dir[NDIR], tmpf[NDIR];
  int mtab, mounts;        /* MT_* */
  int mopt[4];             /* per /mnt entry: 0 rw, 1 ro, 2 noexec */
  int maxpages;            /* 0 = unlimited */
  int lowfd;               /* the application has closed descriptor 0 (1) or 0 and 1 (2) */
};

enum { OP_ALLOC, OP_PREP, OP_CALL, OP_FREE, OP_CHECK, OP_APPNEW, OP_APPFREE, OP_FORK, OP_JOIN, OP_ENV, OP_FD, OP_LOOP, OP_NEST, OP_MULTI, OP_HUGE, OP_DRAIN, OP_RETRY, OP_PAGE, OP_N };
struct op { int kind, th, who, a, b, c; };
/* who: 0 normal (parent inside a fork section), 1 child inside a fork section */

enum { K_MMAP_ANON, K_MMAP_RWX, K_MMAP_FILEX, K_MMAP_FILE, K_MUNMAP, K_OPEN, K_OPENTMP, K_MEMFD, K_MKTEMP, K_WRITE, K_PREAD,
       K_FTRUNC, K_FOPEN, K_GETS, K_MALLOC, K_STATFS, K_SETMNT, K_MPROTECT, K_FALLOC, K_ACCESS, K_CLOSE, K_N };
struct pre { int op, k, to, burst; };
struct flt { int op, kind, nth, err, iter; };   /* nth counts from 1 inside the op; 0 = every call of that kind in the op */

struct plan {
  struct env env;
  int nth;                  /* threads */
  int nops; struct op ops[MAXOPS];
  int npre; struct pre pre[MAXPRE];
  int nflt; struct flt flt[MAXFLT];
  int live;                 /* draw preemptions and faults from lseed */
  u64 lseed; int premode, prerate, fltmode, fltrate; u32 fltmask;
};

enum vclass { V_NONE, V_OVERLAP, V_CONTENT, V_MEMPROT, V_ALIGN, V_CODEDUP, V_DISPATCH, V_CODEPROT, V_WX, V_WXCODE, V_LADDER, V_ORDER,
  V_RECOVER, V_LEAKFD, V_CLOEXEC, V_NAME, V_FCLOSE, V_FUNMAP, V_GROW, V_HOLE, V_DEADLOCK, V_LIVELOCK, V_LOCKHELD, V_MIXED,
  V_FOREIGNCODE, V_FORK, V_APP, V_CRASH, V_HANG, V_PREP, V_HEAP, V_N };
extern const char *vname[];

struct shm {
  volatile int viol; int vop; char vsig[64]; char vmsg[400];
  u64 hash, sched; 
  u64 yields; u32 switches, midsw, sysc;
  volatile int forkpid[16]; volatile int nforkpid; u32 fired[K_N]; u32 envfired; u32 opdone, opskip; u32 okalloc, nullalloc, calls, forks;
  int npre; struct pre pre[MAXPRE]; int nflt; struct flt flt[MAXFLT];
  u32 probe[32]; u32 src;   /* bitmask of sources used */
  u32 peaklive;
  int logn; char log[1<<16];
  u32 fork_shared;
};
extern struct shm *S;
extern struct plan P;
extern int verbose;

/* source bits */
enum { SRC_STATIC_LIB=1, SRC_STATIC_TMP=2, SRC_RWX=4, SRC_MEMFD=8, SRC_DIRFILE=16, SRC_PRIVX=32 };

struct thr { int id; pthread_t pt; volatile int go; int state; void *waitm; int op; int inlib; u32 k; u64 opsteps; int held; char *slo, *shi; int forked;
  int fcount[K_N]; int iter; int idx; int midop; int nestdepth; };
enum { T_READY, T_BLOCKED, T_DONE };
extern struct thr T[MAXT]; extern int cur;
extern __thread struct thr *self;

void sim_yield(int hot);
void violate(enum vclass c, const char *fmt, ...) __attribute__((noreturn, format(printf,2,3)));
void logev(const char *fmt, ...) __attribute__((format(printf,1,2)));
void hashev(u64 a, u64 b, u64 c);
int fault(int kind);        /* returns errno to inject or 0 */
void op_done_sched(void);
extern int nforked, solo;

/* os side */
void os_init(void); void os_static_init(void);
struct foot { int pages, xpages, blocks, fds, streams; size_t bytes; };
struct foot footprint(void);
int mem_rw(char *p, size_t n);            /* 1 ok */
int code_prot(char *p);                    /* prot or -1 when unknown */
int code_src(char *p);                     /* SRC_* classification of a page */
int code_loc(char *p);                     /* location rank in the documented order, -1 none */
int file_holes(char *why);
int os_hygiene(char *why);                 /* 0 ok else V_* */
int is_poison_page(char *p);
int data_shared_file(char *p);
int backing_held(void); /* the library holds a backing file open */
void *app_map(int pages, int mode);        /* app-owned memory inside the arena */
void app_unmap(void *p, int pages);
void *app_dual(int pages, void **x);
int ladder_ok(int strict), ladder_first(void), lib_usable(void), wx_forbidden(void), caps_limited(void), any_policy_fault(void);
int loc_usable(int l, int need);
extern u32 wx_seen; extern int wx_any;
int app_fd_open(void); int app_fd_ok(int fd); void app_fd_close(int fd);
int lib_blocks_has(char *p, size_t n);
void env_set(int what, int val);
extern int env_changed;
extern int ntramp_guess;

static inline u64 mix(u64 x){ x^=x>>30; x*=0xbf58476d1ce4e5b9ull; x^=x>>27; x*=0x94d049bb133111ebull; return x^(x>>31); }
static inline u64 rnd(u64 *s){ *s+=0x9e3779b97f4a7c15ull; return mix(*s); }
static inline u32 rn(u64 *s,u32 n){ return n? (u32)((rnd(s)>>11)%n):0; }
#endif
