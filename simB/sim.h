/* World B: calls and callbacks through the real marshalling code, interrupted and interleaved at single instructions */
#ifndef SIMB_H
#define SIMB_H
#define _GNU_SOURCE
#include <ffi.h>
#include <ffi_common.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/time.h>
#include "corpus.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
#define MAXT 4
#define MAXOPS 96
#define MAXEV 160
#define MAXIF 10
#define MAXARG 640
#define MAXDEPTH 14
enum kind { K_CALL, K_CLOS, K_LOOP, K_GOCALL, K_GOCLOS, K_GOLOOP, K_RAWCALL, K_RAWCLOS, K_RAWLOOP, K_JCALL, K_JCLOS, K_JLOOP, K_NATIVE, K_CONV, K_PREP, K_NKIND };
/* op flags */
enum { F_CLANG=1, F_NULLRV=2, F_RO=4, F_EDGE=8, F_SCRIB=16, F_STATE=32, F_ENTRY=64, F_FPEXIT=128, F_VEC=256, F_VOIDRV=512, F_OWNRAW=1024, F_STEPSCRIB=2048, F_LAST=2048 };
enum { X_NORMAL, X_THROW, X_JUMP };
struct op { int th, parent, sig; int kind, ifc, flags, exitmode, exitto; u64 seed; int rep, deep; };  /* sig: 0 = run inside the callee, 1 = run as a signal handler */
struct ev { int op, phase, n, act, arg; };   /* phase c a C A (instruction counts) h (in the callee) t (after the op); act 0 = switch to thread arg, 1 = signal running op arg */
enum { PH_c, PH_a, PH_C, PH_A, PH_h, PH_t, PH_N };
struct ifc { int sig; u64 dyn; };
struct plan { int nth, nif, nops, nev; u64 pool; struct ifc ifc[MAXIF]; struct op ops[MAXOPS]; struct ev ev[MAXEV]; };
enum vclass { V_NONE, V_ARGS, V_RESULT, V_IDENT, V_CHAIN, V_REGS, V_STACK, V_FPU, V_ERRNO, V_CALLERDATA, V_RESULTSIZE, V_ROWRITE, V_READOUT, V_UNWIND, V_PREP, V_HISTORY, V_RAW, V_CRASH, V_HANG, V_NV };
extern const char *vname[]; extern const char *kname[];
struct shm { volatile int viol; int vop; char vsig[64], vmsg[400]; u64 hash, sched; u32 switches, instr_switches, signals, throws, jumps, calls, missed, fired, maxdepth, deeper, again, preps, rejects, scribbles, kinds[K_NKIND]; u64 instr; u32 opdone; u32 anyev; int logn; char log[1<<15]; };
extern struct shm *S; extern struct plan P; extern int verbose;

/* laid out for asm.S */
struct rec { u64 retaddr, target, chain, flags; u64 save[8]; u64 rsp; u64 pat[8], after[8]; u64 arsp, arflags; u32 mx0, mxp, mxa; uint16_t cw0, cwp, cwa, pad0; u32 pad1; u8 fenv[28]; u32 pad2; 
  u64 xsave[20], xpat[20], xafter[20], hidden, arax; } __attribute__((aligned(16)));
struct ent { u64 retaddr, target, flags, chain, rax, rsp, rflags, fnptr; u64 keepa, garba, keepd, garbd; u64 garb[8]; u64 keep0[2], garb0[2], keep1[2], garb1[2], xg[2]; u32 mx, mxx; uint16_t cw, cwx; u32 pad; u8 fenv[28]; u32 pad2; u64 count; } __attribute__((aligned(16)));
#define REC_TF 1
#define ENT_LIGHT 1   /* leave no frame of our own: exceptions pass */
#define ENT_TF 2      /* single-step again on the way out */
#define ENT_FPX 4     /* leave with other floating point control settings */
extern __thread struct rec *b_rec; extern __thread struct ent *b_ent;
extern void shim_sysv(void), shim_ms(void), shim_light(void), hs_entry(void);
extern char ents_base[];   /* 16-byte entry stubs, one per native callee */

struct clo { int ifc, kind; void *w; void *code; };
struct goclo { ffi_go_closure g; u64 magic; struct clo *c; };
struct iface { int sig; int abi, nargs, nfixed, ret; short args[MAXARG]; int dyn; ffi_cif *cif; ffi_type **at; ffi_type *rt; int ok, rawok, jok; struct clo clo[K_NKIND]; struct goclo *go; u8 *cifcopy; u8 *vec; void **vecp; };
extern struct iface I[MAXIF];
struct act { int op; struct act *up; struct iface *f; const struct op *o; u8 *gold; u8 *args; void **av; u8 *rv; u8 *res; struct rec rec; struct ent ent; int light, post, cnt, acnt, pcnt, pacnt; int hooked; volatile int unwinding; jmp_buf jb; int insig; int errtoken; int level, iter, bottom, quiet, qrep; struct op oc; };
struct thr { int id; pthread_t pt; volatile int go; int done; struct act *top; int depth; int stepping; u8 *arena, *ap; u8 *edge[3]; int cxlive; int edgebusy; int inrep, deeplv; long used; char *alt; };
extern struct thr T[MAXT]; extern int cur; extern __thread struct thr *self;
void violate(enum vclass c, const char *fmt, ...) __attribute__((noreturn, format(printf,2,3)));
void logev(const char *fmt, ...) __attribute__((format(printf,1,2)));
void hashev(u64 a, u64 b, u64 c);
void exec(int op); void run_children(struct act *a); void do_exit_throw(struct act *a); void yield_to(int t, int hot);
int cx_try(void (*fn)(void*), void *arg, int op, u64 *six); void cx_throw(int op, u64 payload) __attribute__((noreturn)); void cx_init(void); void cx_guarded(void (*fn)(void*), void *arg);
void prep_history(const struct op *o); void pool_init(void);  u8 *ralloc(size_t n, size_t al);
void run_child(void); void world_static(void); void dynsig(struct iface *f, u64 seed); void raw_caps(struct iface *f);
size_t rs_size(struct iface *f); 
extern char *tx_lo, *tx_hi, *as_lo, *as_hi; extern u8 *roreg; extern size_t rolen;
static inline u64 mix(u64 x){ x^=x>>30; x*=0xbf58476d1ce4e5b9ull; x^=x>>27; x*=0x94d049bb133111ebull; return x^(x>>31); }
static inline u64 rnd(u64 *s){ *s+=0x9e3779b97f4a7c15ull; return mix(*s); }
static inline u32 rn(u64 *s,u32 n){ return n? (u32)((rnd(s)>>11)%n):0; }
#ifdef __cplusplus
}
#endif
#endif
