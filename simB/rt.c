/* threads under a baton, single-stepping, running operations, checking them */
#include "sim.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <ucontext.h>
struct shm *S; struct plan P; int verbose; struct thr T[MAXT]; int cur; __thread struct thr *self; struct iface I[MAXIF];
__thread struct rec *b_rec __attribute__((tls_model("local-exec"))); __thread struct ent *b_ent __attribute__((tls_model("local-exec")));
const char *vname[]={"none","argument-values","result-value","wrong-closure","static-chain","preserved-register","stack-pointer","fp-control-or-stack","errno","caller-data-changed","result-overrun","write-to-callers-memory","access-past-callers-memory","unwinding","preparation-status","history-dependence","raw-conversion","crash","hang"};
char *tx_lo,*tx_hi,*as_lo,*as_hi; u8 *roreg; size_t rolen; static u8 *rop; int seen_cc[2];
extern char __start_ffitext[],__stop_ffitext[],__start_ffiasm[],__stop_ffiasm[];
extern void hs_entry(void),hr_entry(void);
#define CPOOL 24
/* every third closure lies in memory the application manages, read-only once all are prepared */
#define APPMEM ((CPOOL*128+4095)&~4095)
static u8*appmem; static struct { void*w,*code; } cpool[CPOOL]; static int ncp; static u64 cpage[CPOOL]; static int ncpage;
#define ARENA (64<<20)
#define EDGEP 8
#define ALTSZ (16u<<20)   /* signal stack: handlers run operations of their own on it */
#define SCRIB 640
#define STACKMAX (12l<<20)
static inline void clear_tf(void){ asm volatile("pushfq; andl $~0x100,(%%rsp); popfq":::"memory","cc"); }
static inline void set_tf(void){ asm volatile("pushfq; orl $0x100,(%%rsp); popfq":::"memory","cc"); }
void logev(const char*fmt,...){ if(!verbose) return; va_list a; va_start(a,fmt); int n=S->logn; if(n<(int)sizeof S->log-400){ n+=snprintf(S->log+n,64,"t%d ",self?self->id:-1); n+=vsnprintf(S->log+n,320,fmt,a); S->log[n++]='\n'; S->log[n]=0; S->logn=n; } va_end(a); }
void hashev(u64 a,u64 b,u64 c){ S->hash=mix(S->hash*31+a)^mix(b+0x55)^mix(c*3+S->hash); }
void violate(enum vclass c,const char*fmt,...){ va_list a; va_start(a,fmt); if(!S->viol){ S->viol=c; S->vop=self&&self->top?self->top->op:-1; strcpy(S->vsig,vname[c]); char b[300]; vsnprintf(b,sizeof b,fmt,a);
  struct act*t=self?self->top:0; if(t&&t->o){ static const char*ab[]={"SysV","GNUW64","WIN64"}; snprintf(S->vmsg,sizeof S->vmsg,"%s [op %d, signature %d, %s%s]",b,t->op,t->f?t->f->sig:-1,t->f?ab[t->f->abi]:"",t->up?", nested":""); } else snprintf(S->vmsg,sizeof S->vmsg,"%s",b); hashev(99,c,S->vop); }
  va_end(a); _exit(1); }
/* ---- baton ---- */
static void fwait(volatile int*p){ while(!__atomic_load_n(p,__ATOMIC_ACQUIRE)) syscall(SYS_futex,p,FUTEX_WAIT_PRIVATE,0,0,0,0); __atomic_store_n(p,0,__ATOMIC_RELEASE); }
static void fwake(volatile int*p){ __atomic_store_n(p,1,__ATOMIC_RELEASE); syscall(SYS_futex,p,FUTEX_WAKE_PRIVATE,1,0,0,0); }
static int pick(int t){ for(int i=0;i<P.nth;i++){ int k=(t+i)%P.nth; if(k!=self->id&&!T[k].done) return k; } return -1; }
void yield_to(int t,int hot){ int k=pick(((t%P.nth)+P.nth)%P.nth); if(k<0) return; int e=errno; S->switches++; if(hot) S->instr_switches++; S->sched=mix(S->sched*7+self->id*16+k+(hot?1000:0)+S->instr*64); cur=k; fwake(&T[k].go); fwait(&self->go); errno=e; }
/* ---- single-stepping ---- */
static inline int isasm(u64 ip){ if((char*)ip>=as_lo&&(char*)ip<as_hi) return 1; u64 p=ip&~4095ull; for(int i=0;i<ncpage;i++) if(cpage[i]==p) return 1; return 0; }
#define MAXTRAP 200000
static u32 traps; static u64 repip; static int repn;
/* a repeated string move or store traps once per element: after a few of them do all but the last two at once */
static void rep_skip(ucontext_t*uc,u64 ip){ greg_t*g=uc->uc_mcontext.gregs; const u8*c=(const u8*)ip;
  if(c[0]!=0xf3||(g[REG_EFL]&0x400)){ repip=0; return; }
  int w=c[1]==0x48?8:1, o=w==8?c[2]:c[1]; if(w==1&&(o==0xa5||o==0xab)) w=4;
  if(!(o==0xa4||o==0xa5||o==0xaa||o==0xab)){ repip=0; return; }
  if(repip!=ip){ repip=ip; repn=0; } if(++repn<8||(u64)g[REG_RCX]<=4) return;
  u64 n=g[REG_RCX]-2; volatile u8*d=(u8*)g[REG_RDI]; const volatile u8*q=(u8*)g[REG_RSI]; int mv=o<0xaa;
  if(mv){ if((u64)d-(u64)q>=(u64)w) for(u64 i=0;i<n*w;i++) d[i]=q[i]; else return; g[REG_RSI]+=n*w; }
  else for(u64 i=0;i<n*w;i++) d[i]=((u8*)&g[REG_RAX])[i%w];
  g[REG_RDI]+=n*w; g[REG_RCX]=2; repip=0; }
static int pending(struct act*a){ if(traps>=MAXTRAP||a->quiet) return 0; if(a->o&&a->o->flags&F_STEPSCRIB) return 1; for(int i=0;i<P.nev;i++){ struct ev*e=&P.ev[i]; if(e->op!=a->op||e->phase>PH_A) continue;
    int n=e->phase==PH_c?a->cnt:e->phase==PH_a?a->acnt:e->phase==PH_C?a->pcnt:a->pacnt; if(n<e->n&&(a->post||e->phase<=PH_a)) return 1; if(!a->post&&e->phase>=PH_C) continue; } return 0; }
static int holding(void);
static void fire(struct act*a,struct ev*e){ if(e->act&&a->hooked==3&&holding()) return; /* preparing promises nothing to signal handlers */ S->fired++; S->anyev++; int er=errno; 
  if(e->act==0){ logev("op %d interrupted at %d: switch to t%d",a->op,e->n,e->arg); yield_to(e->arg,1); }
  else { logev("op %d interrupted at %d: signal runs op %d",a->op,e->n,e->arg); S->signals++; struct rec*r=b_rec; struct ent*n=b_ent; S->sched=mix(S->sched+S->instr*977+e->arg); exec(e->arg); b_rec=r; b_ent=n; self->top=a; }
  errno=er; }
/* ---- what calls ask of the C library: an allocator and locks, in place of the real ones ----
   Like the real ones they may be interrupted inside, and a signal handler that enters them again on the same thread
   would wait for itself. */
static struct { void*p; int th, depth, ifc, kind, left; } hb[1024]; static int nhb; static volatile int hown=-1;
static struct { void*m; int own, readers; } lk[64]; static int nlk;
static int holding(void){ if(hown==self->id) return 1; for(int i=0;i<nlk;i++) if(lk[i].own==self->id) return 1; return 0; }
static int lib_enter(void){ u64 fl; asm volatile("pushfq; popq %0":"=r"(fl)::"memory"); clear_tf(); return fl>>8&1; }
static void lib_leave(int tf){ if(tf) set_tf(); }
static void points(int n){ struct act*a=self?self->top:0; if(!a||a->hooked==1||a->quiet) return; int any=0; for(int i=0;i<P.nev;i++) if(P.ev[i].op==a->op&&P.ev[i].phase<=PH_A) any=1; if(!any) return;
  while(n--){ S->instr++; a->cnt++; if(a->post) a->pcnt++; for(int i=0;i<P.nev;i++){ struct ev*e=&P.ev[i]; if(e->op==a->op&&((e->phase==PH_c&&a->cnt==e->n)||(e->phase==PH_C&&a->post&&a->pcnt==e->n))) fire(a,e); } } }
static void await(volatile int*own,const char*what){ for(int g=0;*own>=0;g++){ if(*own==self->id) violate(V_HANG,"%s is entered again by the thread that is inside it",what); if(g>3000) violate(V_HANG,"no progress: %s is never left",what); yield_to(*own,0); } }
static void heap_in(void){ if(!self) return; await(&hown,"the allocator"); hown=self->id; points(12); }
static void heap_out(void){ if(self) hown=-1; }
static void note(void*p){ if(!p||!self||nhb>=1024) return; struct act*a=self->top; if(!a) return; hb[nhb].p=p; hb[nhb].th=self->id; hb[nhb].depth=self->depth; hb[nhb].ifc=a->o->ifc; hb[nhb].kind=a->o->kind; hb[nhb++].left=0; }
static void unnote(void*p){ for(int i=nhb-1;i>=0;i--) if(hb[i].p==p){ hb[i]=hb[--nhb]; return; } }
/* an operation was left by an exception or a jump: what the skipped library frames hold */
static void skipped(int depth){ for(int i=0;i<nhb;i++) if(hb[i].th==self->id&&hb[i].depth>=depth) hb[i].left=1; }
static void check_leaks(void){ for(int i=0;i<nhb;i++) if(hb[i].left&&hb[i].th==self->id) for(int j=i+1;j<nhb;j++) if(hb[j].left&&hb[j].th==hb[i].th&&hb[j].ifc==hb[i].ifc&&hb[j].kind==hb[i].kind) violate(V_UNWIND,"memory that calls left by an exception or a jump took is never released"); }
void*b_malloc(size_t n){ int tf=lib_enter(); heap_in(); void*p=malloc(n); note(p); heap_out(); lib_leave(tf); return p; }
void*b_calloc(size_t n,size_t m){ int tf=lib_enter(); heap_in(); void*p=calloc(n,m); note(p); heap_out(); lib_leave(tf); return p; }
void*b_realloc(void*q,size_t n){ int tf=lib_enter(); heap_in(); unnote(q); void*p=realloc(q,n); note(p); heap_out(); lib_leave(tf); return p; }
void*b_aligned_alloc(size_t al,size_t n){ int tf=lib_enter(); heap_in(); void*p=aligned_alloc(al,n); note(p); heap_out(); lib_leave(tf); return p; }
int b_posix_memalign(void**q,size_t al,size_t n){ int tf=lib_enter(); heap_in(); int r=posix_memalign(q,al,n); if(!r) note(*q); heap_out(); lib_leave(tf); return r; }
void b_free(void*p){ int tf=lib_enter(); heap_in(); unnote(p); free(p); heap_out(); lib_leave(tf); }
static int lkof(void*m){ for(int i=0;i<nlk;i++) if(lk[i].m==m) return i; if(nlk==64){ fprintf(stderr,"simulator: too many locks\n"); _exit(2); } lk[nlk].m=m; lk[nlk].own=-1; lk[nlk].readers=0; return nlk++; }
static int lock_(void*m,int rd,int try){ int tf=lib_enter(), i=lkof(m), me=self?self->id:MAXT;
  if(try&&(lk[i].own>=0||(!rd&&lk[i].readers))){ lib_leave(tf); return EBUSY; }
  if(self){ await(&lk[i].own,"a lock"); if(!rd) for(int g=0;lk[i].readers;g++){ if(g>3000) violate(V_HANG,"no progress: a lock is never released"); yield_to(self->id+1,0); if(lk[i].own>=0) await(&lk[i].own,"a lock"); if(P.nth<2) violate(V_HANG,"a lock is entered again by the thread that is inside it"); } }
  if(rd) lk[i].readers++; else lk[i].own=me; points(3); lib_leave(tf); return 0; }
static int unlock_(void*m){ int tf=lib_enter(), i=lkof(m); points(2); if(lk[i].own>=0) lk[i].own=-1; else if(lk[i].readers) lk[i].readers--; lib_leave(tf); return 0; }
int b_pthread_mutex_lock(void*m){ return lock_(m,0,0); } int b_pthread_mutex_trylock(void*m){ return lock_(m,0,1); } int b_pthread_mutex_unlock(void*m){ return unlock_(m); }
int b_pthread_spin_lock(void*m){ return lock_(m,0,0); } int b_pthread_spin_trylock(void*m){ return lock_(m,0,1); } int b_pthread_spin_unlock(void*m){ return unlock_(m); }
int b_pthread_rwlock_wrlock(void*m){ return lock_(m,0,0); } int b_pthread_rwlock_rdlock(void*m){ return lock_(m,1,0); } int b_pthread_rwlock_unlock(void*m){ return unlock_(m); }
int b_mtx_lock(void*m){ return lock_(m,0,0); } int b_mtx_trylock(void*m){ return lock_(m,0,1)?1:0; } int b_mtx_unlock(void*m){ return unlock_(m); }
int b_pthread_once(int*o,void(*f)(void)){ int tf=lib_enter(), i=lkof(o); if(!*o){ if(self) await(&lk[i].own,"an initialiser"); if(!*o){ lk[i].own=self?self->id:MAXT; f(); lk[i].own=-1; *o=2; } } lib_leave(tf); return 0; }

static void on_trap(int sig,siginfo_t*si,void*ucv){ (void)sig;(void)si; ucontext_t*uc=ucv; u64 ip=uc->uc_mcontext.gregs[REG_RIP]; struct act*a=self?self->top:0;
  if(!a||a->hooked==1){ uc->uc_mcontext.gregs[REG_EFL]&=~0x100; return; }
  if(++traps>=MAXTRAP){ uc->uc_mcontext.gregs[REG_EFL]&=~0x100; return; }
  if(*(const u8*)ip==0xf3) rep_skip(uc,ip);
  int as=isasm(ip); int in=as||((char*)ip>=tx_lo&&(char*)ip<tx_hi); if(!in) return;
  /* what a handler running on this stack may overwrite: everything below the red zone */
  u64 sp=uc->uc_mcontext.gregs[REG_RSP]; int scr=!(sp>(u64)self->alt&&sp<=(u64)self->alt+ALTSZ);
  if(scr&&(a->o->flags&F_STEPSCRIB)){ memset((char*)sp-128-SCRIB,0x5a,SCRIB); S->scribbles++; }
  S->instr++; a->cnt++; if(as) a->acnt++; if(a->post){ a->pcnt++; if(as) a->pacnt++; }
  for(int i=0;i<P.nev;i++){ struct ev*e=&P.ev[i]; if(e->op!=a->op||e->phase>PH_A) continue;
    int go=0; switch(e->phase){ case PH_c: go=a->cnt==e->n; break; case PH_a: go=as&&a->acnt==e->n; break; case PH_C: go=a->post&&a->pcnt==e->n; break; case PH_A: go=a->post&&as&&a->pacnt==e->n; break; }
    if(go){ if(scr&&e->act==1){ memset((char*)sp-128-SCRIB,0xa7,SCRIB); S->scribbles++; } fire(a,e); } }
  if(!pending(a)) uc->uc_mcontext.gregs[REG_EFL]&=~0x100; }
/* slow is not stuck: only a run in which nothing at all was done since the last looks (no instruction stepped, no call, no switch) hangs; at most MAXTRAP instructions are stepped in a run */
static int still_moving(int sig){ static u64 last=~0ull; static int same,looks; u64 now=S->instr*3+S->calls*5+S->switches*7+S->opdone*11+S->preps*13; if(now!=last){ last=now; same=0; } else same++;
  if(same>=2) return 0; if(++looks>300){ fprintf(stderr,"run given up after 300 looks\n"); _exit(9); } if(sig==SIGALRM) alarm(25); return 1; }
static void on_crash(int sig,siginfo_t*si,void*ucv){ ucontext_t*uc=ucv; u64 ip=uc->uc_mcontext.gregs[REG_RIP]; u8*ad=si->si_addr; if(S->viol) _exit(1);
  if((sig==SIGALRM||sig==SIGPROF)&&still_moving(sig)) return;
  if(sig==SIGALRM||sig==SIGPROF) violate(V_HANG,"no progress");
  int lib=((char*)ip>=tx_lo&&(char*)ip<tx_hi)||isasm(ip); const char*wh=lib?"library code":"other code"; logev("signal %d at %llx address %llx",sig,(unsigned long long)ip,(unsigned long long)(u64)ad);
  if(sig==SIGSEGV){ int wr=uc->uc_mcontext.gregs[REG_ERR]&2;
    if(ad>=appmem&&ad<appmem+APPMEM&&wr) violate(V_ROWRITE,"write to a closure the application keeps in its own memory (%s)",wh);
    if(ad>=roreg&&ad<roreg+rolen&&wr) violate(V_ROWRITE,"write to an interface, type description or shared argument vector (%s)",wh);
    for(int t=0;t<MAXT;t++) for(int e=0;e<3;e++) if(T[t].edge[e]){ if(ad>=T[t].edge[e]&&ad<T[t].edge[e]+EDGEP*4096&&wr) violate(V_ROWRITE,"write to the caller's %s during the call (%s)",e==0?"argument values":e==2?"argument vector":"result",wh);
      if(ad>=T[t].edge[e]+EDGEP*4096&&ad<T[t].edge[e]+(EDGEP+1)*4096) violate(V_READOUT,"%s past the end of the caller's %s (%s)",wr?"write":"read",e==0?"argument values":e==2?"argument vector":"result buffer",wh); } }
  violate(V_CRASH,"signal %d in %s",sig,wh); }
void step_on(struct act*a){ if(pending(a)) set_tf(); } void step_off(void){ clear_tf(); }
/* ---- memory ---- */
u8*ralloc(size_t n,size_t al){ u8*p=(u8*)(((u64)self->ap+al-1)/al*al); self->ap=p+n; if(self->ap>self->arena+ARENA) { fprintf(stderr,"arena exhausted\n"); _exit(9); }; return p; }
static void*roalloc(size_t n,size_t al){ u8*p=(u8*)(((u64)rop+al-1)/al*al); rop=p+n; if(rop>roreg+rolen){ fprintf(stderr,"ro region exhausted\n"); _exit(9);} return p; }
/* ---- types ---- */
static ffi_type *fty[1200];
/* complex integers are described by the application */
static ffi_type *cie[4][2]={{(ffi_type*)&ffi_type_uint8,0},{(ffi_type*)&ffi_type_sint16,0},{(ffi_type*)&ffi_type_sint32,0},{(ffi_type*)&ffi_type_sint64,0}};
static ffi_type cityp[4]={{2,1,FFI_TYPE_COMPLEX,cie[0]},{4,2,FFI_TYPE_COMPLEX,cie[1]},{8,4,FFI_TYPE_COMPLEX,cie[2]},{16,8,FFI_TYPE_COMPLEX,cie[3]}};
ffi_type *ftype(int t){ const struct tdesc*d=&TD[t];
  switch(d->kind){ case K_U8: return (ffi_type*)&ffi_type_uint8; case K_I8: return (ffi_type*)&ffi_type_sint8; case K_U16: return (ffi_type*)&ffi_type_uint16; case K_I16: return (ffi_type*)&ffi_type_sint16; case K_U32: return (ffi_type*)&ffi_type_uint32; case K_I32: return (ffi_type*)&ffi_type_sint32; case K_U64: return (ffi_type*)&ffi_type_uint64; case K_I64: return (ffi_type*)&ffi_type_sint64; case K_PTR: return (ffi_type*)&ffi_type_pointer; case K_F32: return (ffi_type*)&ffi_type_float; case K_F64: return (ffi_type*)&ffi_type_double; case K_LD: return (ffi_type*)&ffi_type_longdouble; case K_CF: return (ffi_type*)&ffi_type_complex_float; case K_CD: return (ffi_type*)&ffi_type_complex_double; case K_CLD: return (ffi_type*)&ffi_type_complex_longdouble; case K_VOID: return (ffi_type*)&ffi_type_void; case K_CC: return &cityp[0]; case K_CS: return &cityp[1]; case K_CI: return &cityp[2]; case K_CL: return &cityp[3]; }
  if(fty[t]) return fty[t];
  ffi_type*x=roalloc(sizeof *x,16); x->size=0; x->alignment=0; x->type=FFI_TYPE_STRUCT; x->elements=roalloc(sizeof(void*)*(d->nel+1),8); fty[t]=x; for(int i=0;i<d->nel;i++) x->elements[i]=ftype(d->el[i]); x->elements[d->nel]=0; return x; }
static ffi_abi ABIS[3]={FFI_UNIX64,FFI_GNUW64,FFI_WIN64};
static int isint(int k){ return k<=K_PTR; }
size_t rs_size(struct iface*f){ int k=TD[f->ret].kind; if(k==K_VOID) return 0; if(isint(k)) return 8; return TD[f->ret].size; }
static int hasld(int t){ for(int i=0;i<TD[t].nleaf;i++) if(TD[t].lf[i].kind==K_LD) return 1; return 0; }
void dynsig(struct iface*f,u64 s){ for(;;){ f->abi=rn(&s,10)<6?0:1+rn(&s,2); f->nargs=rn(&s,4)?rn(&s,14):rn(&s,60); f->nfixed=-1; if(rn(&s,80)==0) f->nargs=60+rn(&s,MAXARG-60); u32 mode=rn(&s,4); int bad=0;
   for(int i=-1;i<f->nargs;i++){ int t; for(;;){ t=mode==0?(int)rn(&s,K_VOID+1):mode==1?K_VOID+1+(int)rn(&s,NTD-K_VOID-1):rn(&s,2)?(int)rn(&s,12):(int)rn(&s,NTD); if(TD[t].kind==K_VOID&&i>=0) continue; if(f->abi==2&&hasld(t)) continue; break; } if(i<0) f->ret=t; else f->args[i]=t; }
   if(f->nargs&&rn(&s,8)==0&&!bad){ f->nfixed=1+rn(&s,f->nargs); for(int i=f->nfixed;i<f->nargs;i++) if(TD[f->args[i]].kind<K_U32||TD[f->args[i]].kind==K_F32) f->args[i]=K_I64; }
   return; } }
void raw_caps(struct iface*f){ f->rawok=f->nfixed<0; f->jok=f->nfixed<0; for(int i=-1;i<f->nargs;i++){ int k=TD[i<0?f->ret:f->args[i]].kind; if(i>=0&&(k==K_LD||k>=K_CF)) f->jok=0; if(i<0&&k>=K_LD&&k!=K_VOID) f->jok=0; } }
void*closure_mem(void**code){ if(ncp>=CPOOL) return 0; *code=cpool[ncp].code; return cpool[ncp++].w; }
static void setup_iface(int n){ struct iface*f=&I[n]; const struct ifc*c=&P.ifc[n]; memset(f,0,sizeof *f); f->sig=c->sig;
  if(c->sig<0){ f->dyn=1; dynsig(f,c->dyn); } else { const struct sigd*g=&SG[c->sig%NSG]; f->sig=c->sig%NSG; f->abi=g->abi; f->nargs=g->nargs; f->nfixed=g->nfixed; f->ret=g->ret; memcpy(f->args,g->args,sizeof(short)*g->nargs); }
  f->cif=roalloc(sizeof(ffi_cif),16); f->at=roalloc(sizeof(void*)*(f->nargs+1),8); for(int i=0;i<f->nargs;i++) f->at[i]=ftype(f->args[i]); f->rt=ftype(f->ret);
  ffi_status st=f->nfixed<0?ffi_prep_cif(f->cif,ABIS[f->abi],f->nargs,f->rt,f->at):ffi_prep_cif_var(f->cif,ABIS[f->abi],f->nfixed,f->nargs,f->rt,f->at);
  if(st!=FFI_OK) violate(V_PREP,"signature %d rejected with status %d",f->sig,st);
  for(int i=-1;i<f->nargs;i++){ int t=i<0?f->ret:f->args[i]; if(TD[t].kind!=K_VOID&&(ftype(t)->size!=(size_t)TD[t].size||ftype(t)->alignment!=TD[t].align)) violate(V_PREP,"type %d laid out with size %d alignment %d instead of %d and %d",t,(int)ftype(t)->size,ftype(t)->alignment,TD[t].size,TD[t].align); }
  raw_caps(f); f->ok=1;
  /* one argument vector that everybody may share */
  size_t tot=0; for(int i=0;i<f->nargs;i++) tot+=TD[f->args[i]].size+16; f->vecp=roalloc(sizeof(void*)*(f->nargs+1),8); u64 s=mix(n*77+f->sig+c->dyn); for(int i=0;i<f->nargs;i++){ int sz=TD[f->args[i]].size; u8*p=roalloc(sz,TD[f->args[i]].align); for(int j=0;j<sz;j++) p[j]=rnd(&s)>>21; f->vecp[i]=p; }
}
extern void rawh(void);
static void setup_closures(void){ for(int i=0;i<P.nops;i++){ struct op*o=&P.ops[i]; struct iface*f=&I[o->ifc]; if(!f->ok) continue; struct clo*c; ffi_status st=FFI_OK;
   switch(o->kind){ 
    case K_CLOS: case K_LOOP: c=&f->clo[K_CLOS]; if(c->w) break; if(!(c->w=closure_mem(&c->code))) break; c->ifc=o->ifc; c->kind=K_CLOS; st=c->w==c->code?ffi_prep_closure(c->w,f->cif,(void*)hs_entry,c):ffi_prep_closure_loc(c->w,f->cif,(void*)hs_entry,c,c->code); break;
    case K_RAWCLOS: case K_RAWLOOP: c=&f->clo[K_RAWCLOS]; if(c->w||!f->rawok) break; if(!(c->w=closure_mem(&c->code))) break; c->ifc=o->ifc; c->kind=K_RAWCLOS; st=c->w==c->code?ffi_prep_raw_closure(c->w,f->cif,(void*)hr_entry,c):ffi_prep_raw_closure_loc(c->w,f->cif,(void*)hr_entry,c,c->code); break;
    case K_JCLOS: case K_JLOOP: c=&f->clo[K_JCLOS]; if(c->w||!f->jok) break; if(!(c->w=closure_mem(&c->code))) break; c->ifc=o->ifc; c->kind=K_JCLOS; st=c->w==c->code?ffi_prep_java_raw_closure(c->w,f->cif,(void*)hr_entry,c):ffi_prep_java_raw_closure_loc(c->w,f->cif,(void*)hr_entry,c,c->code); break;
    case K_GOCLOS: case K_GOLOOP: if(f->go) break; f->go=roalloc(sizeof *f->go,16); f->go->magic=0x60c105e0+o->ifc; c=&f->clo[K_GOCLOS]; c->ifc=o->ifc; c->kind=K_GOCLOS; f->go->c=c; st=ffi_prep_go_closure(&f->go->g,f->cif,(void*)hs_entry); break; }
   if(st!=FFI_OK) violate(V_PREP,"closure preparation returned %d",st); } }
/* ---- values ---- */
static void gen_leaves(u64*s,int t,u8*p){ const struct tdesc*d=&TD[t]; for(int i=0;i<d->size;i++) p[i]=rnd(s)>>17; (void)d;
  if(isint(d->kind)||d->kind==K_F32||d->kind==K_F64){ u32 q=rn(s,8); if(q==0) memset(p,0xff,d->size); else if(q==1){ memset(p,0,d->size); p[d->size-1]=0x80; } else if(q==2) memset(p,0,d->size); } }
static int leaves_eq(int t,const u8*a,const u8*b){ const struct tdesc*d=&TD[t]; for(int i=0;i<d->nleaf;i++) if(memcmp(a+d->lf[i].off,b+d->lf[i].off,d->lf[i].len)) return 0; return 1; }
static u64 wide(int k,const u8*p){ switch(k){ case K_U8: return *p; case K_I8: return (u64)(int64_t)*(int8_t*)p; case K_U16: return *(uint16_t*)p; case K_I16: return (u64)(int64_t)*(int16_t*)p; case K_U32: return *(u32*)p; case K_I32: return (u64)(int64_t)*(int32_t*)p; default: return *(u64*)p; } }
static void check_args(struct act*a,void**pp,const long long*w,const char*when){ struct iface*f=a->f; u8*g=a->gold; for(int i=0;i<f->nargs;i++){ int t=f->args[i]; if(!leaves_eq(t,pp[i],g)) { const u8*x=pp[i]; violate(V_ARGS,"argument %d of %d %s: got %02x%02x%02x%02x.. instead of %02x%02x%02x%02x..",i,f->nargs,when,x[0],TD[t].size>1?x[1]:0,TD[t].size>2?x[2]:0,TD[t].size>3?x[3]:0,g[0],TD[t].size>1?g[1]:0,TD[t].size>2?g[2]:0,TD[t].size>3?g[3]:0); }
    if(w&&TD[t].kind<K_PTR&&(u64)w[i]!=wide(TD[t].kind,g)) violate(V_ARGS,"argument %d of %d %s: the callee sees %llx instead of %llx at full width",i,f->nargs,when,(unsigned long long)w[i],(unsigned long long)wide(TD[t].kind,g)); g+=(TD[t].size+15)&~15; } }
static int x87ret(struct iface*f){ if(f->abi) return 0; const struct tdesc*d=&TD[f->ret]; if(d->kind==K_CLD) return 2; if(d->size==16&&d->nleaf==1&&d->lf[0].kind==K_LD) return 1; return 0; }
static int depth87(const u8*fenv){ u32 tw=fenv[8]|fenv[9]<<8; int n=0; for(int i=0;i<8;i++) if((tw>>(2*i)&3)!=3) n++; return n; }
static int native_kind(int k){ return k==K_CLOS||k==K_GOCLOS||k==K_RAWCLOS||k==K_JCLOS||k==K_NATIVE; }
static int go_kind(int k){ return k==K_GOCALL||k==K_GOCLOS||k==K_GOLOOP; }
/* ---- the callee ---- */
static int exec1(int id,int level,int iter,int last);
static void child_thunk(void*p){ struct act*a=p; if(a->level<a->o->deep&&exec1(a->op,a->level+1,a->iter,a->level+1==a->o->deep)) return; a->bottom=1; for(int i=0;i<P.nops;i++) if(P.ops[i].parent==a->op&&P.ops[i].sig==0) exec(i); }
static void rsched(struct act*a,int ph){ int n=0; if(a->quiet) return; for(int i=0;i<P.nev;i++) if(P.ev[i].op==a->op&&P.ev[i].phase==ph){ n++; S->anyev++; if(P.ev[i].act==0) yield_to(P.ev[i].arg,0); } }
static void callee(struct act*a,void**pp,const long long*w,u8*res,int handler,int raw){
  struct iface*f=a->f; const struct op*o=a->o; struct rec*r0=b_rec; struct ent*e0=b_ent;
  if(r0!=&a->rec||e0!=&a->ent) violate(V_IDENT,"a callee was reached that this thread is not calling");
  if(a->hooked) violate(V_IDENT,"the callee was entered a second time for one call");
  a->hooked=1; S->calls++;
  if(a->ent.count){ /* it came through the entry stub */
    if(a->ent.rsp&15) violate(V_STACK,"the stack is misaligned at the callee's entry");
    if(a->ent.rflags&0x400) violate(V_FPU,"the direction flag is set at the callee's entry");
    if((a->ent.mx&0xffc0)!=((o->flags&F_STATE)?a->rec.mxp:0x1f80)&&!a->light) violate(V_FPU,"MXCSR is %x at the callee's entry",a->ent.mx);
    if(depth87(a->ent.fenv)) violate(V_FPU,"the x87 stack is not empty at the callee's entry");
    if(!handler&&f->abi==0&&f->nfixed>=0){ u32 n=0; for(int i=0;i<f->nargs;i++) if(TD[f->args[i]].kind==K_F32||TD[f->args[i]].kind==K_F64) n++; if(n>8) n=8; if((a->ent.rax&0xff)<n) violate(V_ARGS,"al is %d at a variadic callee with %d vector arguments",(int)(a->ent.rax&0xff),n); }
    if(!handler&&go_kind(o->kind)&&a->ent.chain!=a->rec.chain) violate(V_CHAIN,"context %llx instead of %llx",(unsigned long long)a->ent.chain,(unsigned long long)a->rec.chain);
  }
  check_args(a,pp,w,"on entry");
  size_t rn_=res&&TD[f->ret].kind!=K_VOID?handler&&isint(TD[f->ret].kind)?8:TD[f->ret].size:0; u8 rpat=0x30+(a->op&63); memset(res,rpat,rn_); /* the result grows in its final place */
  rsched(a,PH_h);
  cx_guarded(child_thunk,a);
  if(self->top!=a) violate(V_CRASH,"simulator: act stack");
  b_rec=&a->rec; b_ent=&a->ent; self->top=a;
  check_args(a,pp,w,"after nested calls"); for(size_t i=0;i<rn_;i++) if(res[i]!=rpat) violate(V_RESULT,"byte %d of the result being built was overwritten during nested calls",(int)i);
  if(o->flags&F_SCRIB) for(int i=0;i<f->nargs;i++) memset(pp[i],0xa5^i,TD[f->args[i]].size);
  if(raw==0&&handler&&(o->flags&F_SCRIB)&&(o->seed&1)) for(int i=0;i<f->nargs;i++) pp[i]=(void*)0x5a5a5a5a5aul;
  if(!a->bottom){} else if(o->exitmode==X_THROW){ S->throws++; S->anyev++; logev("op %d throws to op %d",a->op,o->exitto); hashev(7,a->op,o->exitto); cx_throw(o->exitto,a->op*1000+o->exitto); }
  else if(o->exitmode==X_JUMP){ S->jumps++; S->anyev++; hashev(8,a->op,o->exitto); struct act*t=a; while(t&&t->op!=o->exitto) t=t->up; if(t){ logev("op %d jumps to op %d",a->op,o->exitto); longjmp(t->jb,1); } }
  const struct tdesc*d=&TD[f->ret];
  if(res&&d->kind!=K_VOID){ if(handler&&isint(d->kind)) *(u64*)res=wide(d->kind,a->res); else memcpy(res,a->res,d->size); }
  if(!a->light){ struct ent*e=&a->ent; e->mxx=a->ent.mx; e->cwx=a->ent.cw; if((o->flags&F_FPEXIT)&&(o->flags&F_STATE)){ static const u32 m[]={0x1f80,0x3f80,0x5f80,0x7f80,0x9fc0}; static const uint16_t c[]={0x37f,0x27f,0x77f,0xf7f}; e->mxx=m[o->seed%5]; e->cwx=c[o->seed/5%4]; } }
  a->post=1; int pp2=pending(a); if(pp2&&a->ent.count&&!a->light) a->ent.flags|=ENT_TF; else a->ent.flags&=~ENT_TF;
  errno=a->errtoken=(int)(mix(o->seed)%4000+200);
  a->hooked=2;
  if(pp2&&(a->light||!a->ent.count)) set_tf(); }
void hookc(int k,void**pp,const long long*w,void*r){ clear_tf(); struct act*a=self->top; if(!a||a->f->dyn||a->f->sig!=k) violate(V_IDENT,"callee %d was reached instead of the one called",k); callee(a,pp,w,r,0,0); }
void handler_c(ffi_cif*cif,void*rv,void**av,void*ud){ clear_tf(); struct act*a=self->top; if(!a) violate(V_IDENT,"handler reached without a call"); struct iface*f=a->f;
  if(go_kind(a->o->kind)){ struct goclo*g=ud; if(g!=f->go) violate(V_CHAIN,"the Go handler received another closure's context"); if(g->magic!=0x60c105e0u+a->o->ifc) violate(V_CHAIN,"the Go closure's context was damaged"); }
  else if(ud!=&f->clo[K_CLOS]) violate(V_IDENT,"the handler received user data of another closure");
  if(cif!=f->cif) violate(V_IDENT,"the handler received another interface");
  callee(a,av,0,rv,1,0); }
/* raw forms, decoded and encoded independently of the library */
static int slots(struct iface*f,int j,int i){ const struct tdesc*d=&TD[f->args[i]]; if(j) return d->kind==K_U64||d->kind==K_I64||d->kind==K_F64?2:1; if(d->kind>=K_CF) return 1; return (d->size+7)/8; }
static void encode_raw(struct iface*f,int j,void**av,ffi_raw*raw){ for(int i=0;i<f->nargs;i++){ const struct tdesc*d=&TD[f->args[i]]; int n=slots(f,j,i); if(d->kind>=K_CF) raw->ptr=av[i]; else if(d->kind<K_U64) raw->uint=wide(d->kind,av[i]); else memcpy(raw,av[i],d->size); raw+=n; } }
void rawhandler_c(ffi_cif*cif,void*rv,ffi_raw*raw,void*ud){ clear_tf(); struct act*a=self->top; if(!a) violate(V_IDENT,"handler reached without a call"); struct iface*f=a->f; int j=a->o->kind==K_JCLOS||a->o->kind==K_JLOOP;
  if(ud!=&f->clo[j?K_JCLOS:K_RAWCLOS]) violate(V_IDENT,"the raw handler received user data of another closure"); if(cif!=f->cif) violate(V_IDENT,"the raw handler received another interface");
  void*pp[MAXARG]; long long w[MAXARG]; ffi_raw*q=raw; for(int i=0;i<f->nargs;i++){ const struct tdesc*d=&TD[f->args[i]]; pp[i]=d->kind>=K_CF?q->ptr:(void*)q; w[i]=d->kind<K_U64?(long long)q->uint:d->kind<K_PTR?*(long long*)q:0; q+=slots(f,j,i); }
  callee(a,pp,w,rv,1,1); }
/* ---- one operation ---- */
static void invoke(void*ap){ struct act*a=ap; struct iface*f=a->f; const struct op*o=a->o; int cc=o->flags&F_CLANG?1:0; if(!f->dyn&&!SG[f->sig].cal[cc]) cc=0;
  int st=(o->flags&F_STATE)&&!a->light, ms=f->abi!=0; struct rec*r=&a->rec; struct ent*e=&a->ent; u64 s=mix(o->seed+5);
  void*code=0; void*fn=0;
  if(!f->dyn){ int ent=(o->flags&(F_ENTRY|F_STATE))||o->kind==K_GOCALL; fn=ent?(void*)(ents_base+16*(2*f->sig+cc)):SG[f->sig].tgt[cc]; }
  switch(o->kind){ case K_CLOS: case K_LOOP: code=f->clo[K_CLOS].code; break; case K_RAWCLOS: case K_RAWLOOP: code=f->clo[K_RAWCLOS].code; break; case K_JCLOS: case K_JLOOP: code=f->clo[K_JCLOS].code; break; case K_GOCLOS: case K_GOLOOP: code=(void*)f->go->g.tramp; break; case K_NATIVE: code=fn; break; }
  for(int i=0;i<8;i++) r->pat[i]=rnd(&s); for(int i=0;i<20;i++) r->xpat[i]=rnd(&s); static const u32 m[]={0x1f80,0x1f80,0x3f80,0x5f80,0x7f80,0x9fc0}; static const uint16_t c[]={0x37f,0x37f,0x27f,0x77f,0xf7f}; r->mxp=m[rn(&s,6)]; r->cwp=c[rn(&s,5)]; r->chain=rnd(&s);
  e->flags=a->light?ENT_LIGHT:0; e->mxx=r->mxp; e->cwx=r->cwp; e->count=0;
  if(!a->light){ for(int i=0;i<8;i++) e->garb[i]=rnd(&s); e->xg[0]=rnd(&s); e->xg[1]=rnd(&s);
    /* what the callee leaves undefined in the result registers */
    e->keepa=e->keepd=~0ull; memset(e->keep0,0xff,16); memset(e->keep1,0xff,16); e->garba=e->garbd=0; memset(e->garb0,0,16); memset(e->garb1,0,16);
    const struct tdesc*d=&TD[f->ret]; int handler=o->kind!=K_CALL&&o->kind!=K_GOCALL&&o->kind!=K_RAWCALL&&o->kind!=K_JCALL&&o->kind!=K_NATIVE;
    if(handler||d->kind==K_VOID){ e->keepa=e->keepd=0; e->garba=rnd(&s); e->garbd=rnd(&s); memset(e->keep0,0,16); memset(e->keep1,0,16); for(int i=0;i<2;i++){ e->garb0[i]=rnd(&s); e->garb1[i]=rnd(&s);} }
    else if(isint(d->kind)){ if(d->size<8){ e->keepa=(1ull<<8*d->size)-1; e->garba=rnd(&s)&~e->keepa; } e->keepd=0; e->garbd=rnd(&s); memset(e->keep0,0,16); memset(e->keep1,0,16); for(int i=0;i<2;i++){ e->garb0[i]=rnd(&s); e->garb1[i]=rnd(&s);} }
    else if(d->kind==K_F32||d->kind==K_F64){ e->keepa=e->keepd=0; e->garba=rnd(&s); e->garbd=rnd(&s); e->keep0[1]=0; e->garb0[1]=rnd(&s); if(d->kind==K_F32){ e->keep0[0]=0xffffffff; e->garb0[0]=rnd(&s)<<32; } }
    else if(ms&&(d->size==1||d->size==2||d->size==4)){ e->keepa=(1ull<<8*d->size)-1; e->garba=rnd(&s)&~e->keepa; }
    else if(!ms&&d->kind==K_STRUCT&&d->size<8){ /* unused bytes of the struct's register */ e->keepa=(1ull<<8*d->size)-1; e->garba=rnd(&s)&~e->keepa; e->keep0[0]=e->keepa; e->garb0[0]=e->garba; } }
  r->flags=pending(a)?REC_TF:0; e->chain=0;
  size_t rsz=rs_size(f); u8*rv=a->rv; (void)rsz; errno=0; a->errtoken=-1;
  if(native_kind(o->kind)){
    int stub=st||a->light||r->flags||o->kind==K_GOCLOS; r->target=(u64)code; if(o->kind==K_GOCLOS) r->chain=(u64)f->go;
    b_rec=r; b_ent=e; SG[f->sig].cal[cc](stub?(a->light||!st?(void*)shim_light:ms?(void*)shim_ms:(void*)shim_sysv):code,a->av,rv); }
  else {
    void*tgt=code?code:fn; void*shim=st?(void*)shim_sysv:(void*)shim_light; ffi_raw*raw=0; int j=o->kind==K_JCALL||o->kind==K_JLOOP;
    if(o->kind==K_GOLOOP) r->chain=(u64)f->go; u64 chain=r->chain;
    void*lib=(void*)ffi_call; if(o->kind==K_GOCALL||o->kind==K_GOLOOP) lib=(void*)ffi_call_go;
    if(o->kind==K_RAWCALL||o->kind==K_RAWLOOP||j){ lib=j?(void*)ffi_java_raw_call:(void*)ffi_raw_call; int n=0; for(int i=0;i<f->nargs;i++) n+=slots(f,j,i); raw=(ffi_raw*)ralloc(8*n+64,16); memset(raw,0xee,8*n+64);
      if(o->flags&F_OWNRAW) encode_raw(f,j,a->av,raw); else if(j) ffi_java_ptrarray_to_raw(f->cif,a->av,raw); else ffi_ptrarray_to_raw(f->cif,a->av,raw);
      for(int i=0;i<8;i++) if(raw[n+i].uint!=0xeeeeeeeeeeeeeeeeull) violate(V_RAW,"the conversion wrote past the raw form");
      ffi_raw*cp=(ffi_raw*)ralloc(8*n+8,16); memcpy(cp,raw,8*n); r->target=(u64)lib; b_rec=r; b_ent=e;
      ((void(*)(ffi_cif*,void(*)(void),void*,ffi_raw*))shim)(f->cif,(void(*)(void))tgt,rv,raw); clear_tf();
      if(memcmp(cp,raw,8*n)) violate(V_CALLERDATA,"the raw argument block changed during the call"); }
    else { r->target=(u64)lib; b_rec=r; b_ent=e; ((void(*)(ffi_cif*,void(*)(void),void*,void**,void*))shim)(f->cif,(void(*)(void))tgt,rv,a->av,(void*)chain); }
  }
  clear_tf(); int en=errno;
  if(a->hooked!=2) violate(V_IDENT,"the call returned without reaching its callee");
  if(en!=a->errtoken) violate(V_ERRNO,"errno is %d instead of %d",en,a->errtoken);
  if(st){ for(int i=0;i<6;i++) if(r->after[i]!=r->pat[i]){ static const char*n[]={"rbx","rbp","r12","r13","r14","r15"}; violate(V_REGS,"%s changed",n[i]); }
    if(ms&&native_kind(o->kind)){ if(r->after[6]!=r->pat[6]||r->after[7]!=r->pat[7]) violate(V_REGS,"%s changed across a Microsoft-convention callback",r->after[6]!=r->pat[6]?"rdi":"rsi"); for(int i=0;i<20;i++) if(r->xafter[i]!=r->xpat[i]) violate(V_REGS,"xmm%d changed across a Microsoft-convention callback",6+i/2); }
    { const struct tdesc*d=&TD[f->ret]; if(native_kind(o->kind)&&o->kind!=K_NATIVE&&d->kind==K_STRUCT&&(d->size>16||(ms&&(d->size>8||(d->size&(d->size-1)))))&&r->arax!=r->hidden) violate(V_REGS,"rax is %llx instead of the address %llx of the result",(unsigned long long)r->arax,(unsigned long long)r->hidden); }
    if(r->arsp!=r->rsp) violate(V_STACK,"the stack pointer moved by %lld",(long long)(r->arsp-r->rsp));
    if(r->arflags&0x400) violate(V_FPU,"the direction flag is set");
    u32 mx=a->ent.count?a->ent.mxx:r->mxp; uint16_t cw=a->ent.count?a->ent.cwx:r->cwp;
    if((r->mxa&0xffc0)!=(mx&0xffc0)) violate(V_FPU,"MXCSR is %x instead of %x",r->mxa&0xffc0,mx); if((r->cwa&0xf3f)!=(cw&0xf3f)) violate(V_FPU,"x87 control word is %x instead of %x",r->cwa,cw);
    int d=depth87(r->fenv), x=native_kind(o->kind)?x87ret(f):0; if(d!=x) violate(V_FPU,"x87 stack depth is %d instead of %d",d,x); } }
static void check_result(struct act*a){ struct iface*f=a->f; const struct tdesc*d=&TD[f->ret]; if(!a->rv||d->kind==K_VOID) return;
  if(isint(d->kind)&&!native_kind(a->o->kind)){ u64 x=wide(d->kind,a->res); if(*(u64*)a->rv!=x) violate(V_RESULT,"result %llx instead of %llx",*(unsigned long long*)a->rv,(unsigned long long)x); }
  else if(!leaves_eq(f->ret,a->rv,a->res)) violate(V_RESULT,"result %02x%02x.. instead of %02x%02x..",a->rv[0],d->size>1?a->rv[1]:0,a->res[0],d->size>1?a->res[1]:0); }
static void conv_op(struct act*a){ struct iface*f=a->f; for(int j=0;j<2;j++){ if(j?!f->jok:!f->rawok) continue; int n=0; for(int i=0;i<f->nargs;i++) n+=slots(f,j,i);
   size_t sz=j?ffi_java_raw_size(f->cif):ffi_raw_size(f->cif); if(sz<8*(size_t)n) violate(V_RAW,"%sraw size %d is smaller than the %d bytes the form takes",j?"Java ":"",(int)sz,8*n);
   ffi_raw*raw=(ffi_raw*)ralloc(8*n+64,16); memset(raw,0xee,8*n+64); if(j) ffi_java_ptrarray_to_raw(f->cif,a->av,raw); else ffi_ptrarray_to_raw(f->cif,a->av,raw); for(int i=0;i<8;i++) if(raw[n+i].uint!=0xeeeeeeeeeeeeeeeeull) violate(V_RAW,"the conversion wrote past the raw form");
   void**pp=(void**)ralloc(8*f->nargs+64,8); memset(pp,0xee,8*f->nargs+64); if(j) ffi_java_raw_to_ptrarray(f->cif,raw,pp); else ffi_raw_to_ptrarray(f->cif,raw,pp); for(int i=0;i<8;i++) if((u64)pp[f->nargs+i]!=0xeeeeeeeeeeeeeeeeull) violate(V_RAW,"the conversion wrote past the pointer vector");
   check_args(a,pp,0,"after conversion to and from the raw form"); } }
static int closure_ready(struct iface*f,int k){ switch(k){ case K_CLOS: case K_LOOP: return f->clo[K_CLOS].w!=0; case K_RAWCLOS: case K_RAWLOOP: return f->clo[K_RAWCLOS].w!=0; case K_JCLOS: case K_JLOOP: return f->clo[K_JCLOS].w!=0; case K_GOCLOS: case K_GOLOOP: return f->go!=0; case K_RAWCALL: return f->rawok; case K_JCALL: return f->jok; } return 1; }
static u8 isdyn_ok(int k){ return k==K_LOOP||k==K_GOLOOP||k==K_RAWLOOP||k==K_JLOOP||k==K_CONV; }
static int light_of[MAXOPS], catch_of[MAXOPS], jump_of[MAXOPS];
static void analyse(void){ memset(light_of,0,sizeof light_of); memset(catch_of,0,sizeof catch_of); memset(jump_of,0,sizeof jump_of);
  for(int i=0;i<P.nops;i++){ struct op*o=&P.ops[i]; if(o->exitmode==X_NORMAL) continue; int ok=0; for(int k=i,g=0;k>=0&&g<MAXOPS;g++){ if(k==o->exitto){ ok=1; break; } if(P.ops[k].sig) break; k=P.ops[k].parent; } if(!ok){ o->exitmode=X_NORMAL; continue; }
    if(o->exitmode==X_JUMP){ jump_of[o->exitto]=1; continue; } catch_of[o->exitto]=1; for(int k=i;;k=P.ops[k].parent){ light_of[k]=1; if(k==o->exitto) break; } } }
static void op_body(struct act*a){ struct iface*f=a->f; const struct op*o=a->o; int id=a->op; u64 s=mix(o->seed^0x1234567); size_t na=f->nargs;
  /* values, and where the caller keeps them */
  size_t gsz=0, asz=0; for(u32 i=0;i<na;i++){ int sz=TD[f->args[i]].size; gsz+=(sz+15)&~15; asz=(asz+TD[f->args[i]].align-1)/TD[f->args[i]].align*TD[f->args[i]].align+sz; }
  int edge=(o->flags&(F_EDGE|F_RO))&&!self->edgebusy&&asz<EDGEP*4096-64&&TD[f->ret].size<EDGEP*4096-64, vec=(o->flags&F_VEC)!=0;
  int eb0=self->edgebusy; a->gold=ralloc(gsz+16,16); u8*ab; size_t pad=0;
  pad=asz;
  if(edge){ u8*end=self->edge[0]+EDGEP*4096; ab=(u8*)((u64)(end-pad)&~31ull); /* shift so that the last value ends at the page end */ }
  else ab=ralloc(asz+64,32);
  a->args=ab; a->av=edge?(void**)(self->edge[2]+EDGEP*4096-8*na):(void**)ralloc(8*na+8,8);
  { u8*g=a->gold; size_t x=0; for(u32 i=0;i<na;i++){ int t=f->args[i],al=TD[t].align,sz=TD[t].size; x=(x+al-1)/al*al; u8*p=ab+x; if(edge&&i==na-1){ p=self->edge[0]+EDGEP*4096-sz; } x+=sz;
      if(vec){ memcpy(g,f->vecp[i],sz); a->av[i]=f->vecp[i]; } else { gen_leaves(&s,t,g); memcpy(p,g,sz); a->av[i]=p; } g+=(sz+15)&~15; } }
  void**avc=(void**)ralloc(8*na+8,8); memcpy(avc,a->av,8*na); void**ownav=a->av; if(vec) a->av=f->vecp;
  const struct tdesc*d=&TD[f->ret]; a->res=ralloc(d->size+16,16); u64 s2=mix(o->seed^0x777); gen_leaves(&s2,f->ret,a->res);
  size_t rsz=native_kind(o->kind)?(size_t)d->size:rs_size(f); u8*rbase=0; size_t glo=32,ghi=64; int nul=(o->flags&F_NULLRV)&&!native_kind(o->kind);
  if(d->kind==K_VOID){ rsz=0; if(o->flags&F_VOIDRV){ rbase=ralloc(96,16); a->rv=rbase+32; } else a->rv=0; if(native_kind(o->kind)) a->rv=0,rbase=0; }
  else if(nul) a->rv=0;
  else if(edge&&(o->flags&F_EDGE)){ a->rv=self->edge[1]+EDGEP*4096-rsz; rbase=a->rv-glo; ghi=0; }
  else { rbase=ralloc(glo+rsz+ghi+16,32); a->rv=rbase+glo; }
  if(rbase) memset(rbase,0xc3,glo+rsz+ghi);
  if(edge){ self->edgebusy=1; if(o->flags&F_RO){ mprotect(self->edge[0],EDGEP*4096,PROT_READ); mprotect(self->edge[2],EDGEP*4096,PROT_READ); } }
  struct rec*r0=b_rec; struct ent*e0=b_ent; int left=0; int depth=self->depth, eb=self->edgebusy, inrep=self->inrep, deeplv=self->deeplv; long used=self->used;
  logev("op %d %s sig %d%s%s%s",id,kname[o->kind],f->sig,o->sig?" (signal handler)":"",a->light?" light":"",edge?" edge":"");
  if(o->kind==K_CONV) conv_op(a);
  else { u64 six[7]; for(int i=0;i<6;i++) six[i]=rnd(&s2); int cxl=self->cxlive;
    if(jump_of[id]&&setjmp(a->jb)){ left=1; self->cxlive=cxl; unsigned mxd=0x1f80; asm volatile("fninit; ldmxcsr %0"::"m"(mxd)); }
    else if(catch_of[id]) left=cx_try(invoke,a,id,six); else invoke(a); }
  clear_tf(); self->top=a; self->depth=depth; self->inrep=inrep; self->deeplv=deeplv; self->used=used; b_rec=r0; b_ent=e0; if(left) skipped(depth);
  if((edge&&(o->flags&F_RO))||self->edgebusy!=eb){ mprotect(self->edge[0],EDGEP*4096,PROT_READ|PROT_WRITE); mprotect(self->edge[2],EDGEP*4096,PROT_READ|PROT_WRITE); }
  self->edgebusy=eb0;
  /* the caller's data */
  { u8*g=a->gold; for(u32 i=0;i<na;i++){ int sz=TD[f->args[i]].size; if(a->av[i]!=avc[i]) violate(V_CALLERDATA,"entry %d of the argument vector changed",(int)i); if(memcmp(avc[i],g,sz)) violate(V_CALLERDATA,"the value of argument %d changed in the caller's memory",(int)i); g+=(sz+15)&~15; } (void)ownav; }
  if(rbase){ for(size_t i=0;i<glo;i++) if(rbase[i]!=0xc3) violate(V_RESULTSIZE,"memory before the result buffer was written"); for(size_t i=0;i<ghi;i++) if(rbase[glo+rsz+i]!=0xc3) violate(V_RESULTSIZE,"byte %d after the result was written",(int)i); }
  if(!left&&o->kind!=K_CONV) check_result(a);
  hashev(id,left,a->rv&&d->kind!=K_VOID&&!left?mix(*(u8*)a->rv+a->rv[d->size-1]*256):0); }
/* room an operation may need: its values a few times over */
static size_t opbytes(const struct op*o){ size_t n=0; struct iface*f=&I[o->ifc]; if(o->kind==K_PREP) return 0; for(int i=-1;i<f->nargs;i++) n+=TD[i<0?f->ret:f->args[i]].size+48; return n; }
/* one activation; level: how many of the same operation are active above it on purpose (op.deep); iter: how often it was done before (op.rep).
   Interruptions belong to the last repetition, at the first and at the deepest level. */
static int exec1(int id,int level,int iter,int last){ const struct op*o=&P.ops[id]; long need=10000+4*opbytes(o);
  if(self->depth-self->deeplv>=MAXDEPTH||self->arena+ARENA-self->ap<(long)(80000+6*opbytes(o))||self->used+need>STACKMAX){ if(!level) S->missed++; return 0; }
  S->kinds[o->kind]++; u8*mark=self->ap; int depth=self->depth++, deeplv=self->deeplv; long used=self->used; self->used+=need; if(level){ self->deeplv++; S->deeper++; } if(iter) S->again++; if((u32)self->depth>S->maxdepth) S->maxdepth=self->depth;
  struct act A; memset(&A,0,offsetof(struct act,jb)); struct act*a=&A; a->op=id; a->oc=*o; a->o=o; if(level||iter){ a->oc.seed=mix(o->seed+1000*level+iter)>>1; a->o=&a->oc; } a->level=level; a->iter=iter; a->bottom=0; a->qrep=iter+1<o->rep||(self->top&&self->top->qrep&&!o->sig); a->quiet=a->qrep||(level&&!last); a->up=self->top; a->insig=o->sig&&!level; struct act*up=self->top;
  if(o->kind==K_PREP){ a->f=0; a->hooked=3; self->top=a; prep_history(a->o); clear_tf(); }
  else { struct iface*f=&I[o->ifc]; a->f=f;
    if(f->ok&&closure_ready(f,o->kind)&&(!f->dyn||isdyn_ok(o->kind))){ a->light=light_of[id]; self->top=a; op_body(a); } else S->missed++; }
  self->top=up; self->depth=depth; self->deeplv=deeplv; self->used=used; self->ap=mark; S->opdone++;
  { struct act B=*a; rsched(&B,PH_t); } return 1; }
void exec(int id){ const struct op*o=&P.ops[id]; int n=o->rep<1||self->inrep?1:o->rep, was=self->inrep; if(n>1) self->inrep=1; for(int i=n==1&&o->rep>1?o->rep-1:0,e=n==1?i+1:n;i<e;i++) exec1(id,0,i,o->deep==0); self->inrep=was; }
/* ---- a run ---- */
static void*thread_main(void*p){ self=p; stack_t ss; ss.ss_sp=mmap(0,ALTSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); ss.ss_size=ALTSZ; self->alt=ss.ss_sp; ss.ss_flags=0; sigaltstack(&ss,0);
  fwait(&self->go);
  for(int i=0;i<P.nops;i++) if(P.ops[i].th==self->id&&P.ops[i].parent<0) exec(i);
  check_leaks(); self->done=1; int k=pick(0); if(k>=0){ cur=k; fwake(&T[k].go); }
  return 0; }
void world_static(void){
  tx_lo=__start_ffitext; tx_hi=__stop_ffitext; as_lo=__start_ffiasm; as_hi=__stop_ffiasm;
  rolen=16<<20; roreg=mmap(0,rolen,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
  for(int t=0;t<MAXT;t++){ T[t].id=t; T[t].arena=mmap(0,ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); for(int e=0;e<3;e++){ T[t].edge[e]=mmap(0,(EDGEP+1)*4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(T[t].edge[e]+EDGEP*4096,4096,PROT_NONE); } }
  appmem=mmap(0,APPMEM,PROT_READ|PROT_WRITE|PROT_EXEC,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
  for(int i=0;i<CPOOL;i++){ size_t sz=sizeof(ffi_raw_closure)>sizeof(ffi_closure)?sizeof(ffi_raw_closure):sizeof(ffi_closure); if(i%3==2){ u8*q=appmem+i*128; memset(q,0xd7,128); cpool[i].w=cpool[i].code=q; } else cpool[i].w=ffi_closure_alloc(sz,&cpool[i].code); if(!cpool[i].w){ fprintf(stderr,"no closures\n"); exit(2); } u64 p=(u64)cpool[i].code&~4095ull; int k; for(k=0;k<ncpage&&cpage[k]!=p;k++); if(k==ncpage) cpage[ncpage++]=p; } }
void run_child(void){
  { struct itimerval it={{5,0},{5,0}}; setitimer(ITIMER_PROF,&it,0); } alarm(25); cx_init();
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_trap; sa.sa_flags=SA_SIGINFO|SA_NODEFER|SA_ONSTACK; sigaction(SIGTRAP,&sa,0);
  sa.sa_sigaction=on_crash; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_RESTART; int sg[]={SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGABRT,SIGALRM,SIGPROF}; for(int i=0;i<7;i++) sigaction(sg[i],&sa,0);
  self=&T[0]; for(int t=0;t<MAXT;t++){ T[t].ap=T[t].arena; T[t].go=0; T[t].done=0; T[t].top=0; T[t].depth=0; T[t].cxlive=0; T[t].edgebusy=0; T[t].inrep=T[t].deeplv=0; T[t].used=0; }
  rop=roreg; memset(fty,0,sizeof fty); ncp=0; if(P.nth<1) P.nth=1; if(P.nth>MAXT) P.nth=MAXT;
  for(int i=0;i<P.nops;i++){ if(P.ops[i].ifc<0||P.ops[i].ifc>=P.nif) P.ops[i].ifc=0; if(P.ops[i].parent>=i) P.ops[i].parent=-1; if(P.ops[i].th>=P.nth) P.ops[i].th=P.ops[i].th%P.nth; }
  for(int i=0;i<P.nif;i++) setup_iface(i);
  setup_closures(); { int prep=0; for(int i=0;i<P.nops;i++) prep|=P.ops[i].kind==K_PREP; if(!prep) mprotect(appmem,APPMEM,PROT_READ|PROT_EXEC); } pool_init(); mprotect(roreg,rolen,PROT_READ);
  analyse();
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,32<<20);
  for(int t=0;t<P.nth;t++) pthread_create(&T[t].pt,&at,thread_main,&T[t]);
  self=0; cur=0; fwake(&T[0].go); for(int t=0;t<P.nth;t++) pthread_join(T[t].pt,0); _exit(0); }
