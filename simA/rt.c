/* scheduler, locks and the call-outs made by -fsanitize=thread */
#include "sim.h"
#include <stdarg.h>
#include <linux/futex.h>
#include <sys/syscall.h>
struct thr T[MAXT]; int cur; __thread struct thr *self;
struct shm *S; struct plan P; int verbose; int nforked, solo;
const char *vname[]={"none","overlap","content","memprot","align","codedup","dispatch","codeprot","wx-request","wx-code","ladder","order",
 "recover","leak-fd","cloexec","temp-name","foreign-close","foreign-unmap","growth","unreserved","deadlock","livelock","lock-held","mixed-methods",
 "foreign-code","fork","app-closure","crash","hang","prep-status","heap"};

static void fwait(volatile int *f,int v){ while(*f==v) syscall(SYS_futex,f,FUTEX_WAIT_PRIVATE,v,0,0,0); }
static void fwake(volatile int *f){ syscall(SYS_futex,f,FUTEX_WAKE_PRIVATE,1,0,0,0); }

void hashev(u64 a,u64 b,u64 c){ S->hash=mix(S->hash*3+a)+mix(b+0x1234567)*5+mix(c+77)*7; }
void logev(const char *fmt,...){
  if(!verbose) return;
  char b[512]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b-2,fmt,ap); va_end(ap);
  if(n>(int)sizeof b-3) n=sizeof b-3;
  char h[48]; int m= self? snprintf(h,sizeof h,"[t%d op%d +%u] ",self->id,self->op,self->k):snprintf(h,sizeof h,"[main] ");
  if(S->logn+n+m+2<(int)sizeof S->log){ memcpy(S->log+S->logn,h,m); S->logn+=m; memcpy(S->log+S->logn,b,n); S->logn+=n; S->log[S->logn++]='\n'; S->log[S->logn]=0; }
}
void violate(enum vclass c,const char *fmt,...){
  if(!S->viol){
    va_list ap; va_start(ap,fmt); vsnprintf(S->vmsg,sizeof S->vmsg,fmt,ap); va_end(ap);
    for(char*p=S->vmsg;*p;p++) if(*p=='\n') *p=' ';
    S->vop=self?self->op:-1;
    if(S->fork_shared&1) snprintf(S->vsig,sizeof S->vsig,"fork-shared-file-heap");
    else snprintf(S->vsig,sizeof S->vsig,"%s",vname[c]);
    S->viol=c;
    logev("VIOLATION %s: %s",vname[c],S->vmsg);
  }
  _exit(77);
}

/* ------------------------------------------------ baton */
static int retstk[64], retcnt[64], retn;
static u64 lrng; static long live_next; 
static int pre_idx_valid; static u16 pre_by_op[MAXOPS+2][8]; 

void sched_init(void){
  retn=0; lrng=P.lseed; live_next=0; solo=0;
  for(int i=0;i<MAXT;i++){ memset(&T[i],0,sizeof T[i]); T[i].id=i; T[i].op=-1; T[i].state=T_DONE; }
  if(P.live && P.premode){ u32 r=P.prerate; live_next=1+rn(&lrng,r*2); }
  (void)pre_idx_valid; (void)pre_by_op;
}
static void give(int u){
  struct thr *me=self;
  if(u==me->id) return;
  S->switches++;
  S->sched=mix(S->sched*31+ (u64)me->id*4+u)+mix(((u64)me->op<<32)|me->k);
  if(me->midop) S->midsw++;
  cur=u; me->go=0; T[u].go=1; fwake(&T[u].go);
  fwait(&me->go,0);
}
static int runnable(int u){ return u<P.nth && T[u].state==T_READY; }
static int pick_other(void){
  while(retn>0){ int u=retstk[--retn]; if(runnable(u)&&u!=self->id) return u; }
  for(int i=0;i<P.nth;i++) if(i!=self->id&&runnable(i)) return i;
  return -1;
}
static void do_pre(int to,int burst){
  if(solo||to==self->id||!runnable(to)) return;
  if(retn<60){ retstk[retn]=self->id; retcnt[retn]=burst; retn++; }
  give(to);
}
extern const int hotboost;
#define OPSTEP_LIMIT 4000000ull
void sim_yield(int hot){
  struct thr *t=self;
  if(!t||!t->inlib) return;
  t->k++; S->yields++;
  if(++t->opsteps>OPSTEP_LIMIT) violate(V_LIVELOCK,"operation did not finish within %llu steps",OPSTEP_LIMIT);
  if(solo||P.nth<2) return;
  if(t->opsteps%50000==0){ /* a spinning waiter lets the others run */
    for(int i=1;i<P.nth;i++){ int u=(t->id+i)%P.nth; if(runnable(u)){ do_pre(u,1); break; } }
    return; }
  if(P.live){
    if(!P.premode) return;
    int fire=0;
    if(P.premode==1){ if(--live_next<=0){ fire=1; live_next=1+rn(&lrng,P.prerate*2); } }
    else if(P.premode==2){ if(hot){ if(rn(&lrng,100)<(u32)P.prerate) fire=1; } }
    else { if(hot? rn(&lrng,100)<15 : --live_next<=0){ fire=1; if(!hot) live_next=1+rn(&lrng,P.prerate*2);} }
    if(fire && S->npre<MAXPRE){
      int c[MAXT],n=0; for(int i=0;i<P.nth;i++) if(i!=t->id&&runnable(i)) c[n++]=i;
      if(!n) return;
      int to=c[rn(&lrng,n)], b=1+rn(&lrng,3);
      struct pre *r=&S->pre[S->npre++]; r->op=t->op; r->k=t->k; r->to=to; r->burst=b;
      logev("preempt -> t%d burst %d",to,b);
      do_pre(to,b);
    }
  } else {
    int op=t->op; u32 k=t->k;
    for(int i=0;i<P.npre;i++) if(P.pre[i].op==op&&(u32)P.pre[i].k==k){ 
      int to=P.pre[i].to;
      if(to!=t->id&&runnable(to)&&to<P.nth){
        struct pre *r= S->npre<MAXPRE?&S->pre[S->npre++]:0; if(r)*r=P.pre[i];
        logev("preempt -> t%d burst %d",to,P.pre[i].burst); do_pre(to,P.pre[i].burst);
      }
      break; }
  }
}
/* called with no lock held by the harness, after each finished op: choose who goes next */
extern int next_global_thread(void);
void op_done_sched(void){
  if(solo) return;
  if(retn>0){
    if(--retcnt[retn-1]<=0){
      int u=retstk[--retn];
      if(runnable(u)&&u!=self->id){ give(u); return; }
    } else return;   /* continue burst */
  }
  int u=next_global_thread();
  if(u>=0&&u!=self->id&&runnable(u)) give(u);
}
void thread_exit_sched(void){
  self->state=T_DONE; self->midop=0;
  int u=-1; 
  while(retn>0&&u<0){ int x=retstk[--retn]; if(runnable(x)&&x!=self->id) u=x; }
  if(u<0) u=next_global_thread();
  if(u<0||!runnable(u)||u==self->id){ u=-1; for(int i=0;i<P.nth;i++) if(i!=self->id&&runnable(i)){u=i;break;} }
  if(u<0){
    for(int i=0;i<P.nth;i++) if(T[i].state==T_BLOCKED) violate(V_DEADLOCK,"thread t%d waits for ever for a lock in op %d",i,T[i].op);
    return; /* everybody is done */
  }
  cur=u; T[u].go=1; fwake(&T[u].go);
}
void thread_enter_sched(void){ fwait(&self->go,0); }
void thread_kick(int u){ cur=u; T[u].go=1; fwake(&T[u].go); }

/* ------------------------------------------------ locks */
#define MAXM 64
static struct smx { void *a; int owner; int cnt; int rd; } M[MAXM]; static int nM;
static struct smx *mfind(void *a){ for(int i=0;i<nM;i++) if(M[i].a==a) return &M[i]; if(nM==MAXM) { nM=0; memset(M,0,sizeof M);} M[nM].a=a; M[nM].owner=-1; M[nM].cnt=0; M[nM].rd=0; return &M[nM++]; }
void locks_reset(void){ nM=0; }
static int mkind(pthread_mutex_t *m){ return m->__data.__kind&3; }
static void block_on(void *a){
  self->state=T_BLOCKED; self->waitm=a;
  if(solo) violate(V_DEADLOCK,"lock never released");
  int u=pick_other();
  if(u<0) violate(V_DEADLOCK,"every thread waits for a lock (op %d)",self->op);
  logev("blocked, running t%d",u);
  give(u);
}
static void wake_on(void *a){ for(int i=0;i<P.nth;i++) if(T[i].state==T_BLOCKED&&T[i].waitm==a){ T[i].state=T_READY; T[i].waitm=0; } }
static int lock_any(void *a,int rec,int try){
  sim_yield(1);
  int me=self?self->id:99;
  struct smx *m=mfind(a);
  if(rec&&m->owner==me){ m->cnt++; return 0; }
  while((m=mfind(a))->owner!=-1||m->rd){
    if(try) return EBUSY;
    if(!self) violate(V_DEADLOCK,"lock held at quiescence");
    if(m->owner==me) violate(V_DEADLOCK,"thread locks a lock it already holds");
    S->probe[0]++;
    block_on(a);
  }
  m->owner=me; m->cnt=1; if(self) self->held++;
  sim_yield(1);
  return 0;
}
static int unlock_any(void *a){
  struct smx *m=mfind(a);
  int me=self?self->id:99;
  if(m->rd&&m->owner==-1){ if(--m->rd==0) wake_on(a); if(self) self->held--; sim_yield(1); return 0; }
  if(m->owner!=me) violate(V_LOCKHELD,"thread releases a lock it does not hold");
  if(--m->cnt>0) return 0;
  m->owner=-1; if(self) self->held--;
  wake_on(a);
  sim_yield(1);
  return 0;
}
int sim_pthread_mutex_init(pthread_mutex_t *m,const pthread_mutexattr_t *at){ int r=pthread_mutex_init(m,at); struct smx *x=mfind(m); x->owner=-1; x->cnt=0; return r; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m){ (void)m; return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m){ return lock_any(m,mkind(m)==1,0); }
int sim_pthread_mutex_trylock(pthread_mutex_t *m){ return lock_any(m,mkind(m)==1,1); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m){ return unlock_any(m); }
int sim_pthread_spin_init(void *m,int s){ (void)s; struct smx *x=mfind(m); x->owner=-1; return 0; }
int sim_pthread_spin_lock(void *m){ return lock_any(m,0,0); }
int sim_pthread_spin_trylock(void *m){ return lock_any(m,0,1); }
int sim_pthread_spin_unlock(void *m){ return unlock_any(m); }
int sim_pthread_rwlock_init(void *m,const void *a){ (void)a; struct smx *x=mfind(m); x->owner=-1; x->rd=0; return 0; }
int sim_pthread_rwlock_wrlock(void *m){ return lock_any(m,0,0); }
int sim_pthread_rwlock_rdlock(void *a){ sim_yield(1); struct smx *m; while((m=mfind(a))->owner!=-1){ if(self&&m->owner==self->id) violate(V_DEADLOCK,"rwlock self deadlock"); block_on(a);} m->rd++; if(self) self->held++; sim_yield(1); return 0; }
int sim_pthread_rwlock_unlock(void *m){ return unlock_any(m); }
int sim_pthread_once(pthread_once_t *o,void(*f)(void)){
  sim_yield(1);
  struct smx *m=mfind(o);
  if(*(volatile int*)o==2) return 0;
  lock_any(o,0,0); m=mfind(o); (void)m;
  if(*(volatile int*)o!=2){ f(); *(volatile int*)o=2; }
  unlock_any(o); return 0;
}
int sim_mtx_lock(void *m){ return lock_any(m,0,0); }
int sim_mtx_unlock(void *m){ return unlock_any(m); }
int sim_sched_yield(void){ if(self&&self->inlib&&!solo){ self->opsteps+=1000; sim_yield(1); int c=-1; for(int i=1;i<P.nth;i++){int u=(self->id+i)%P.nth; if(runnable(u)){c=u;break;}} if(c>=0){ retstk[retn<60?retn:59]=self->id; retcnt[retn<60?retn:59]=1; if(retn<60) retn++; give(c);} } return 0; }
int sim_usleep(unsigned u){ (void)u; return sim_sched_yield(); }
int sim_nanosleep(void*a,void*b){ (void)a;(void)b; return sim_sched_yield(); }

/* ------------------------------------------------ fault decisions */
static const int errs[K_N][4]={
 [K_MMAP_ANON]={ENOMEM,EAGAIN,ENOMEM,EPERM},[K_MMAP_RWX]={ENOMEM,EACCES,EPERM,EAGAIN},[K_MMAP_FILEX]={ENOMEM,EPERM,EACCES,ENFILE},
 [K_MMAP_FILE]={ENOMEM,EAGAIN,ENFILE,ENOMEM},[K_MUNMAP]={ENOMEM,ENOMEM,ENOMEM,ENOMEM},[K_OPEN]={EMFILE,ENFILE,EACCES,EINTR},
 [K_OPENTMP]={EMFILE,ENOSPC,EOPNOTSUPP,ENFILE},[K_MEMFD]={EMFILE,ENFILE,ENOMEM,ENOSYS},[K_MKTEMP]={EMFILE,ENOSPC,EEXIST,EACCES},
 [K_WRITE]={ENOSPC,EIO,-1,EDQUOT},[K_PREAD]={EIO,-1,EIO,EINTR},[K_FTRUNC]={EIO,EINTR,EIO,EIO},[K_FOPEN]={EMFILE,ENFILE,ENOMEM,EACCES},[K_GETS]={EIO,EIO,EIO,EIO},
 [K_MALLOC]={ENOMEM,ENOMEM,ENOMEM,ENOMEM},[K_STATFS]={ENOSYS,EACCES,EIO,ENOENT},[K_SETMNT]={EMFILE,ENFILE,ENOMEM,EACCES},
 [K_MPROTECT]={ENOMEM,EACCES,ENOMEM,EACCES},[K_FALLOC]={ENOSPC,EOPNOTSUPP,EIO,EINTR},[K_ACCESS]={EIO,EACCES,ELOOP,EACCES},[K_CLOSE]={EIO,EINTR,EIO,EINTR}};
static int isret; 
int fault(int kind){
  struct thr *t=self;
  if(!t||!t->inlib||t->op<0) return 0;
  int nth=++t->fcount[kind], e=0;
  if(P.live){
    if(P.fltmode&&(P.fltmask>>kind&1)&&S->nflt<MAXFLT){
      if(P.fltmode==1){ if(rn(&lrng,1000)<(u32)P.fltrate) e=errs[kind][rn(&lrng,4)]; }
      else if(P.fltmode==2){ /* exactly one, at the n-th eligible call of the run */
        if(P.fltrate>0&&--P.fltrate==0) e=errs[kind][rn(&lrng,4)]; }
      if(e){ struct flt *f=&S->flt[S->nflt++]; f->op=t->op; f->kind=kind; f->nth=nth; f->err=e; f->iter=t->iter; }
    }
    if(!e) for(int i=0;i<P.nflt;i++) if(P.flt[i].op==t->op&&P.flt[i].kind==kind&&(P.flt[i].nth==nth||P.flt[i].nth==0)&&(!P.flt[i].iter||P.flt[i].iter==t->iter)){ e=P.flt[i].err; break; }
  } else for(int i=0;i<P.nflt;i++) if(P.flt[i].op==t->op&&P.flt[i].kind==kind&&(P.flt[i].nth==nth||P.flt[i].nth==0)&&(!P.flt[i].iter||P.flt[i].iter==t->iter)){ e=P.flt[i].err; break; }
  (void)isret;
  if(e){ S->fired[kind]++; logev("FAULT kind %d nth %d errno %d",kind,nth,e); }
  return e;
}

/* ------------------------------------------------ -fsanitize=thread call-outs */
static inline __attribute__((always_inline)) void acc(void *a){
  struct thr *t=self;
  if(!t||!t->inlib) return;
  if((char*)a>=t->slo&&(char*)a<t->shi) return;
  sim_yield(0);
}
void __tsan_init(void){} void __tsan_func_entry(void*p){(void)p;} void __tsan_func_exit(void){}
void __tsan_vptr_update(void**a,void*b){(void)b;acc(a);} void __tsan_vptr_read(void**a){acc(a);}
#define RW(n) void __tsan_read##n(void*a){acc(a);} void __tsan_write##n(void*a){acc(a);} \
 void __tsan_unaligned_read##n(void*a){acc(a);} void __tsan_unaligned_write##n(void*a){acc(a);} \
 void __tsan_volatile_read##n(void*a){acc(a);} void __tsan_volatile_write##n(void*a){acc(a);} \
 void __tsan_unaligned_volatile_read##n(void*a){acc(a);} void __tsan_unaligned_volatile_write##n(void*a){acc(a);} \
 void __tsan_read_write##n(void*a){acc(a);} void __tsan_unaligned_read_write##n(void*a){acc(a);} \
 void __tsan_read##n##_pc(void*a,void*p){(void)p;acc(a);} void __tsan_write##n##_pc(void*a,void*p){(void)p;acc(a);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*a,unsigned long n){(void)n;acc(a);} void __tsan_write_range(void*a,unsigned long n){(void)n;acc(a);}
void *__tsan_memcpy(void*d,const void*s,size_t n){acc(d);return memcpy(d,s,n);}
void *__tsan_memmove(void*d,const void*s,size_t n){acc(d);return memmove(d,s,n);}
void *__tsan_memset(void*d,int c,size_t n){acc(d);return memset(d,c,n);}
#define AT(b,T_) \
T_ __tsan_atomic##b##_load(const volatile T_*a,int m){(void)m;sim_yield(1);return __atomic_load_n(a,5);} \
void __tsan_atomic##b##_store(volatile T_*a,T_ v,int m){(void)m;sim_yield(1);__atomic_store_n(a,v,5);} \
T_ __tsan_atomic##b##_exchange(volatile T_*a,T_ v,int m){(void)m;sim_yield(1);return __atomic_exchange_n(a,v,5);} \
T_ __tsan_atomic##b##_fetch_add(volatile T_*a,T_ v,int m){(void)m;sim_yield(1);return __atomic_fetch_add(a,v,5);} \
T_ __tsan_atomic##b##_fetch_sub(volatile T_*a,T_ v,int m){(void)m;sim_yield(1);return __atomic_fetch_sub(a,v,5);} \
T_ __tsan_atomic##b##_fetch_and(volatile T_*a,T_ v,int m){(void)m;sim_yield(1);return __atomic_fetch_and(a,v,5);} \
T_ __tsan_atomic##b##_fetch_or(volatile T_*a,T_ v,int m){(void)m;sim_yield(1);return __atomic_fetch_or(a,v,5);} \
T_ __tsan_atomic##b##_fetch_xor(volatile T_*a,T_ v,int m){(void)m;sim_yield(1);return __atomic_fetch_xor(a,v,5);} \
T_ __tsan_atomic##b##_fetch_nand(volatile T_*a,T_ v,int m){(void)m;sim_yield(1);return __atomic_fetch_nand(a,v,5);} \
int __tsan_atomic##b##_compare_exchange_strong(volatile T_*a,T_*c,T_ v,int m,int f){(void)m;(void)f;sim_yield(1);return __atomic_compare_exchange_n(a,c,v,0,5,5);} \
int __tsan_atomic##b##_compare_exchange_weak(volatile T_*a,T_*c,T_ v,int m,int f){(void)m;(void)f;sim_yield(1);return __atomic_compare_exchange_n(a,c,v,1,5,5);} \
T_ __tsan_atomic##b##_compare_exchange_val(volatile T_*a,T_ c,T_ v,int m,int f){(void)m;(void)f;sim_yield(1);__atomic_compare_exchange_n(a,&c,v,0,5,5);return c;}
AT(8,u8) AT(16,u16) AT(32,u32) AT(64,u64)
void __tsan_atomic_thread_fence(int m){(void)m;sim_yield(1);} void __tsan_atomic_signal_fence(int m){(void)m;}
