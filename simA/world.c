/* operations, oracles */
#include "sim.h"
#include <ffi.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

extern void sched_init(void), locks_reset(void), thread_exit_sched(void), thread_enter_sched(void), thread_kick(int);

/* ---------------- closures under test ---------------- */
#define NKIND 6
struct ud { u64 magic; int slot, gen, h, kind; };
struct slot {
  int state;            /* 0 empty 1 allocated 2 prepared */
  int app;              /* application-managed */
  int busy, pins;       /* an operation in flight / calls in flight */
  char *p; void *code; size_t size; int gen; int kind, h; struct ud *ud; ffi_cif *cif;
  char *snap; int snapok; int pages; void *xbase; int src; int order;
};
static struct slot SL[NSLOT];
static struct ud uds[8192]; static int nuds;
static ffi_cif cifs[NKIND][2];
static int allocseq, live, inflight, peak; static size_t livebytes, peakbytes; static int settled_src, anyalloc_ok, first_done;

static u64 opclock; /* number of op starts+ends */

struct s16 { long a; double b; }; struct s40 { long v[5]; }; 
static ffi_type *s16_el[]={&ffi_type_sint64,&ffi_type_double,0}, *s40_el[]={&ffi_type_sint64,&ffi_type_sint64,&ffi_type_sint64,&ffi_type_sint64,&ffi_type_sint64,0};
static ffi_type t_s16={0,0,FFI_TYPE_STRUCT,s16_el}, t_s40={0,0,FFI_TYPE_STRUCT,s40_el};
static ffi_type *a0[]={&ffi_type_sint64,&ffi_type_sint32,&ffi_type_pointer}, *a1[]={&ffi_type_double,&ffi_type_sint64,&ffi_type_float}, *a2[]={&ffi_type_sint64,&ffi_type_double,&ffi_type_sint32,&ffi_type_sint64,&ffi_type_double},
  *a3[]={&t_s40,&ffi_type_sint64,&t_s16}, *a4[]={&ffi_type_sint64,&ffi_type_double,&ffi_type_sint32};
static void mkcifs(void){
  for(int d=0;d<2;d++){
    int r=0;
    r|=ffi_prep_cif(&cifs[0][d],FFI_UNIX64,3,&ffi_type_sint64,a0);
    r|=ffi_prep_cif(&cifs[1][d],FFI_UNIX64,3,&ffi_type_double,a1);
    r|=ffi_prep_cif(&cifs[2][d],FFI_EFI64,5,&ffi_type_sint64,a2);
    r|=ffi_prep_cif(&cifs[3][d],FFI_UNIX64,3,&t_s40,a3);
    r|=ffi_prep_cif(&cifs[4][d],FFI_UNIX64,3,&ffi_type_sint64,a4);  /* raw */
    r|=ffi_prep_cif(&cifs[5][d],FFI_GNUW64,5,&ffi_type_sint64,a2);
    if(r){ fprintf(stderr,"prep_cif failed\n"); _exit(2); }
  } }
/* one call in progress per nesting level and thread */
struct callrec { int slot; u64 nonce; struct ud *ud; ffi_cif *cif; int h; int hits; int inner; u64 res; };
static __thread struct callrec *cr;
static int do_alloc(int sl,size_t size); static int do_prep(int sl,int kind,int h); static int do_call(int sl,int inner); static void do_free(int sl);
#define LIB(x) do{ struct thr*__t=self; int __s=__t?__t->inlib:0; if(__t) __t->inlib=1; x; if(__t) __t->inlib=__s; }while(0)

static u64 nonce_ctr;
static double dv(u64 n,int i){ return (double)(mix(n+i*77)>>20)*0.5; }
static void handler_body(int h,ffi_cif*cif,void*ret,void**av,ffi_raw*raw,void*udp){
  struct thr*t=self; int sv=t?t->inlib:0; if(t) t->inlib=0;
  struct callrec *c=cr;
  if(!c) violate(V_DISPATCH,"handler %d ran without a call in progress",h);
  struct ud*u=udp;
  if(u!=c->ud) violate(V_DISPATCH,"handler received user data %s (slot %d gen %d expected)",(u>=uds&&u<uds+nuds)?"of another closure":"that is garbage",c->slot,c->ud->gen);
  if(h!=c->h) violate(V_DISPATCH,"closure of slot %d ran handler %d instead of %d",c->slot,h,c->h);
  if(cif!=c->cif) violate(V_DISPATCH,"handler received another interface");
  if(++c->hits>1) violate(V_DISPATCH,"handler ran %d times for one call",c->hits);
  u64 n=c->nonce; int ok=1;
  switch(c->ud->kind){
   case 0: ok=*(long*)av[0]==(long)n&&*(int*)av[1]==(int)(n>>13)&&*(void**)av[2]==(void*)(n*3); break;
   case 1: ok=*(double*)av[0]==dv(n,1)&&*(long*)av[1]==(long)n&&*(float*)av[2]==(float)(int)(n&0xffff); break;
   case 2: case 5: ok=*(long*)av[0]==(long)n&&*(double*)av[1]==dv(n,2)&&*(int*)av[2]==(int)(n>>7)&&*(long*)av[3]==(long)(n^5)&&*(double*)av[4]==dv(n,4); break;
   case 3: { struct s40*s=av[0]; for(int i=0;i<5;i++) ok&=s->v[i]==(long)(n+i); ok&=*(long*)av[1]==(long)n; struct s16*q=av[2]; ok&=q->a==(long)(n^9)&&q->b==dv(n,3); break; }
   case 4: { char*r=(char*)raw; ok=*(long*)r==(long)n&&*(double*)(r+8)==dv(n,2)&&*(int*)(r+16)==(int)(n>>7); break; }
  }
  if(!ok) violate(V_DISPATCH,"handler of slot %d (kind %d) received wrong argument values",c->slot,c->ud->kind);
  if(c->inner>=0){ /* nested work inside the handler */
    struct callrec *sv2=cr; int in=c->inner; c->inner=-1;
    if(SL[in].state==0&&!SL[in].busy&&!SL[in].app){ if(do_alloc(in,sizeof(ffi_closure)+8)){ do_prep(in,(int)(n%4)==3?5:(int)(n%4),(int)((n>>5)%4)); do_call(in,-1); if(n&64) do_free(in); } }
    cr=sv2; if(cr!=c) violate(V_DISPATCH,"lost call record"); }
  if(t) t->inlib=1; sim_yield(0); if(t) t->inlib=0;
  u64 res=mix(n^0x55); c->res=res;
  switch(c->ud->kind){ case 1: *(double*)ret=dv(res,0); break; case 3: { struct s40*s=ret; for(int i=0;i<5;i++) s->v[i]=(long)(res+i); break; } default: *(u64*)ret=res; }
  if(t) t->inlib=sv;
}
#define H(n) static void h##n(ffi_cif*c,void*r,void**a,void*u){ handler_body(n,c,r,a,0,u); } static void rh##n(ffi_cif*c,void*r,ffi_raw*a,void*u){ handler_body(n,c,r,0,a,u); }
H(0) H(1) H(2) H(3)
static void (*HF[4])(ffi_cif*,void*,void**,void*)={h0,h1,h2,h3};
static void (*RHF[4])(ffi_cif*,void*,ffi_raw*,void*)={rh0,rh1,rh2,rh3};

static void snap(struct slot*s){ if(s->size<=1u<<16){ if(!s->snap) s->snap=malloc(s->size); memcpy(s->snap,s->p,s->size); s->snapok=1; } }
static void unsnap(struct slot*s){ free(s->snap); s->snap=0; s->snapok=0; }
static void checkmem(int i){ struct slot*s=&SL[i];
  if(!s->state||s->busy) return;
  if(!s->app&&!mem_rw(s->p,s->size)) violate(V_MEMPROT,"memory of live closure %d is no longer mapped read-write",i);
  if(s->snapok&&memcmp(s->snap,s->p,s->size)){ size_t k=0; while(s->snap[k]==s->p[k]) k++; violate(s->app?V_APP:V_CONTENT,"byte %zu of %zu of live closure %d (gen %d%s) changed",k,s->size,i,s->gen,s->app?", application memory":""); } }
static void checkall(void){ for(int i=0;i<NSLOT;i++) checkmem(i); }

static void after_return(void){ /* global checks when no thread is inside the library */
  for(int i=0;i<P.nth;i++) if(&T[i]!=self&&T[i].midop) return;
  char why[256]; int v=os_hygiene(why); if(v) violate(v,"%s",why);
}
static int do_alloc(int sl,size_t size){
  struct slot*s=&SL[sl]; void *code=(void*)0x1357; char*p;
  s->busy=1; inflight++; livebytes+=size<(1u<<27)?size:0; if(livebytes>peakbytes) peakbytes=livebytes; livebytes-=size<(1u<<27)?size:0;
  int tot=live+inflight; if(tot>peak) peak=tot; 
  int held0=self?self->held:0; u32 f0=0; for(int i=0;i<K_N;i++) f0+=S->fired[i];
  int clean=(f0==0&&!env_changed&&!caps_limited());
  LIB(p=ffi_closure_alloc(size,&code));
  inflight--; s->busy=0;
  if(self&&self->held!=held0) violate(V_LOCKHELD,"ffi_closure_alloc returned holding %d lock(s)",self->held-held0);
  hashev(100,sl,(u64)p); 
  u32 f1=0; for(int i=0;i<K_N;i++) f1+=S->fired[i];
  logev("alloc slot %d size %zu -> %p code %p",sl,size,p,code);
  if(!p){
    S->nullalloc++;
    if(size>(1u<<27)) return 0;
    if(clean&&!env_changed&&!caps_limited()&&f1==0&&ladder_ok(1)) violate(V_LADDER,"allocation failed although the environment permits it (own code %d, rwx %d, file location %d)",lib_usable(),P.env.rwx==RWX_OK,ladder_first());
    return 0; }
  S->okalloc++; anyalloc_ok=1;
  if((u64)p&7) violate(V_ALIGN,"closure at %p is not aligned",p);
  if(!mem_rw(p,size)) violate(V_MEMPROT,"memory of new closure (%zu bytes) is not all readable and writable",size);
  for(int i=0;i<NSLOT;i++) if(i!=sl&&SL[i].state){ struct slot*o=&SL[i];
    if(p<o->p+o->size&&o->p<p+size) violate(V_OVERLAP,"new closure overlaps live closure %d",i);
    if(o->code==code) violate(V_CODEDUP,"new closure has the code address of live closure %d",i); }
  int cp=code_prot(code); int src=code_src(code);
  if(cp>=0){ if(!(cp&PROT_EXEC)) violate(V_CODEPROT,"code address %p is not executable (prot %d)",code,cp);
    if((cp&PROT_WRITE)&&wx_forbidden()&&!any_policy_fault()&&!env_changed&&f1==0) violate(V_WXCODE,"code address is writable although policy forbids it"); 
    if((cp&PROT_WRITE)&&(src==SRC_STATIC_LIB||src==SRC_STATIC_TMP)) violate(V_WXCODE,"static trampoline page is writable"); }
  if(is_poison_page(code)) violate(V_FOREIGNCODE,"code address lies in a file that is not the loaded library (lib state %d)",P.env.lib);
  S->src|=src;
  { int st=(src==SRC_STATIC_LIB||src==SRC_STATIC_TMP)?1:2;
    if(!settled_src) settled_src=st; else if(settled_src!=st) violate(V_MIXED,"closures provided by different methods in one process");
    int fd=data_shared_file(p); if(fd) S->fork_shared|=2; }
  { int loc=code_loc(code); static const int dummy=0; (void)dummy;
    if(loc>=0&&clean&&!env_changed&&f1==0&&!first_done){ int want=ladder_first(); if(want>=0&&loc!=want) violate(V_ORDER,"file location %d used, documented order gives %d",loc,want); } }
  first_done=1;
  char why[256]; if(file_holes(why)) violate(V_HOLE,"%s",why);
  s->state=1; s->p=p; s->code=code; s->size=size; s->gen++; s->app=0; s->src=src; s->order=++allocseq; s->kind=-1; unsnap(s);
  live++; livebytes+=size; if(livebytes>peakbytes) peakbytes=livebytes; if((u32)live>S->peaklive) S->peaklive=live;
  /* the owner fills what lies beyond the closure proper */
  if(size>sizeof(ffi_closure)&&size<=(1u<<16)) for(size_t k=sizeof(ffi_closure);k<size;k++) p[k]=(char)mix(sl*1000+s->gen+k);
  else if(size>(1u<<16)){ for(size_t k=sizeof(ffi_closure);k<size;k+=509) p[k]=(char)(k+sl); p[size-1]=1; }
  snap(s);
  return 1; }
static int do_prep(int sl,int kind,int h){
  struct slot*s=&SL[sl]; if(s->state==0||s->busy||s->pins) return 0;
  if(kind==4&&s->size<sizeof(ffi_raw_closure)) kind=0;
  checkmem(sl);
  s->busy=1; struct ud*u; do u=&uds[nuds++%8192]; while(u->magic&&SL[u->slot].state&&SL[u->slot].ud==u); /* not one that a prepared closure still has */ u->magic=0xfeed; u->slot=sl; u->gen=s->gen; u->h=h; u->kind=kind; 
  ffi_cif*c=&cifs[kind][nuds&1]; int held0=self?self->held:0; ffi_status st;
  logev("prep slot %d kind %d handler %d",sl,kind,h);
  size_t keep=kind==4?sizeof(ffi_raw_closure):sizeof(ffi_closure);
  int old=s->code==s->p&&(nuds&2); /* the older entry points, for memory that is executable where it is writable */
  if(kind==4&&old) LIB(st=ffi_prep_raw_closure((ffi_raw_closure*)s->p,c,RHF[h],u));
  else if(old) LIB(st=ffi_prep_closure((ffi_closure*)s->p,c,HF[h],u));
  else if(kind==4) LIB(st=ffi_prep_raw_closure_loc((ffi_raw_closure*)s->p,c,RHF[h],u,s->code));
  else LIB(st=ffi_prep_closure_loc((ffi_closure*)s->p,c,HF[h],u,s->code));
  s->busy=0;
  if(self&&self->held!=held0) violate(V_LOCKHELD,"ffi_prep_closure_loc returned holding a lock");
  if(st!=FFI_OK) violate(V_PREP,"ffi_prep_closure_loc status %d",st);
  if(s->snapok&&s->size>keep&&memcmp(s->snap+keep,s->p+keep,s->size-keep)) violate(s->app?V_APP:V_CONTENT,"preparation changed the owner's bytes");
  s->state=2; s->kind=kind; s->h=h; s->ud=u; s->cif=c; snap(s); hashev(101,sl,kind*8+h);
  return 1; }
typedef long (*f0t)(long,int,void*); typedef double (*f1t)(double,long,float); typedef long (__attribute__((ms_abi)) *f2t)(long,double,int,long,double);
typedef struct s40 (*f3t)(struct s40,long,struct s16); typedef long (*f4t)(long,double,int);
static int do_call(int sl,int inner){
  struct slot*s=&SL[sl]; if(s->state!=2||s->busy) return 0;
  u64 n=mix(++nonce_ctr*0x51ull+sl); struct callrec c={sl,n,s->ud,s->cif,s->h,0,inner,0}, *sv=cr; int bad=0; int kind=s->kind; 
  if(is_poison_page(s->code)) violate(V_FOREIGNCODE,"code of live closure comes from a foreign file");
  int cp=code_prot(s->code); if(cp>=0&&!(cp&PROT_EXEC)) violate(s->app?V_APP:V_CODEPROT,"code address of live closure %d is not executable any more (prot %d)",sl,cp);
  void*code=s->code; s->pins++; cr=&c; int held0=self?self->held:0;
  logev("call slot %d",sl);
  switch(kind){
   case 0: { long r; LIB(r=((f0t)code)((long)n,(int)(n>>13),(void*)(n*3))); bad=c.hits!=1||(u64)r!=c.res; break; }
   case 1: { double r; LIB(r=((f1t)code)(dv(n,1),(long)n,(float)(int)(n&0xffff))); bad=c.hits!=1||r!=dv(c.res,0); break; }
   case 2: case 5: { long r; LIB(r=((f2t)code)((long)n,dv(n,2),(int)(n>>7),(long)(n^5),dv(n,4))); bad=c.hits!=1||(u64)r!=c.res; break; }
   case 3: { struct s40 a,r; struct s16 q={(long)(n^9),dv(n,3)}; for(int i=0;i<5;i++) a.v[i]=(long)(n+i); LIB(r=((f3t)code)(a,(long)n,q)); bad=c.hits!=1; for(int i=0;i<5;i++) bad|=r.v[i]!=(long)(c.res+i); break; }
   case 4: { long r; LIB(r=((f4t)code)((long)n,dv(n,2),(int)(n>>7))); bad=c.hits!=1||(u64)r!=c.res; break; }
  }
  cr=sv; s->pins--;
  if(c.hits!=1) violate(V_DISPATCH,"handler ran %d times for one call of slot %d",c.hits,sl);
  if(bad) violate(V_DISPATCH,"caller of slot %d received a wrong result",sl);
  if(self&&self->held!=held0) violate(V_LOCKHELD,"call returned holding a lock");
  S->calls++; hashev(102,sl,n);
  return 1; }
static void do_free(int sl){
  struct slot*s=&SL[sl]; if(s->state==0||s->busy||s->pins||s->app) return;
  checkmem(sl);
  void*p=s->p; s->busy=1; s->state=0; unsnap(s); int held0=self?self->held:0; logev("free slot %d",sl);
  inflight++; live--; livebytes-=s->size;   /* its trampoline counts as in use until the release returned */
  LIB(ffi_closure_free(p));
  inflight--;
  s->busy=0;
  if(self&&self->held!=held0) violate(V_LOCKHELD,"ffi_closure_free returned holding a lock");
  hashev(103,sl,0); }
static int slot_ok(int i){ return i>=0&&i<NSLOT&&!SL[i].busy&&!SL[i].pins; }

static void growth_check(struct foot a,struct foot b,const char*what,int slack){
  /* memory that the system refuses to take back is not the library's growth */
  int stuck=S->fired[K_MUNMAP]!=0;
  if(b.fds+b.streams>a.fds+a.streams&&b.fds+b.streams>3) /* a search position (stream) and the file in use may be kept */ violate(V_LEAKFD,"%s: descriptors grew from %d to %d",what,a.fds+a.streams,b.fds+b.streams);
  if(b.blocks>a.blocks+2) violate(V_GROW,"%s: heap blocks grew from %d to %d",what,a.blocks,b.blocks);
  if(!stuck&&b.pages>a.pages+2*(P.env.page>>12)+slack) violate(V_GROW,"%s: mapped pages grew from %d to %d",what,a.pages,b.pages); }
static void bound_check(void){
  struct foot f=footprint(); int pk=peak<1?1:peak; int tabs=(pk+ntramp_guess-1)/ntramp_guess;
  int stuck=S->fired[K_MUNMAP]!=0;
  if(!stuck&&f.xpages>tabs) violate(V_GROW,"%d trampoline pages mapped, %d closures at most were ever live (%d expected)",f.xpages,peak,tabs);
  if(f.blocks>2*tabs+8) violate(V_GROW,"%d heap blocks for at most %d closures",f.blocks,peak);
  long pgb=P.env.page; long maxp=(long)(8*(peakbytes+80l*pk)/pgb+24+ (peakbytes>(1u<<20)?600*4096/pgb:0))*(pgb>>12)+tabs*2;
  if(!stuck&&f.pages>maxp) violate(V_GROW,"%d pages mapped, at most %zu bytes were ever requested (bound %ld)",f.pages,peakbytes,maxp);
}
static size_t loop_size(int c,int i){ return c>0?(size_t)c: sizeof(ffi_closure)+(size_t)(mix(i)%5)*16; }

static int exec_op(int idx,int child);
static void epilogue(void);

/* ---------------- fork section ---------------- */
static void fork_section(int idx){
  /* executes ops idx+1 .. until JOIN of this thread, alternating between parent and child in list order */
  int pc[2],cp[2]; struct thr*t=self; int th=t->id;
  for(int i=0;i<P.nth;i++) if(i!=th&&(T[i].midop)) { S->opskip++; return; }
  solo=1; if((S->fork_shared&2)||backing_held()) S->fork_shared|=1; /* a backing file, mapped or not, is shared with the child */
  if(pipe(pc)||pipe(cp)) abort();
  /* move the pipes out of the way of the simulated descriptors */
  for(int i=0;i<2;i++){ int n=fcntl(pc[i],F_DUPFD,150); close(pc[i]); pc[i]=n; n=fcntl(cp[i],F_DUPFD,150); close(cp[i]); cp[i]=n; }
  S->forks++; logev("fork");
  pid_t pid=fork();
  if(pid<0) _exit(2);
  if(pid&&S->nforkpid<16) S->forkpid[S->nforkpid++]=pid;
  int child=pid==0; nforked=child; char b='x';
  if(child){ close(pc[1]); close(cp[0]); } else { close(pc[0]); close(cp[1]); }
  int rd=child?pc[0]:cp[0], wr=child?cp[1]:pc[1];
  int i; int turn_child=0;
  checkall();
  for(i=idx+1;i<P.nops;i++){
    if(P.ops[i].th!=th) continue;
    if(P.ops[i].kind==OP_JOIN) break;
    if(P.ops[i].kind==OP_FORK) continue;
    int w=P.ops[i].who!=0;
    if(w!=turn_child){ /* hand over */
      if(child==turn_child){ if(write(wr,&b,1)!=1) _exit(78); } else { if(read(rd,&b,1)!=1){ if(S->viol) _exit(77); violate(V_FORK,"the other process died"); } }
      turn_child=w; }
    if(child==w){ t->op=i; t->k=0; t->opsteps=0; t->iter=1; memset(t->fcount,0,sizeof t->fcount); t->midop=1; exec_op(i,1); t->midop=0; checkall(); }
  }
  /* final part: the child checks everything it has, then the parent */
  if(child){
    if(!turn_child){ if(read(rd,&b,1)!=1) _exit(77); }
    t->op=P.nops; 
    checkall(); for(int k=0;k<NSLOT;k++) if(SL[k].state==2) do_call(k,-1);
    for(int k=0;k<NSLOT;k++) if(SL[k].state&&!SL[k].app) do_free(k);
    if(write(wr,&b,1)!=1) _exit(78);
    _exit(0); }
  if(!turn_child){ if(write(wr,&b,1)!=1) _exit(77); }
  if(read(rd,&b,1)!=1){ if(S->viol) _exit(77); violate(V_FORK,"child died"); }
  int st; waitpid(pid,&st,0); for(int k=0;k<S->nforkpid;k++) if(S->forkpid[k]==pid) S->forkpid[k]=0; if(S->viol) _exit(77);
  if(st) violate(V_FORK,"child ended with status %x",st);
  close(rd); close(wr); solo=0;
  checkall();
  for(int k=0;k<NSLOT;k++) if(SL[k].state==2&&!SL[k].busy) do_call(k,-1);
  t->idx=i;  /* continue at JOIN */
}

static int exec_op(int idx,int infork){
  struct op*o=&P.ops[idx]; struct slot*s=(o->a>=0&&o->a<NSLOT)?&SL[o->a]:0; int done=0;
  switch(o->kind){
   case OP_ALLOC: if(slot_ok(o->a)&&s->state==0) { do_alloc(o->a,o->b?(size_t)o->b:sizeof(ffi_closure)); done=1; } break;
   case OP_PREP: if(slot_ok(o->a)&&s->state) done=do_prep(o->a,o->b%NKIND,o->c&3); break;
   case OP_CALL: if(s&&s->state==2&&!s->busy) done=do_call(o->a,-1); break;
   case OP_NEST: if(s&&s->state==2&&!s->busy&&o->b>=0&&o->b<NSLOT) done=do_call(o->a,o->b); break;
   case OP_FREE: if(slot_ok(o->a)&&s->state&&!s->app){ do_free(o->a); done=1; } break;
   case OP_CHECK: if(s){ checkmem(o->a); done=1; } break;
   case OP_APPNEW: if(slot_ok(o->a)&&s->state==0){
      void*x=0; char*p; int pages=P.env.page>>12; if(o->b==4){ p=app_dual(pages,&x); } else p=x=app_map(pages,o->b);
      if(p){ int off=o->c?(P.env.page-64)&~15:0; s->app=1; s->state=1; s->p=p+off; s->code=(char*)x+off; s->size=sizeof(ffi_closure); s->pages=pages; s->xbase=p; s->gen++; s->src=0; unsnap(s); memset(s->p,0x77,s->size); snap(s); logev("app memory slot %d at %p",o->a,p); done=1; } } break;
   case OP_APPFREE: if(slot_ok(o->a)&&s->state&&s->app){ checkmem(o->a); s->state=0; unsnap(s); if(s->xbase==(s->code-(s->p-(char*)s->xbase))) app_unmap(s->xbase,s->pages); s->app=0; done=1; } break;
   case OP_FORK: if(!infork){ fork_section(idx); done=1; } break;
   case OP_JOIN: done=1; break;
   case OP_ENV: env_set(o->a,o->b); done=1; break;
   case OP_FD: { static int afd[8]; int k=o->a&7; if(!afd[k]){ afd[k]=app_fd_open()+1; } else { if(!app_fd_ok(afd[k]-1)) violate(V_FCLOSE,"application descriptor was closed"); app_fd_close(afd[k]-1); afd[k]=0; } done=1; break; }
   case OP_HUGE: { static const size_t hs[]={(size_t)-1,(size_t)-64,(size_t)-128,(size_t)1<<63,((size_t)1<<63)-1,(size_t)-4096,(size_t)1<<46}; int k=o->b%7; if(slot_ok(o->a)&&s->state==0){ if(do_alloc(o->a,hs[k])) violate(V_MEMPROT,"allocation of an impossible size succeeded"); done=1; } break; }
   case OP_MULTI: /* b closures at once into free slots, prepared and called */
     { int cnt=o->b; for(int k=0;k<NSLOT&&cnt>0;k++){ if(SL[k].state==0&&slot_ok(k)){ if(!do_alloc(k,sizeof(ffi_closure)+(o->c?k%3*16:0))) break; do_prep(k,k%4,k&3); cnt--; } } for(int k=0;k<NSLOT;k+=7) if(SL[k].state==2&&!SL[k].busy) do_call(k,-1); done=1; } break;
   case OP_DRAIN: /* release every b-th closure */
     { int b=o->b<1?1:o->b; for(int k=o->c%b;k<NSLOT;k+=b) if(SL[k].state&&slot_ok(k)&&!SL[k].app) do_free(k); done=1; } break;
   case OP_LOOP: {
     int count=o->a, pat=o->b; struct foot w; int have=0; u64 y0=0,k0=0; int tmp[16]; int ntmp=0; memset(&w,0,sizeof w); u64 s0=S->sysc; int i, mid=count/2, cut=0;
     for(i=0;i<count&&!cut;i++){ int fails=0;
       if(self){ memset(self->fcount,0,sizeof self->fcount); self->iter++; }
       if(self) self->opsteps=0;
       if(!have&&i+4<mid&&S->sysc-s0>120000) mid=i+4;   /* a cycle that takes very many system calls is repeated less often */
       if(i==(mid>4?mid-4:0)){ y0=S->yields; k0=self->k; }     /* nobody else may move from a little before the cycle that is measured */
       int want=pat==0?1:pat==1?4:pat==2?9:pat==3?1:3; ntmp=0;
       for(int k=0;k<NSLOT&&ntmp<want;k++) if(SL[k].state==0&&slot_ok(k)){ size_t z=pat==3?(size_t)(2200000+(mix(i)%3)*100000):loop_size(o->c,pat==4?i*7+ntmp:0); if(do_alloc(k,z)){ tmp[ntmp++]=k; if(i%16==0){ do_prep(k,i/16%4,i&3); do_call(k,-1);} } else if(pat!=4||++fails>3) break; }
       if(pat==2) for(int k=ntmp-1;k>=0;k--) do_free(tmp[k]); else for(int k=0;k<ntmp;k++) do_free(tmp[(k*3+i)%ntmp==k?k:k]);
       if(i==mid){ w=footprint(); have=1; }
       if(S->sysc-s0>240000) cut=1;
     }
     if(have&&S->yields-y0==self->k-k0 /* no other thread moved */&&(i-mid>=50||(pat==3&&i-mid>=10))&&pat!=4) growth_check(w,footprint(),"repeated cycle",pat==3?1900:0); /* megabyte requests of three sizes: up to three free segments may pile up before one is reused */
     done=1; break; }
   case OP_PAGE: { /* release the first b closures (0: all) whose code lies on the a-th code page */
     char*pgs[64]; int np=0; for(int k=0;k<NSLOT;k++) if(SL[k].state&&!SL[k].app){ char*q=(char*)((u64)SL[k].code&~4095ull); int j=0; while(j<np&&pgs[j]!=q) j++; if(j==np&&np<64) pgs[np++]=q; }
     if(!np) break;
     char*q=pgs[o->a%np]; int cnt=o->b?o->b:1<<30, skip=o->c; for(int k=0;k<NSLOT&&cnt>0;k++) if(SL[k].state&&!SL[k].app&&slot_ok(k)&&(char*)((u64)SL[k].code&~4095ull)==q){ if(o->b&&skip-->0) continue; if(self) self->opsteps=0; do_free(k); cnt--; }
     done=1; break; }
   case OP_RETRY: { /* the same request again and again, under the same refusals */
     if(!s||s->state||!slot_ok(o->a)) break;
     struct foot w; memset(&w,0,sizeof w); u64 y0=0,k0=0; int mid=o->b/2, fired0=S->fired[K_MUNMAP];
     u64 s0=S->sysc; int cut=0;
     for(int i=0;i<o->b&&!cut;i++){ if(self){ memset(self->fcount,0,sizeof self->fcount); self->iter++; self->opsteps=0; } if(S->sysc-s0>240000) cut=1;
       if(i==(mid>4?mid-4:0)){ y0=S->yields; k0=self->k; }  /* nobody else may move from a little before the cycle that is measured */
       if(do_alloc(o->a,o->c?(size_t)o->c:sizeof(ffi_closure))) do_free(o->a);
       if(i==mid) w=footprint(); }
     if(o->b>=16&&!cut&&S->yields-y0==self->k-k0&&!fired0) growth_check(w,footprint(),"repeated request",o->c>1000000?1900:0);
     done=1; break; }
  }
  if(done) S->opdone++; else S->opskip++;
  return done; }

/* ---------------- threads ---------------- */
static int next_op_of(int th,int from){ for(int i=from;i<P.nops;i++) if(P.ops[i].th==th) return i; return -1; }
int next_global_thread(void){
  int best=-1,bi=1<<30; for(int i=0;i<P.nth;i++) if(T[i].state==T_READY){ int n=T[i].midop?T[i].op:T[i].idx; if(n>=0&&n<bi){ bi=n; best=i; } }
  return best; }
static void *thread_main(void*a){
  struct thr*t=a; self=t; 
  pthread_attr_t at; void*sa; size_t sz; pthread_getattr_np(pthread_self(),&at); pthread_attr_getstack(&at,&sa,&sz); pthread_attr_destroy(&at); t->slo=sa; t->shi=(char*)sa+sz;
  stack_t ss; ss.ss_sp=malloc(65536); ss.ss_size=65536; ss.ss_flags=0; sigaltstack(&ss,0);
  thread_enter_sched();
  while(t->idx>=0){
    int i=t->idx; int nx=next_op_of(t->id,i+1); t->idx=nx;
    t->op=i; t->k=0; t->opsteps=0; t->iter=1; memset(t->fcount,0,sizeof t->fcount); t->midop=1; opclock++;
    exec_op(i,0);
    opclock++; t->midop=0; 
    hashev(200,i,t->k);
    after_return();
    op_done_sched();
  }
  t->op=P.nops; thread_exit_sched();
  return 0; }
static void on_sig(int sig,siginfo_t*si,void*uc){
  struct thr*t=self; greg_t rip=((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; (void)rip;
  if(sig==SIGVTALRM||sig==SIGALRM||sig==SIGXCPU){
    /* a run that is slow is not a run that hangs: only a run in which nothing at all was done since the last look (no access to shared memory, no lock, no system call, no finished operation) is stuck; endless activity is caught by the step limit of an operation */
    static unsigned long long last=~0ull; static int same,looks; unsigned long long now=S->yields*3+S->sysc*5+S->opdone*7+S->opskip*11+S->calls*13;
    if(now!=last){ last=now; same=0; } else same++;
    if(same<2){ if(++looks>400){ fprintf(stderr,"run given up after 400 looks\n"); _exit(2); } if(sig==SIGALRM) alarm(20); return; }
    if(!S->viol){ snprintf(S->vmsg,sizeof S->vmsg,"run did not finish within its time limit"); snprintf(S->vsig,sizeof S->vsig,(S->fork_shared&1)?"fork-shared-file-heap":"hang"); S->vop=t?t->op:-1; S->viol=V_HANG; } _exit(77); }
  if(!S->viol){ snprintf(S->vmsg,sizeof S->vmsg,"signal %d (%s) in op %d of thread %d, code=%d",sig,sig==SIGSEGV?"SEGV":sig==SIGBUS?"BUS":sig==SIGILL?"ILL":sig==SIGTRAP?"TRAP":sig==SIGFPE?"FPE":"other",t?t->op:-1,t?t->id:-1,si->si_code);
    snprintf(S->vsig,sizeof S->vsig,"%s",(S->fork_shared&1)?"fork-shared-file-heap":"crash"); S->vop=t?t->op:-1; S->viol=V_CRASH;
    logev("CRASH %s",S->vmsg); }
  _exit(77); }
static void epilogue(void){
  /* quiescence: nothing is injected any more */
  struct thr*t=self; t->op=P.nops; t->k=0; t->opsteps=0; 
  struct env *e=&P.env; P.nflt=0; P.live=0; P.npre=0; solo=1;
  checkall(); bound_check();
  for(int i=0;i<NSLOT;i++) if(SL[i].state==2&&!SL[i].busy) do_call(i,-1);
  int freeslot=-1; for(int i=0;i<NSLOT;i++) if(SL[i].state==0&&!SL[i].busy){ freeslot=i; break; }
  for(int i=0;i<NSLOT;i++) if(SL[i].state&&!SL[i].app&&i!=freeslot){ do_free(i); if(i%8==0) checkall(); }
  checkall();
  struct foot f=footprint();
  if(!S->fired[K_MUNMAP]&&f.xpages>1) violate(V_GROW,"%d trampoline tables remain after every closure was released",f.xpages);
  char why[256]; int v=os_hygiene(why); if(v) violate(v,"%s",why);
  bound_check();
  /* once the refusals are over, allocation succeeds again */
  if(!caps_limited()&&ladder_ok(0)&&freeslot>=0){
    /* anonymous memory or a file location is permitted now */
    int ok=do_alloc(freeslot,sizeof(ffi_closure));
    if(!ok) violate(V_RECOVER,"allocation still fails after every refusal ended (rwx %d, file location %d)",e->rwx==RWX_OK,ladder_first());
    do_prep(freeslot,1,2); do_call(freeslot,-1); do_free(freeslot);
  }
  for(int i=0;i<NSLOT;i++) if(SL[i].state==2) do_call(i,-1);
  after_return();
  hashev(999,f.pages,f.blocks);
}
void run_child(void){
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_sig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_RESTART; int sg[]={SIGSEGV,SIGBUS,SIGILL,SIGTRAP,SIGFPE,SIGABRT,SIGVTALRM,SIGALRM,SIGSYS}; for(unsigned i=0;i<sizeof sg/sizeof*sg;i++) sigaction(sg[i],&sa,0);
  struct itimerval it={{3,0},{3,0}}; setitimer(ITIMER_VIRTUAL,&it,0); alarm(20);
  struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
  if(P.env.lowfd) close(0); if(P.env.lowfd>1) close(1);   /* an application that has closed its standard streams */
  os_init(); locks_reset(); sched_init(); mkcifs();
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,256*1024);
  for(int i=0;i<P.nth;i++){ T[i].idx=next_op_of(i,0); T[i].state=T_READY; T[i].go=0; }
  for(int i=0;i<P.nth;i++) if(pthread_create(&T[i].pt,&at,thread_main,&T[i])) _exit(2);
  int first=next_global_thread(); if(first<0) first=0;
  thread_kick(first);
  for(int i=0;i<P.nth;i++) pthread_join(T[i].pt,0);
  /* epilogue runs on the main thread as thread 0 */
  self=&T[0]; T[0].slo=0; T[0].shi=0; { pthread_getattr_np(pthread_self(),&at); void*s2; size_t z; pthread_attr_getstack(&at,&s2,&z); T[0].slo=s2; T[0].shi=(char*)s2+z; }
  stack_t ss; ss.ss_sp=malloc(65536); ss.ss_size=65536; ss.ss_flags=0; sigaltstack(&ss,0);
  T[0].held=0; T[0].midop=0;
  epilogue();
  _exit(0); }
