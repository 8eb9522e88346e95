/* plans: generation, text form, batch execution, minimisation, replay */
#include <sys/prctl.h>
#include "sim.h"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <time.h>
#include <stdarg.h>
extern void run_child(void);
static const char *opn[OP_N]={"alloc","prep","call","free","check","appnew","appfree","fork","join","env","fd","loop","nest","multi","huge","drain","retry","page"};
static const char *kn[K_N]={"mmap_anon","mmap_rwx","mmap_filex","mmap_file","munmap","open","opentmp","memfd","mktemp","write","pread","ftrunc","fopen","gets","malloc","statfs","setmnt","mprotect","fallocate","access","close"};
static const char *libn[LIB_N]={"ok","multi","deleted","deleted_other","replaced","repl_tail","trunc","space","space_decoy","long","notlisted","noread","noexec","noopen","odd","hugemaps"};

/* ---------------- properties: which violation classes decide them ---------------- */
#define B(x) (1ull<<(x))
#define CRASHY (B(V_CRASH)|B(V_HANG)|B(V_HEAP)|B(V_LIVELOCK)|B(V_DEADLOCK))
#define WORKS (B(V_DISPATCH)|B(V_CODEPROT)|B(V_MEMPROT)|B(V_PREP)|B(V_FOREIGNCODE)|CRASHY)
static const struct { const char*id; u64 mask; } props[]={
 {"C01",B(V_OVERLAP)|B(V_CONTENT)|B(V_MEMPROT)|B(V_ALIGN)|B(V_CODEDUP)|B(V_FUNMAP)|CRASHY|B(V_DISPATCH)},
 {"C02",WORKS|B(V_CODEDUP)|B(V_CONTENT)|B(V_OVERLAP)},
 {"C03",WORKS|B(V_CONTENT)|B(V_OVERLAP)|B(V_CODEDUP)|B(V_RECOVER)|B(V_LEAKFD)|B(V_GROW)|B(V_NAME)|B(V_LOCKHELD)|B(V_FUNMAP)|B(V_FCLOSE)|B(V_LADDER)},
 {"C04",WORKS|B(V_LADDER)|B(V_ORDER)|B(V_RECOVER)},
 {"C05",B(V_WX)|B(V_WXCODE)|CRASHY},
 {"C06",B(V_GROW)|B(V_LEAKFD)|CRASHY},
 {"C07",B(V_LEAKFD)|B(V_CLOEXEC)|B(V_NAME)|B(V_FCLOSE)|CRASHY},
 {"C08",B(V_HOLE)|CRASHY},
 {"C09",B(V_DEADLOCK)|B(V_LIVELOCK)|B(V_LOCKHELD)|CRASHY},
 {"C10",WORKS|B(V_LADDER)|B(V_MIXED)|B(V_GROW)|B(V_LEAKFD)|B(V_FUNMAP)|B(V_CODEDUP)|B(V_OVERLAP)|B(V_CONTENT)|B(V_FCLOSE)},
 {"C11",B(V_FOREIGNCODE)|B(V_CRASH)|B(V_DISPATCH)|B(V_HEAP)|B(V_HANG)|B(V_CODEPROT)},
 {"C18",B(V_FORK)|WORKS|B(V_CONTENT)|B(V_OVERLAP)|B(V_CODEDUP)},
 {"C22",WORKS|B(V_APP)|B(V_FUNMAP)|B(V_CONTENT)|B(V_OVERLAP)},
 {0,0}};

/* ---------------- plan text ---------------- */
static void print_plan(FILE*f,struct plan*p){
  struct env*e=&p->env;
  fprintf(f,"env lib=%d memfd=%d rwx=%d selinux=%d pax=%d page=%d place=%d pseed=%d mtab=%d mounts=%d maxpages=%d lowfd=%d  # lib:%s\n",e->lib,e->memfd,e->rwx,e->selinux,e->pax,e->page,e->place,e->pseed,e->mtab,e->mounts,e->maxpages,e->lowfd,libn[e->lib]);
  fprintf(f,"dirs"); for(int i=0;i<NDIR;i++) fprintf(f," %d:%d",e->dir[i],e->tmpf[i]); fprintf(f," mopt %d %d %d %d\n",e->mopt[0],e->mopt[1],e->mopt[2],e->mopt[3]);
  fprintf(f,"threads %d\n",p->nth);
  for(int i=0;i<p->nops;i++) fprintf(f,"op %d t%d %s %d %d %d%s\n",i,p->ops[i].th,opn[p->ops[i].kind],p->ops[i].a,p->ops[i].b,p->ops[i].c,p->ops[i].who?" child":"");
  for(int i=0;i<p->nflt;i++) fprintf(f,"fault op%d %s nth %d errno %d iter %d\n",p->flt[i].op,kn[p->flt[i].kind],p->flt[i].nth,p->flt[i].err,p->flt[i].iter);
  for(int i=0;i<p->npre;i++) fprintf(f,"preempt op%d access %d to t%d for %d ops\n",p->pre[i].op,p->pre[i].k,p->pre[i].to,p->pre[i].burst);
}
static int parse_plan(FILE*f,struct plan*p){
  char l[512]; memset(p,0,sizeof *p); p->nth=1; p->env.page=4096;
  while(fgets(l,sizeof l,f)){
    struct env*e=&p->env; char nm[64],ch[16]="";
    if(!strncmp(l,"env ",4)){ sscanf(l,"env lib=%d memfd=%d rwx=%d selinux=%d pax=%d page=%d place=%d pseed=%d mtab=%d mounts=%d maxpages=%d lowfd=%d",&e->lib,&e->memfd,&e->rwx,&e->selinux,&e->pax,&e->page,&e->place,&e->pseed,&e->mtab,&e->mounts,&e->maxpages,&e->lowfd); }
    else if(!strncmp(l,"dirs",4)){ char*q=l+4; for(int i=0;i<NDIR;i++){ int n=0; sscanf(q," %d:%d%n",&e->dir[i],&e->tmpf[i],&n); q+=n; } sscanf(q," mopt %d %d %d %d",&e->mopt[0],&e->mopt[1],&e->mopt[2],&e->mopt[3]); }
    else if(!strncmp(l,"threads",7)) sscanf(l,"threads %d",&p->nth);
    else if(!strncmp(l,"op ",3)&&p->nops<MAXOPS){ struct op*o=&p->ops[p->nops]; int id; int n=sscanf(l,"op %d t%d %63s %d %d %d %15s",&id,&o->th,nm,&o->a,&o->b,&o->c,ch); if(n>=6){ o->kind=-1; for(int k=0;k<OP_N;k++) if(!strcmp(opn[k],nm)) o->kind=k; o->who=!strcmp(ch,"child"); if(o->kind>=0) p->nops++; } }
    else if(!strncmp(l,"fault ",6)&&p->nflt<MAXFLT){ struct flt*t=&p->flt[p->nflt]; if(sscanf(l,"fault op%d %63s nth %d errno %d iter %d",&t->op,nm,&t->nth,&t->err,&t->iter)>=4){ t->kind=-1; for(int k=0;k<K_N;k++) if(!strcmp(kn[k],nm)) t->kind=k; if(t->kind>=0) p->nflt++; } }
    else if(!strncmp(l,"preempt ",8)&&p->npre<MAXPRE){ struct pre*r=&p->pre[p->npre]; if(sscanf(l,"preempt op%d access %d to t%d for %d",&r->op,&r->k,&r->to,&r->burst)==4) p->npre++; }
  }
  return p->nops>0; }

/* ---------------- one run ---------------- */
static void run_plan(struct plan*p){
  S->viol=0; S->vop=-1; S->vsig[0]=S->vmsg[0]=0; S->hash=0x1234; S->sched=0x77; S->yields=0; S->switches=S->midsw=S->sysc=0; memset(S->fired,0,sizeof S->fired); S->envfired=0; S->opdone=S->opskip=0; S->okalloc=S->nullalloc=S->calls=S->forks=0; S->nforkpid=0; S->npre=S->nflt=0; memset(S->probe,0,sizeof S->probe); S->src=0; S->peaklive=0; S->logn=0; S->log[0]=0; S->fork_shared=0;
  fflush(stdout); fflush(stderr);
  pid_t c=fork();
  if(c<0){ perror("fork"); _exit(2); }
  if(!c){ P=*p; run_child(); _exit(0); }
  int st; while(waitpid(c,&st,0)<0&&errno==EINTR);
  if(S->forks){ /* nothing of this run may live on */ int s2; for(int i=0;i<S->nforkpid;i++) if(S->forkpid[i]>0) kill(S->forkpid[i],SIGKILL); for(;;){ pid_t w=waitpid(-1,&s2,0); if(w<0&&errno==ECHILD) break; } }
  if(!S->viol){
    if(WIFSIGNALED(st)){ S->viol=V_CRASH; snprintf(S->vsig,sizeof S->vsig,(S->fork_shared&1)?"fork-shared-file-heap":"crash"); snprintf(S->vmsg,sizeof S->vmsg,"process ended by signal %d",WTERMSIG(st)); if(WTERMSIG(st)==SIGKILL){ fprintf(stderr,"run killed\n"); S->viol=0; } }
    else if(WEXITSTATUS(st)){ fprintf(stderr,"simulator error: child status %x\n",st); _exit(2); } }
}
/* explicit plan from what the run recorded */
static void make_explicit(struct plan*p){ struct plan q=*p; q.live=0; q.npre=S->npre; memcpy(q.pre,S->pre,sizeof q.pre); int n=0; for(int i=0;i<S->nflt&&n<MAXFLT;i++) q.flt[n++]=S->flt[i]; for(int i=0;i<p->nflt&&n<MAXFLT;i++) q.flt[n++]=p->flt[i]; q.nflt=n; *p=q; }
static u64 want_mask; 
static int same_class(int viol,const char*sig,const char*want){ (void)viol; return !strcmp(sig,want); }
static time_t min_end;
static int hit(struct plan*p,const char*sig){ if(min_end&&time(0)>min_end) return 0; run_plan(p); return S->viol&&(want_mask>>S->viol&1)&&same_class(S->viol,S->vsig,sig); }

static void renum_remove_op(struct plan*q,int i){
  memmove(&q->ops[i],&q->ops[i+1],sizeof(struct op)*(q->nops-i-1)); q->nops--;
  int n=0; for(int k=0;k<q->npre;k++) if(q->pre[k].op!=i){ q->pre[n]=q->pre[k]; if(q->pre[n].op>i) q->pre[n].op--; n++; } q->npre=n;
  n=0; for(int k=0;k<q->nflt;k++) if(q->flt[k].op!=i){ q->flt[n]=q->flt[k]; if(q->flt[n].op>i) q->flt[n].op--; n++; } q->nflt=n; }
static int minimise_(struct plan*p,const char*sig,int budget);
static int minimise(struct plan*p,const char*sig,int budget){ min_end=time(0)+40; int r=minimise_(p,sig,budget); min_end=0; return r; }
static int minimise_(struct plan*p,const char*sig,int budget){
  int runs=0, changed=1; struct plan q; time_t t0=time(0);
  while(changed&&runs<budget&&time(0)-t0<40){ changed=0;
    for(int ch=p->nops/2;ch>=1&&runs<budget;ch/=2) for(int i=p->nops-ch;i>=0&&runs<budget;i-=ch){ if(i+ch>p->nops) continue; q=*p; for(int k=0;k<ch;k++) renum_remove_op(&q,i); if(!q.nops) continue; runs++; if(hit(&q,sig)){ *p=q; changed=1; } if(time(0)-t0>40) return runs; }
    for(int ch=p->npre/2>0?p->npre/2:1;ch>=1&&runs<budget;ch/=2) for(int i=p->npre-ch;i>=0&&runs<budget;i-=ch){ if(i+ch>p->npre) continue; q=*p; memmove(&q.pre[i],&q.pre[i+ch],sizeof(struct pre)*(q.npre-i-ch)); q.npre-=ch; runs++; if(hit(&q,sig)){ *p=q; changed=1; } }
    for(int i=p->nflt-1;i>=0&&runs<budget;i--){ q=*p; memmove(&q.flt[i],&q.flt[i+1],sizeof(struct flt)*(q.nflt-i-1)); q.nflt--; runs++; if(hit(&q,sig)){ *p=q; changed=1; } }
    for(int i=0;i<p->nops&&runs<budget;i++){ if(p->ops[i].kind==OP_LOOP&&p->ops[i].a>2){ q=*p; q.ops[i].a/=2; runs++; if(hit(&q,sig)){ *p=q; changed=1; } }
      if((p->ops[i].kind==OP_MULTI||p->ops[i].kind==OP_RETRY)&&p->ops[i].b>2){ q=*p; q.ops[i].b/=2; runs++; if(hit(&q,sig)){ *p=q; changed=1; } }
      if(p->ops[i].kind==OP_ALLOC&&p->ops[i].b){ q=*p; q.ops[i].b=0; runs++; if(hit(&q,sig)){ *p=q; changed=1; } } }
    /* simpler environment */
    struct env*e=&p->env; int *fl[]={&e->lib,&e->memfd,&e->rwx,&e->selinux,&e->pax,&e->place,&e->mtab,&e->mounts,&e->maxpages,&e->lowfd};
    for(unsigned k=0;k<sizeof fl/sizeof*fl&&runs<budget;k++) if(*fl[k]){ q=*p; *(int*)((char*)&q.env+((char*)fl[k]-(char*)e))=0; runs++; if(hit(&q,sig)){ *p=q; changed=1; } }
    for(int d=0;d<NDIR&&runs<budget;d++) if(p->env.dir[d]!=D_OK&&p->env.dir[d]!=D_UNSET){ q=*p; q.env.dir[d]=(d<2||d==5)?D_UNSET:D_OK; runs++; if(hit(&q,sig)){ *p=q; changed=1; } }
    for(int d=0;d<NDIR&&runs<budget;d++) if(p->env.tmpf[d]){ q=*p; q.env.tmpf[d]=0; runs++; if(hit(&q,sig)){ *p=q; changed=1; } }
    if(p->nth>1){ q=*p; int mx=0; for(int i=0;i<q.nops;i++) if(q.ops[i].th>mx) mx=q.ops[i].th; if(mx+1<q.nth){ q.nth=mx+1; runs++; if(hit(&q,sig)){ *p=q; changed=1; } } }
  }
  return runs; }

/* ---------------- generation ---------------- */
static void def_env(struct env*e){ memset(e,0,sizeof *e); e->page=4096; e->place=PL_DOWN; e->dir[0]=e->dir[1]=D_UNSET; for(int i=2;i<NDIR;i++) e->dir[i]=D_OK; e->mounts=MT_LIST; e->mtab=MT_LIST; }
enum { PF_MEM, PF_DISP, PF_FAULT, PF_LADDER, PF_WX, PF_FOOT, PF_FD, PF_DISK, PF_LOCK, PF_FIRST, PF_LIB, PF_FORK, PF_APP };
static int profile_of(const char*id){ static const char*n[]={"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C18","C22"}; for(int i=0;i<13;i++) if(!strcmp(n[i],id)) return i; return 0; }
static u64 G; 
static u32 r_(u32 n){ return rn(&G,n); }
static int pc(u32 p){ return r_(100)<p; }
static void lib_bad(struct env*e){ static const int b[]={LIB_DELETED,LIB_NOREAD,LIB_NOTLISTED,LIB_NOEXEC,LIB_NOOPEN,LIB_DELETED_OTHER,LIB_REPLACED}; e->lib=b[r_(7)]; }
static void no_static(struct env*e){ /* also the temp-file way to static trampolines has to fail for the dynamic ones to be used */
  lib_bad(e); e->memfd=MF_NOEXEC; if(pc(30)) e->lib=LIB_NOEXEC; }
static void rand_dirs(struct env*e,int badness){
  for(int i=0;i<NDIR;i++){
    if(pc(badness)){ static const int s[]={D_MISSING,D_NOPERM,D_ROFS,D_NOEXEC,D_FULL,D_NOTDIR,D_MISSING,D_NOEXEC}; e->dir[i]=s[r_(8)]; }
    else e->dir[i]=D_OK;
    if(i<2||i==5){ if(pc(25)) e->dir[i]=D_UNSET; else if(pc(6)) e->dir[i]=D_EMPTYSTR; else if(pc(4)) e->dir[i]=D_LONG; }
    e->tmpf[i]=pc(60)?TF_YES:1+r_(3); }
  for(int i=0;i<4;i++) e->mopt[i]=pc(50)?0:1+r_(2);
  e->mtab=r_(2); e->mounts=r_(2)?MT_LIST:pc(70)?MT_LIST:MT_ABSENT; }
static void addop(struct plan*p,int th,int k,int a,int b,int c){ if(p->nops<MAXOPS){ struct op*o=&p->ops[p->nops++]; o->kind=k;o->th=th;o->a=a;o->b=b;o->c=c;o->who=0; } }
static int rsize(int pf){ (void)pf; u32 r=r_(100); if(r<55) return 0; if(r<70) return 64+r_(64); if(r<85) return 56+r_(500); if(r<94) return 600+r_(9000); if(r<98) return 60000+r_(200000); return 1900000+r_(1500000); }
static int rkind(void){ return r_(6); }

static void gen(struct plan*p,int pf,u64 seed,u64 run){
  G=mix(seed*0x9e37+1)^mix(run*0x51ed+77)^mix(pf*991); for(int i=0;i<4;i++) rnd(&G);
  memset(p,0,sizeof *p); struct env*e=&p->env; def_env(e); e->pseed=r_(100000); { static const int pl[]={PL_DOWN,PL_UP,PL_SCATTER,PL_MIX,PL_GAP,PL_DOWN}; e->place=pl[r_(6)]; }
  p->nth=1+r_(MAXT); p->live=1; p->lseed=rnd(&G);
  /* preemption style */
  u32 m=r_(100); if(m<15) p->premode=0; else if(m<55){ p->premode=1; static const int rt[]={5,15,40,100,300,800,2000}; p->prerate=rt[r_(7)]; } else if(m<80){ p->premode=2; p->prerate=5+r_(40); } else { p->premode=3; p->prerate=20+r_(500); }
  int fm=0; /* faults */
  /* environment by profile */
  switch(pf){
   case PF_MEM: case PF_DISP: { u32 r=r_(100); if(r<35) e->lib=pc(70)?LIB_OK:LIB_MULTI; else if(r<45) lib_bad(e); else { no_static(e); if(pc(45)){ e->rwx=1+r_(2); } if(pc(25)) e->selinux=1+r_(2); if(pc(15)) e->pax=PAX_M; if(pc(50)) e->memfd=MF_OK, e->lib=LIB_NOEXEC; }
       if(pc(8)) e->page=pc(50)?16384:65536; if(pc(25)) fm=1; break; }
   case PF_FAULT: { u32 r=r_(100); if(r<30) e->lib=LIB_OK; else { if(r<45) lib_bad(e); else no_static(e); if(pc(50)) e->rwx=1+r_(2); if(pc(30)) e->selinux=1+r_(2); if(pc(15)) e->pax=PAX_M; rand_dirs(e,30); if(pc(40)) e->memfd=r_(MF_N);} fm=pc(92); if(pc(10)) e->maxpages=2+r_(12); break; }
   case PF_LADDER: { u32 r=r_(100); if(r<15) e->lib=r_(LIB_N); else no_static(e); e->memfd=pc(75)?1+r_(3):0; e->rwx=pc(85)?1+r_(2):0; e->selinux=pc(35)?1+r_(2):0; e->pax=pc(15)?r_(PAX_N):0; rand_dirs(e,40+r_(58)); if(pc(10)) e->page=16384; if(pc(12)) { for(int i=0;i<NDIR;i++) if(pc(30)) e->dir[i]=D_CAP1+r_(3); } fm=0; break; }
   case PF_WX: { u32 r=r_(100); if(r<40) e->lib=pc(50)?LIB_OK:LIB_MULTI; else no_static(e); if(pc(60)) e->selinux=1+r_(2); if(pc(45)) e->pax=pc(60)?PAX_M:r_(PAX_N); if(pc(50)) e->rwx=r_(3); rand_dirs(e,30); if(pc(40)) e->memfd=r_(MF_N); fm=pc(35); break; }
   case PF_FOOT: case PF_FD: { u32 r=r_(100); if(r<40) e->lib=LIB_OK; else { if(r<60) lib_bad(e); else no_static(e); if(pc(50)) e->rwx=1+r_(2); if(pc(20)) e->selinux=1+r_(2); rand_dirs(e,45); e->memfd=pc(60)?1+r_(3):0; } fm=pc(pf==PF_FD?70:60); break; }
   case PF_DISK: { no_static(e); e->memfd=pc(80)?1+r_(3):0; if(pc(70)) e->rwx=1+r_(2); else e->selinux=1+r_(2); rand_dirs(e,35); for(int i=0;i<NDIR;i++) if(pc(25)) e->dir[i]=D_CAP1+r_(3); fm=pc(80); break; }
   case PF_LOCK: { u32 r=r_(100); if(r<40) e->lib=LIB_OK; else { if(r<50) lib_bad(e); else no_static(e); e->rwx=r_(3); if(pc(20)) e->selinux=1+r_(2); rand_dirs(e,50); e->memfd=r_(MF_N);} fm=pc(65); break; }
   case PF_FIRST: { u32 r=r_(100); if(r<50) e->lib=pc(60)?LIB_OK:LIB_MULTI; else { if(r<65) lib_bad(e); else no_static(e); e->rwx=r_(3); if(pc(20)) e->selinux=1+r_(2); if(pc(50)) rand_dirs(e,40); if(pc(50)) e->memfd=r_(MF_N);} if(p->nth<2) p->nth=2+r_(3); fm=pc(20); break; }
   case PF_LIB: { e->lib=r_(LIB_N); if(pc(50)) e->memfd=r_(MF_N); if(pc(30)) e->rwx=1+r_(2); if(pc(30)) rand_dirs(e,50); fm=pc(35); break; }
   case PF_FORK: { u32 r=r_(100); if(r<60) e->lib=LIB_OK; else if(r<75) lib_bad(e); else { no_static(e); if(pc(12)){ e->rwx=1+r_(2); e->memfd=pc(50)?0:MF_NOEXEC; } } p->nth=1+r_(2); fm=pc(10); break; }
   case PF_APP: { u32 r=r_(100); if(r<45) e->lib=LIB_OK; else { if(r<60) lib_bad(e); else no_static(e); e->rwx=r_(3); if(pc(20)) e->selinux=1+r_(2);} fm=pc(35); break; }
  }
  if(fm){ p->fltmode=pc(55)?1:2; static const int fr[]={5,15,40,100,250}; p->fltrate=p->fltmode==1?fr[r_(5)]:1+(int)r_(pc(50)?12:60); p->fltmask=pc(45)?~0u:(u32)rnd(&G)&(u32)rnd(&G);
    if(pf==PF_DISK) p->fltmask|=1u<<K_MMAP_FILE|1u<<K_WRITE|1u<<K_MMAP_FILEX; 
    p->fltmask&=~(1u<<K_CLOSE)|(pc(20)?1u<<K_CLOSE:0); if(p->fltmask==0) p->fltmask=1u<<K_MALLOC; }
  if(pc(pf==PF_FD?25:8)) e->lowfd=1+r_(2);
  /* operations */
  int n=4+r_(pc(30)?60:22), ns=2+r_(12); int nth=p->nth; int th=0;
  int style=r_(100);
  if(pf==PF_FOOT&&style<75){ p->nth=nth=pc(70)?1:nth;
    if(pc(40)) addop(p,0,OP_MULTI,0,1+r_(pc(30)?120:8),pc(50));
    int c=pc(75)?120+r_(200):400+r_(500); int pat=r_(5); int th0=0; 
    if(pat==3) c=pc(15)?100:20+r_(12); else if(pat<2&&pc(4)) c=pc(50)&&!pat?66000+r_(1000):4200+r_(9000);   /* long enough for 16-bit counts and for the heap's own periodic work */
    addop(p,th0,OP_LOOP,c,pat,pc(60)?0:56+r_(200));
    int li=p->nops-1;
    if(fm){ /* the same refusal in every iteration */ p->fltmode=0; int nf=1+r_(2); for(int i=0;i<nf;i++){ struct flt*f=&p->flt[p->nflt++]; f->op=li; static const int ks[]={K_MALLOC,K_MALLOC,K_MMAP_ANON,K_MMAP_RWX,K_MMAP_FILEX,K_MMAP_FILEX,K_MMAP_FILE,K_OPEN,K_MEMFD,K_WRITE,K_OPENTMP,K_MKTEMP,K_FOPEN,K_GETS,K_MUNMAP,K_FTRUNC}; f->kind=ks[r_(16)]; f->nth=pc(70)?1+r_(2):0; f->err=(f->kind==K_MMAP_RWX||f->kind==K_MMAP_FILEX)?(pc(60)?ENOMEM:EACCES):f->kind==K_OPEN||f->kind==K_MEMFD||f->kind==K_OPENTMP||f->kind==K_FOPEN?EMFILE:f->kind==K_WRITE?ENOSPC:ENOMEM; } }
    if(pc(60)) addop(p,0,OP_MULTI,0,20+r_(230),0);
    if(pc(60)) addop(p,0,OP_DRAIN,0,1+r_(3),r_(3));
    if(pc(50)) addop(p,0,OP_LOOP,110,r_(3),0);
    if(pc(40)) addop(p,0,OP_DRAIN,0,1,0);
    return; }
  if((pf==PF_FAULT||pf==PF_LOCK||pf==PF_FOOT||pf==PF_FD)&&pc(pf==PF_FOOT?60:12)){ /* the same request refused again and again, at a table boundary or anywhere */
    p->nth=nth=pc(75)?1:nth; p->fltmode=0; if(pc(50)) e->lib=LIB_OK;
    int cnt=pc(75)?ntramp_guess*(1+r_(2))-(int)r_(2):r_(12); if(cnt>0) addop(p,0,OP_MULTI,0,cnt,pc(20));
    int rs=1+r_(3); for(int q=0;q<rs;q++){ addop(p,0,OP_RETRY,NSLOT-1-q,16+r_(10),pc(70)?0:pc(50)?56+r_(9000):66000+r_(200000)); int li=p->nops-1, nf=1+r_(2);
      for(int i=0;i<nf;i++){ struct flt*f=&p->flt[p->nflt++]; static const int ks[]={K_MALLOC,K_MMAP_ANON,K_MMAP_FILEX,K_MMAP_FILEX,K_MMAP_RWX,K_MMAP_FILE,K_OPEN,K_MEMFD,K_WRITE,K_OPENTMP,K_MKTEMP,K_FOPEN,K_GETS,K_FTRUNC,K_PREAD,K_MALLOC}; f->op=li; f->kind=ks[r_(16)]; f->nth=pc(70)?1+r_(2):0; f->err=(f->kind==K_MMAP_RWX||f->kind==K_MMAP_FILEX)?(pc(60)?ENOMEM:EACCES):f->kind==K_OPEN||f->kind==K_MEMFD||f->kind==K_OPENTMP||f->kind==K_FOPEN?EMFILE:f->kind==K_WRITE?ENOSPC:ENOMEM; }
      if(pc(40)) addop(p,0,OP_MULTI,0,1+r_(4),0);
      if(pc(40)) addop(p,0,OP_PAGE,r_(4),pc(50)?1:0,0); }
    n=r_(8); }
  if((pf==PF_MEM||pf==PF_DISP||pf==PF_FAULT||pf==PF_FIRST||pf==PF_LOCK||(pf==PF_FOOT&&style>=75))&&pc(pf==PF_FOOT?70:pf==PF_DISP||pf==PF_MEM?12:6)){ /* several trampoline tables, emptied and filled in every order */
    p->nth=nth=pc(70)?1:nth; e->lib=pc(80)?LIB_OK:LIB_MULTI; if(fm&&pc(70)) p->fltmode=0;
    addop(p,0,OP_MULTI,0,ntramp_guess*(2+r_(2))+r_(14),0);
    if(pc(50)){ int ph=1+r_(4); for(int g=0;g<ph;g++){ for(int k=0;k<4;k++) if(pc(75)) addop(p,r_(nth),OP_PAGE,r_(4),1,r_(3)); int d=1+r_(3); for(int k=0;k<d;k++) addop(p,r_(nth),OP_PAGE,r_(4),0,0); addop(p,r_(nth),OP_MULTI,0,1+r_(8),0); if(pc(60)) addop(p,r_(nth),OP_MULTI,0,250+r_(70),0); } n=r_(6); }
    else { int m2=6+r_(30); for(int i=0;i<m2;i++){ int t=r_(nth); u32 q=r_(100); if(q<35) addop(p,t,OP_PAGE,r_(4),1,r_(3)); else if(q<50) addop(p,t,OP_PAGE,r_(4),1+r_(5),r_(3)); else if(q<75) addop(p,t,OP_PAGE,r_(4),0,0); else if(q<93) addop(p,t,OP_MULTI,0,pc(70)?1+r_(4):1+r_(120),0); else addop(p,t,OP_CALL,r_(300),0,0); }
    n=r_(6); } }
  if(pf==PF_FORK){
    int k=2+r_(8); for(int i=0;i<k;i++){ addop(p,0,OP_ALLOC,i,pc(60)?0:56+rsize(pf)%9000,0); addop(p,0,OP_PREP,i,rkind(),r_(4)); if(pc(30)) addop(p,0,OP_CALL,i,0,0); }
    if(pc(25)) addop(p,0,OP_MULTI,0,90+r_(20),0);
    if(pc(30)) addop(p,0,OP_FREE,r_(k),0,0);
    if(nth>1) for(int i=0;i<6;i++){ addop(p,1,OP_ALLOC,20+i,0,0); addop(p,1,OP_PREP,20+i,rkind(),r_(4)); addop(p,1,OP_CALL,20+i,0,0); }
    int sections=1+r_(2);
    for(int s=0;s<sections;s++){
      addop(p,0,OP_FORK,0,0,0);
      int m2=2+r_(12); for(int i=0;i<m2;i++){ int a=r_(k+4); int ch=pc(55); int before=p->nops; switch(r_(7)){ case 0: addop(p,0,OP_ALLOC,a,0,0); addop(p,0,OP_PREP,a,rkind(),r_(4)); break; case 1: addop(p,0,OP_FREE,a,0,0); break; case 2: addop(p,0,OP_PREP,a,rkind(),r_(4)); break; case 3: addop(p,0,OP_MULTI,0,1+r_(pc(20)?110:6),0); break; case 4: addop(p,0,OP_NEST,a,k+5,0); break; case 5: if(pc(30)) addop(p,0,OP_LOOP,3+r_(10),r_(3),0); else addop(p,0,OP_DRAIN,0,1+r_(3),0); break; default: addop(p,0,OP_CALL,a,0,0); } for(int q=before;q<p->nops;q++) p->ops[q].who=ch; }
      addop(p,0,OP_JOIN,0,0,0);
      for(int i=0;i<3;i++) addop(p,0,OP_CALL,r_(k),0,0); }
    return; }
  if(pf==PF_FIRST&&style<60){ /* everyone uses closures for the first time at once */
    int apps=pc(35); /* some of them with memory of their own, which asks for the method without the heap's lock */
    if(apps&&pc(50)){ no_static(e); e->rwx=pc(70)?0:e->rwx; for(int i=0;i<NDIR;i++) e->dir[i]=pc(50)?D_NOEXEC:D_MISSING; }
    for(int t=0;t<nth;t++){ if(apps&&pc(50)){ addop(p,t,OP_APPNEW,40+t,r_(5),r_(2)); addop(p,t,OP_PREP,40+t,rkind(),r_(4)); if(pc(30)) continue; } addop(p,t,OP_ALLOC,t,pc(80)?0:rsize(pf),0); }
    if(apps) for(int t=0;t<nth;t++) if(pc(50)) addop(p,t,OP_CALL,40+t,0,0);
    for(int t=0;t<nth;t++) addop(p,t,OP_PREP,t,rkind(),r_(4));
    for(int t=0;t<nth;t++) addop(p,t,OP_CALL,t,0,0);
    if(pc(50)) for(int t=0;t<nth;t++) addop(p,t,OP_FREE,t,0,0);
    n=r_(14); }
  if(pf==PF_DISK&&pc(30)){ /* writes cut short, several in one reservation */
    if(pc(60)) p->fltmode=0;
    int k=1+r_(3); for(int i=0;i<k;i++){ int z=pc(70)?5000+r_(60000):200000+r_(100000); if(pc(50)) addop(p,0,OP_ALLOC,30+i,0,0); addop(p,0,OP_ALLOC,20+i,z,0); int li=p->nops-1, pgs=z/e->page+1; int nf=1+r_(4); for(int j=0;j<nf&&p->nflt<MAXFLT;j++){ struct flt*f=&p->flt[p->nflt++]; f->op=li; f->kind=K_WRITE; f->nth=1+r_(pgs+1); f->err=pc(85)?-1:EINTR; } addop(p,0,OP_ALLOC,23+i,pc(50)?z:0,0); addop(p,0,OP_PREP,20+i,rkind(),1); addop(p,0,OP_CALL,20+i,0,0); } }
  if(pf==PF_APP){ int k=1+r_(3); for(int i=0;i<k;i++){ addop(p,r_(nth),OP_APPNEW,40+i,r_(5),r_(2)); if(pc(70)) addop(p,r_(nth),OP_PREP,40+i,rkind(),r_(4)); if(pc(60)) addop(p,r_(nth),OP_CALL,40+i,0,0);} }
  if((pf==PF_MEM||pf==PF_DISP||pf==PF_LOCK||pf==PF_FAULT)&&pc(18)){ addop(p,r_(nth),OP_MULTI,0,95+r_(20),0); }
  if((pf==PF_MEM||pf==PF_FAULT||pf==PF_APP||pf==PF_DISP)&&pc(12)){ /* a lot of memory that is given back, so that trimming happens */ int s=NSLOT-1-r_(8); addop(p,r_(nth),OP_ALLOC,s,2100000+r_(900000),0); if(pc(60)) addop(p,r_(nth),OP_ALLOC,s-10,2100000+r_(900000),0); if(pc(70)) addop(p,r_(nth),OP_FREE,s,0,0); if(pc(50)) addop(p,r_(nth),OP_FREE,s-10,0,0); if(pf==PF_APP) { addop(p,r_(nth),OP_APPNEW,47,1,0); addop(p,r_(nth),OP_PREP,47,rkind(),1); addop(p,r_(nth),OP_CALL,47,0,0);} }
  for(int i=0;i<n;i++){
    th=r_(nth); int a=r_(ns); u32 r=r_(100);
    if(r<30){ addop(p,th,OP_ALLOC,a,rsize(pf),0); if(pc(70)){ int t2=pc(70)?th:(int)r_(nth); addop(p,t2,OP_PREP,a,rkind(),r_(4)); if(pc(60)) addop(p,pc(60)?t2:(int)r_(nth),OP_CALL,a,0,0);} }
    else if(r<42) addop(p,th,OP_PREP,a,rkind(),r_(4));
    else if(r<62) addop(p,th,OP_CALL,a,0,0);
    else if(r<82) addop(p,th,OP_FREE,a,0,0);
    else if(r<86) addop(p,th,OP_NEST,a,r_(ns),0);
    else if(r<88) addop(p,th,OP_MULTI,0,2+r_(pc(20)?110:10),r_(2));
    else if(r<90) addop(p,th,OP_DRAIN,0,1+r_(4),r_(4));
    else if(r<92) addop(p,th,OP_HUGE,a,r_(7),0);
    else if(r<94) addop(p,th,OP_FD,r_(8),0,0);
    else if(r<95) { int big=nth==1&&pc(1); addop(p,th,OP_LOOP,big?66000+(int)r_(1000):2+r_(15),big?0:r_(3),0); }
    else if(r<97&&(pf==PF_FIRST||pf==PF_LIB||pf==PF_FAULT||pf==PF_DISK||pf==PF_FD||pf==PF_APP)){
      switch(r_(6)){ case 0: addop(p,th,OP_ENV,r_(NDIR),1+r_(6),0); break; case 1: addop(p,th,OP_ENV,20,r_(3),0); break; case 2: addop(p,th,OP_ENV,21,r_(LIB_N),0); break; case 3: addop(p,th,OP_ENV,22,r_(MF_N),0); break; case 4: addop(p,th,OP_ENV,24,r_(4),0); break; case 5: addop(p,th,OP_ENV,26,r_(2),0); break; } }
    else if(r<98&&(pf==PF_APP)) { int s=40+r_(4); if(pc(50)) addop(p,th,OP_APPFREE,s,0,0); else addop(p,th,OP_APPNEW,s,r_(5),r_(2)); addop(p,th,OP_PREP,s,rkind(),r_(4)); addop(p,th,OP_CALL,s,0,0); }
    else addop(p,th,OP_CHECK,a,0,0);
  }
  if(pf==PF_LIB&&pc(50)){ /* the library file changes between two uses */ int at=r_(p->nops); if(p->nops<MAXOPS-1){ memmove(&p->ops[at+1],&p->ops[at],sizeof(struct op)*(p->nops-at)); p->nops++; p->ops[at]=(struct op){OP_ENV,(int)r_(nth),0,21,(int)r_(LIB_N),0}; } }
}

/* ---------------- known findings ---------------- */
static char known[32][96]; static int nknown;
static void load_known(const char*f,const char*prop){ FILE*k=fopen(f,"r"); char l[512]; if(!k) return; while(fgets(l,sizeof l,k)){ char id[16],sig[96]; if(sscanf(l,"known: property=%15s signature=%95s",id,sig)==2&&!strcmp(id,prop)&&nknown<32) strcpy(known[nknown++],sig); } fclose(k); }
static int is_known(const char*sig){ for(int i=0;i<nknown;i++) if(!strcmp(known[i],sig)) return 1; return 0; }

static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static int cmpu(const void*a,const void*b){ u64 x=*(u64*)a,y=*(u64*)b; return x<y?-1:x>y; }

int main(int ac,char**av){
  const char*prop="C01",*planf=0,*outp=0,*kf=0,*hashf=0,*dumpone=0; u64 seed=1; long runs=1000, from=0, step=1; double tmax=1e9; int detcheck=50; int showplan=0;
  for(int i=1;i<ac;i++){ if(!strcmp(av[i],"--prop")) prop=av[++i]; else if(!strcmp(av[i],"--seed")) seed=strtoull(av[++i],0,0); else if(!strcmp(av[i],"--runs")) runs=atol(av[++i]); else if(!strcmp(av[i],"--from")) from=atol(av[++i]); else if(!strcmp(av[i],"--step")) step=atol(av[++i]); else if(!strcmp(av[i],"--time")) tmax=atof(av[++i]); else if(!strcmp(av[i],"--plan")) planf=av[++i]; else if(!strcmp(av[i],"--out")) outp=av[++i]; else if(!strcmp(av[i],"--known")) kf=av[++i]; else if(!strcmp(av[i],"--hashes")) hashf=av[++i]; else if(!strcmp(av[i],"--verbose")) verbose=1; else if(!strcmp(av[i],"--det")) detcheck=atoi(av[++i]); else if(!strcmp(av[i],"--one")) dumpone=av[++i]; else if(!strcmp(av[i],"--show")) showplan=1; else if(!strcmp(av[i],"--explicit")) showplan=2; }
  if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE)){ personality(personality(0xffffffff)|ADDR_NO_RANDOMIZE); execv("/proc/self/exe",av); }
  prctl(PR_SET_CHILD_SUBREAPER,1,0,0,0);
  { int f0=open("/dev/null",O_RDONLY); dup2(f0,230); if(f0!=230) close(f0); } /* a large descriptor table from the start: growing a shared one waits for RCU */
  setenv("MALLOC_ARENA_MAX","1",1);
  S=mmap(0,sizeof *S,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  os_static_init();
  int pf=profile_of(prop); want_mask=0; for(int i=0;props[i].id;i++) if(!strcmp(props[i].id,prop)) want_mask=props[i].mask;
  static struct plan p;
  if(planf){ FILE*f=fopen(planf,"r"); if(!f||!parse_plan(f,&p)){ fprintf(stderr,"bad plan\n"); return 2; } fclose(f); run_plan(&p);
    if(verbose) fputs(S->log,stdout);
    printf("hash %016llx sched %016llx yields %llu\n",(unsigned long long)S->hash,(unsigned long long)S->sched,(unsigned long long)S->yields);
    if(S->viol){ printf("REPRODUCED %s: %s\n",S->vsig,S->vmsg); return 1; } printf("no violation\n"); return 0; }
  if(dumpone){ gen(&p,pf,seed,atol(dumpone)); if(showplan==1) print_plan(stdout,&p); run_plan(&p); if(showplan==2){ make_explicit(&p); print_plan(stdout,&p); fflush(stdout);} if(verbose) fputs(S->log,stdout); printf("run %s hash %016llx viol %d %s %s\n",dumpone,(unsigned long long)S->hash,S->viol,S->vsig,S->vmsg); return S->viol!=0; }
  if(kf) load_known(kf,prop);
  static struct { u64 runs,yields,sw,midsw,sysc,okalloc,nullalloc,calls,forks,opdone,opskip,envf,nontriv,det,violother,knownhits; u64 fired[K_N]; u64 src[8]; u64 probe[8]; u64 maxlive; u64 plnth[5]; u64 libs[LIB_N]; } st;
  u64 *hs=malloc(sizeof(u64)*(runs/step+2)); long nh=0; double t0=now(); int rc=0; char knownmsg[400]=""; char firstplans[1][8]={""}; (void)firstplans;
  static char sample[3][6000]; int nsample=0; u64 otherclass[V_N]; memset(otherclass,0,sizeof otherclass);
  for(long i=from;i<runs;i+=step){
    if(now()-t0>tmax) break;
    gen(&p,pf,seed,i); run_plan(&p);
    st.runs++; st.yields+=S->yields; st.sw+=S->switches; st.midsw+=S->midsw; st.sysc+=S->sysc; st.okalloc+=S->okalloc; st.nullalloc+=S->nullalloc; st.calls+=S->calls; st.forks+=S->forks; st.opdone+=S->opdone; st.opskip+=S->opskip; st.envf+=S->envfired; for(int k=0;k<K_N;k++) st.fired[k]+=S->fired[k]; for(int k=0;k<6;k++) if(S->src>>k&1) st.src[k]++; for(int k=0;k<8;k++) st.probe[k]+=S->probe[k]; if(S->peaklive>st.maxlive) st.maxlive=S->peaklive; st.plnth[p.nth]++; st.libs[p.env.lib]++;
    int anyf=0; for(int k=0;k<K_N;k++) anyf+=S->fired[k];
    if(S->okalloc+S->nullalloc>0&&(S->midsw||anyf||S->envfired||S->forks||pf==PF_FOOT||pf==PF_APP)){ st.nontriv++; hs[nh++]=mix(S->sched)^mix(S->hash+3); }
    if(nsample<2&&S->midsw+anyf>2&&S->calls>0&&!S->viol){ struct plan q=p; make_explicit(&q); FILE*f=fmemopen(sample[nsample],sizeof sample[0]-1,"w"); print_plan(f,&q); fclose(f); nsample++; }
    u64 h1=S->hash, s1=S->sched; int v1=S->viol; char sig[64]; strcpy(sig,S->vsig);
    if(v1&&is_known(sig)&&(want_mask>>v1&1)){ st.knownhits++; if(!knownmsg[0]) snprintf(knownmsg,sizeof knownmsg,"%s: %s",sig,S->vmsg); continue; }
    if(v1&&!(want_mask>>v1&1)){ st.violother++; otherclass[v1]++; if(getenv("SIM_SHOWOTHER")) fprintf(stderr,"other run %ld %s: %s\n",i,sig,S->vmsg); continue; }
    if(v1){
      struct plan q=p; make_explicit(&q); char m0[400]; strcpy(m0,S->vmsg);
      run_plan(&q);
      if(!S->viol||strcmp(S->vsig,sig)){ /* recorded schedule must reproduce */
        run_plan(&p); fprintf(stderr,"NONREPRO run %ld: live %s %s, explicit %s (%s); live again %s\n",i,sig,m0,S->viol?S->vsig:"none",S->vmsg,S->vsig); rc=3; continue; }
      int mr=minimise(&q,sig,600); run_plan(&q); u64 ha=S->hash; char msg[400]; strcpy(msg,S->vmsg); run_plan(&q);
      if(S->hash!=ha||!S->viol) { fprintf(stderr,"NONDET minimised\n"); rc=3; continue; }
      if(outp){ FILE*f=fopen(outp,"w"); fprintf(f,"# property %s violation %s\n# %s\n# found by seed %llu run %ld; minimised in %d runs; event hash %016llx\n",prop,sig,msg,(unsigned long long)seed,i,mr,(unsigned long long)ha); print_plan(f,&q); fclose(f); }
      printf("{\"violation\":\"%s\",\"msg\":\"",sig); for(char*c=msg;*c;c++) if(*c!='"'&&*c!='\\'&&*c>=32) putchar(*c); printf("\",\"run\":%ld}\n",i);
      rc=1; break; }
    if(detcheck&&(i/step)%detcheck==0){ st.det++; run_plan(&p); if(S->hash!=h1||S->sched!=s1){ fprintf(stderr,"NONDETERMINISM run %ld\n",i); rc=3; break; }
      struct plan q=p; make_explicit(&q); run_plan(&q); if(S->hash!=h1||S->sched!=s1){ fprintf(stderr,"explicit replay differs, run %ld\n",i); rc=3; break; } }
  }
  double el=now()-t0;
  qsort(hs,nh,sizeof(u64),cmpu); long d=0; for(long i=0;i<nh;i++) if(!i||hs[i]!=hs[i-1]) hs[d++]=hs[i];
  if(hashf){ FILE*f=fopen(hashf,"w"); fwrite(hs,8,d,f); fclose(f); }
  printf("{\"stats\":1,\"wall\":%.3f,\"runs\":%llu,\"distinct\":%ld,\"nontrivial\":%llu,\"yields\":%llu,\"switches\":%llu,\"midop_switches\":%llu,\"syscalls\":%llu,\"allocs_ok\":%llu,\"allocs_null\":%llu,\"calls\":%llu,\"forks\":%llu,\"ops\":%llu,\"ops_skipped\":%llu,\"env_refusals\":%llu,\"det_checked\":%llu,\"lock_contended\":%llu,\"max_live\":%llu,\"other\":%llu,\"known_hits\":%llu",el,(unsigned long long)st.runs,d,(unsigned long long)st.nontriv,(unsigned long long)st.yields,(unsigned long long)st.sw,(unsigned long long)st.midsw,(unsigned long long)st.sysc,(unsigned long long)st.okalloc,(unsigned long long)st.nullalloc,(unsigned long long)st.calls,(unsigned long long)st.forks,(unsigned long long)st.opdone,(unsigned long long)st.opskip,(unsigned long long)st.envf,(unsigned long long)st.det,(unsigned long long)st.probe[0],(unsigned long long)st.maxlive,(unsigned long long)st.violother,(unsigned long long)st.knownhits);
  printf(",\"faults\":{"); for(int k=0;k<K_N;k++) printf("%s\"%s\":%llu",k?",":"",kn[k],(unsigned long long)st.fired[k]); printf("}");
  static const char*sn[]={"own_code","static_from_temp_file","anon_rwx","memfd_dual","dir_file_dual","other_private"}; printf(",\"sources\":{"); for(int k=0;k<6;k++) printf("%s\"%s\":%llu",k?",":"",sn[k],(unsigned long long)st.src[k]); printf("},\"othercls\":{"); { int c=0; for(int k=0;k<V_N;k++) if(otherclass[k]) printf("%s\"%s\":%llu",c++?",":"",vname[k],(unsigned long long)otherclass[k]); }
  printf("},\"known_msg\":\""); for(char*c=knownmsg;*c;c++) if(*c!='"'&&*c!='\\'&&*c>=32) putchar(*c); printf("\",\"samples\":["); for(int i=0;i<nsample;i++){ printf("%s\"",i?",":""); for(char*c=sample[i];*c;c++){ if(*c=='\n') printf("; "); else if(*c!='"'&&*c!='\\'&&*c>=32) putchar(*c);} printf("\""); } printf("]}\n");
  return rc; }
