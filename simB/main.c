/* plans: generation, text form, batch execution, minimisation, replay */
#include "sim.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <time.h>
#include <fcntl.h>
const char *kname[]={"call","closure","loop","gocall","goclosure","goloop","rawcall","rawclosure","rawloop","jcall","jclosure","jloop","native","convert","prepare"};
static const char phn[]="caCAht";
/* ---------------- properties: which violation classes decide them ---------------- */
#define B(x) (1ull<<(x))
#define EXACT (B(V_ARGS)|B(V_RESULT)|B(V_IDENT)|B(V_CHAIN)|B(V_CRASH)|B(V_HANG))
static const struct { const char*id; u64 mask; } props[]={
 {"C12",EXACT|B(V_CALLERDATA)},
 {"C13",EXACT|B(V_CALLERDATA)|B(V_RESULTSIZE)|B(V_REGS)|B(V_STACK)},
 {"C14",EXACT|B(V_CALLERDATA)|B(V_RESULTSIZE)|B(V_REGS)|B(V_STACK)},
 {"C15",EXACT|B(V_UNWIND)|B(V_REGS)|B(V_STACK)},
 {"C16",B(V_CALLERDATA)|B(V_RESULTSIZE)|B(V_ROWRITE)|B(V_READOUT)|B(V_ARGS)},
 {"C17",EXACT|B(V_PREP)|B(V_HISTORY)},
 {"C19",EXACT|B(V_RAW)|B(V_CALLERDATA)},
 {"C20",EXACT},
 {"C21",B(V_REGS)|B(V_STACK)|B(V_FPU)|B(V_ERRNO)|B(V_CRASH)|B(V_HANG)},
 {0,0}};
enum { PF_12, PF_13, PF_14, PF_15, PF_16, PF_17, PF_19, PF_20, PF_21 };
static int profile_of(const char*id){ for(int i=0;props[i].id;i++) if(!strcmp(props[i].id,id)) return i; return 0; }

/* ---------------- plan text ---------------- */
static void print_plan(FILE*f,struct plan*p){
  fprintf(f,"threads %d\npool %llu\n",p->nth,(unsigned long long)p->pool);
  for(int i=0;i<p->nif;i++) fprintf(f,"iface %d sig %d dyn %llu\n",i,p->ifc[i].sig,(unsigned long long)p->ifc[i].dyn);
  for(int i=0;i<p->nops;i++){ struct op*o=&p->ops[i]; fprintf(f,"op %d t%d parent %d %s %s iface %d flags %d exit %d to %d seed %llu",i,o->th,o->parent,o->sig?"signal":"callee",kname[o->kind],o->ifc,o->flags,o->exitmode,o->exitto,(unsigned long long)o->seed); if(o->rep>1) fprintf(f," rep %d",o->rep); if(o->deep) fprintf(f," deep %d",o->deep); fputc('\n',f); }
  for(int i=0;i<p->nev;i++){ struct ev*e=&p->ev[i]; fprintf(f,"event op%d phase %c at %d %s %d\n",e->op,phn[e->phase],e->n,e->act?"signal":"switch",e->arg); } }
static int parse_plan(FILE*f,struct plan*p){ char l[512]; memset(p,0,sizeof *p); p->nth=1; unsigned long long x;
  while(fgets(l,sizeof l,f)){ char a[32],b[32]; int id;
    if(!strncmp(l,"threads",7)) sscanf(l,"threads %d",&p->nth);
    else if(!strncmp(l,"pool",4)){ if(sscanf(l,"pool %llu",&x)==1) p->pool=x; }
    else if(!strncmp(l,"iface",5)&&p->nif<MAXIF){ struct ifc*c=&p->ifc[p->nif]; if(sscanf(l,"iface %d sig %d dyn %llu",&id,&c->sig,&x)==3){ c->dyn=x; p->nif++; } }
    else if(!strncmp(l,"op ",3)&&p->nops<MAXOPS){ struct op*o=&p->ops[p->nops]; if(sscanf(l,"op %d t%d parent %d %31s %31s iface %d flags %d exit %d to %d seed %llu",&id,&o->th,&o->parent,a,b,&o->ifc,&o->flags,&o->exitmode,&o->exitto,&x)==10){ o->seed=x; char*w=strstr(l," rep "); if(w) o->rep=atoi(w+5); w=strstr(l," deep "); if(w) o->deep=atoi(w+6); if(o->rep>100000) o->rep=100000; if(o->deep>2000) o->deep=2000; o->sig=!strcmp(a,"signal"); o->kind=-1; for(int k=0;k<K_NKIND;k++) if(!strcmp(b,kname[k])) o->kind=k; if(o->kind>=0) p->nops++; } }
    else if(!strncmp(l,"event",5)&&p->nev<MAXEV){ struct ev*e=&p->ev[p->nev]; char c; if(sscanf(l,"event op%d phase %c at %d %31s %d",&e->op,&c,&e->n,a,&e->arg)==5&&strchr(phn,c)){ e->phase=strchr(phn,c)-phn; e->act=!strcmp(a,"signal"); p->nev++; } } }
  return p->nops>0&&p->nif>0; }

/* ---------------- one run ---------------- */
static void run_plan(struct plan*p){
  memset(S,0,offsetof(struct shm,log)); S->hash=0x1234; S->sched=0x77; S->log[0]=0;
  fflush(stdout); fflush(stderr);
  pid_t c=fork(); if(c<0){ perror("fork"); _exit(2); }
  if(!c){ P=*p; run_child(); _exit(0); }
  int st; while(waitpid(c,&st,0)<0&&errno==EINTR);
  if(!S->viol){
    if(WIFSIGNALED(st)){ if(WTERMSIG(st)==SIGKILL){ fprintf(stderr,"run killed\n"); return; } S->viol=V_CRASH; strcpy(S->vsig,"crash"); snprintf(S->vmsg,sizeof S->vmsg,"process ended by signal %d",WTERMSIG(st)); }
    else if(WEXITSTATUS(st)){ fprintf(stderr,"simulator error: child status %x\n",st); _exit(2); } } }
static u64 want_mask;
static int hit(struct plan*p,const char*sig){ run_plan(p); return S->viol&&(want_mask>>S->viol&1)&&!strcmp(S->vsig,sig); }
static int remove_ops(struct plan*q,int i,int n){ /* with everything below them */
  char dead[MAXOPS]={0}; int map[MAXOPS]; for(int k=i;k<i+n&&k<q->nops;k++) dead[k]=1; for(int k=0;k<q->nops;k++) if(q->ops[k].parent>=0&&dead[q->ops[k].parent]) dead[k]=1;
  int m=0; for(int k=0;k<q->nops;k++){ map[k]=dead[k]?-1:m; if(!dead[k]) m++; }
  for(int k=0;k<q->nops;k++) if(!dead[k]){ struct op o=q->ops[k]; if(o.parent>=0) o.parent=map[o.parent]; if(o.exitmode){ if(o.exitto<0||o.exitto>=q->nops||map[o.exitto]<0){ o.exitmode=0; o.exitto=0; } else o.exitto=map[o.exitto]; } q->ops[map[k]]=o; }
  int e=0; for(int k=0;k<q->nev;k++){ struct ev v=q->ev[k]; if(v.op>=q->nops||map[v.op]<0) continue; v.op=map[v.op]; if(v.act){ if(v.arg<0||v.arg>=q->nops||map[v.arg]<0) continue; v.arg=map[v.arg]; } q->ev[e++]=v; }
  q->nev=e; q->nops=m; return m; }
static int minimise(struct plan*p,const char*sig,int budget){ int runs=0,changed=1; struct plan q; time_t t0=time(0);
#define TRY do{ runs++; if(hit(&q,sig)){ *p=q; changed=1; } if(time(0)-t0>40||runs>budget) return runs; }while(0)
  while(changed){ changed=0;
    for(int ch=p->nops/2;ch>=1;ch/=2) for(int i=p->nops-ch;i>=0;i-=ch){ if(i+ch>p->nops) continue; q=*p; if(!remove_ops(&q,i,ch)) continue; TRY; }
    for(int ch=p->nev/2>0?p->nev/2:1;ch>=1;ch/=2) for(int i=p->nev-ch;i>=0;i-=ch){ if(i+ch>p->nev) continue; q=*p; memmove(&q.ev[i],&q.ev[i+ch],sizeof(struct ev)*(q.nev-i-ch)); q.nev-=ch; TRY; }
    for(int i=0;i<p->nops;i++){ if(p->ops[i].exitmode){ q=*p; q.ops[i].exitmode=q.ops[i].exitto=0; TRY; }
      for(int h=0;h<3&&p->ops[i].rep>1;h++){ q=*p; q.ops[i].rep=h==0?0:h==1?q.ops[i].rep/2:q.ops[i].rep-1; TRY; }
      for(int h=0;h<3&&p->ops[i].deep>0;h++){ q=*p; q.ops[i].deep=h==0?0:h==1?q.ops[i].deep/2:q.ops[i].deep-1; TRY; }
      for(int b=1;b<=F_LAST;b<<=1) if(p->ops[i].flags&b){ q=*p; q.ops[i].flags&=~b; TRY; } }
    /* interfaces nobody uses */
    for(int i=p->nif-1;i>=0&&p->nif>1;i--){ int used=0; for(int k=0;k<p->nops;k++) if(p->ops[k].ifc==i&&p->ops[k].kind!=K_PREP) used=1; if(used) continue; q=*p; memmove(&q.ifc[i],&q.ifc[i+1],sizeof(struct ifc)*(q.nif-i-1)); q.nif--; for(int k=0;k<q.nops;k++){ if(q.ops[k].ifc>i) q.ops[k].ifc--; else if(q.ops[k].ifc==i) q.ops[k].ifc=0; } TRY; }
    if(p->nth>1){ q=*p; int mx=0; for(int i=0;i<q.nops;i++) if(q.ops[i].th>mx) mx=q.ops[i].th; if(mx+1<q.nth){ q.nth=mx+1; TRY; } } }
  return runs; }

/* ---------------- generation ---------------- */
static u64 G; static u32 r_(u32 n){ return rn(&G,n); } static int pc(u32 p){ return r_(100)<p; }
static struct { int dyn,raw,java,abi; } cap[MAXIF];
static void caps(struct plan*p,int i){ static struct iface f; memset(&f,0,sizeof f); if(p->ifc[i].sig<0) dynsig(&f,p->ifc[i].dyn); else { const struct sigd*g=&SG[p->ifc[i].sig]; f.abi=g->abi; f.nargs=g->nargs; f.nfixed=g->nfixed; f.ret=g->ret; memcpy(f.args,g->args,sizeof(short)*g->nargs); }
  raw_caps(&f); cap[i].dyn=p->ifc[i].sig<0; cap[i].raw=f.rawok; cap[i].java=f.jok; cap[i].abi=f.abi; }
static int pick_kind(int pf,int i){ for(int g=0;g<40;g++){ int k; u32 r=r_(100);
    if(pf==PF_19){ static const int t[]={K_RAWCALL,K_RAWCLOS,K_RAWLOOP,K_JCALL,K_JCLOS,K_JLOOP,K_CONV,K_RAWCALL,K_RAWCLOS,K_RAWLOOP}; k=r<80?t[r_(10)]:r<90?K_LOOP:K_CALL; }
    else if(pf==PF_20){ static const int t[]={K_GOCALL,K_GOCLOS,K_GOLOOP}; k=r<78?t[r_(3)]:r<88?K_LOOP:r<94?K_CALL:K_CLOS; }
    else { static const int t[]={K_CALL,K_CALL,K_CALL,K_CALL,K_CLOS,K_CLOS,K_CLOS,K_LOOP,K_LOOP,K_LOOP,K_GOCALL,K_GOCLOS,K_GOLOOP,K_RAWCALL,K_RAWCLOS,K_RAWLOOP,K_JCALL,K_JCLOS,K_JLOOP,K_NATIVE}; k=t[r_(20)]; if(k==K_NATIVE&&pc(80)) k=K_LOOP; if(pf==PF_16&&k==K_NATIVE) k=K_CALL; }
    if(cap[i].dyn&&k!=K_LOOP&&k!=K_GOLOOP&&k!=K_RAWLOOP&&k!=K_JLOOP&&k!=K_CONV) continue;
    if((k==K_RAWCALL||k==K_RAWCLOS||k==K_RAWLOOP)&&!cap[i].raw) continue;
    if((k==K_JCALL||k==K_JCLOS||k==K_JLOOP)&&!cap[i].java) continue;
    return k; }
  return K_LOOP; }
static int flags_for(int pf){ int f=0; int st=pf==PF_21?90:10, me=pf==PF_16?60:12;
  if(pc(40)) f|=F_CLANG; if(pc(pf==PF_16||pf==PF_21?22:8)) f|=F_NULLRV; if(pc(me)) f|=F_RO; if(pc(me)) f|=F_EDGE; if(pc(pf==PF_16?75:35)) f|=F_SCRIB; if(pc(st)) f|=F_STATE; if(pc(pf==PF_21?80:35)) f|=F_ENTRY; if(pc(pf==PF_21?25:3)) f|=F_FPEXIT; if(pc(pf==PF_12?40:pf==PF_16?30:15)) f|=F_VEC; if(pc(30)) f|=F_VOIDRV; if(pc(50)) f|=F_OWNRAW; if(pf==PF_14?pc(12):r_(200)==0) f|=F_STEPSCRIB; return f; }
static struct plan*GP;
static int add_op(int pf,int th,int parent,int sig){ if(GP->nops>=MAXOPS) return -1; struct op*o=&GP->ops[GP->nops]; memset(o,0,sizeof *o); o->th=th; o->parent=parent; o->sig=sig; o->seed=rnd(&G)>>1;
  int f=parent>=0&&pc(pf==PF_13||pf==PF_12?50:25)?GP->ops[parent].ifc:(int)r_(GP->nif); o->ifc=f; o->kind=pf==PF_17&&pc(62)?K_PREP:pick_kind(pf,f); o->flags=flags_for(pf); return GP->nops++; }
static int step_n(int ph){ u32 r=r_(100); switch(ph){ case PH_c: return r<30?1+r_(60):r<80?1+r_(350):1+r_(1500); case PH_a: return 1+r_(r<60?60:160); case PH_C: return 1+r_(r<60?60:400); default: return 1+r_(r<70?40:120); } }
static void add_ev(int op,int ph,int n,int act,int arg){ if(GP->nev<MAXEV){ struct ev*e=&GP->ev[GP->nev++]; e->op=op; e->phase=ph; e->n=n; e->act=act; e->arg=arg; } }
static int rand_phase(void){ u32 r=r_(100); return r<35?PH_c:r<60?PH_a:r<80?PH_C:PH_A; }
static void gen(struct plan*p,int pf,u64 seed,long run){
  G=mix(seed*0x9e37+pf*1315423911ull)^mix(run*0x51ed27ull+77); memset(p,0,sizeof *p); GP=p; p->pool=rnd(&G)>>1;
  switch(pf){ case PF_12: p->nth=2+r_(3); break; case PF_13: p->nth=pc(70)?1:2; break; case PF_14: p->nth=pc(70)?1:2; break; case PF_15: p->nth=pc(55)?1:2; break; case PF_16: p->nth=pc(55)?1:2+r_(2); break; case PF_17: p->nth=pc(40)?1:2+r_(2); break; default: p->nth=pc(40)?1:2+r_(2); }
  p->nif=1+r_(pf==PF_12?4:pf==PF_13?4:6); for(int i=0;i<p->nif;i++){ p->ifc[i].sig=pc(25)?-1:(int)r_(NSG); p->ifc[i].dyn=rnd(&G)>>1;
    for(int g=0;g<30;g++){ caps(p,i); if(pf==PF_19&&!cap[i].raw&&pc(90)) ; else if(pf==PF_19&&!cap[i].java&&pc(50)) ; else break; if(p->ifc[i].sig>=0) p->ifc[i].sig=r_(NSG); else p->ifc[i].dyn=rnd(&G)>>1; }
    caps(p,i); }
  int style=r_(100);
  int tops=pf==PF_17?3+r_(10):pf==PF_12?2+r_(5):1+r_(4), childp=pf==PF_13?75:pf==PF_15?60:pf==PF_12?20:pf==PF_17?15:30, maxops=pf==PF_13||pf==PF_15?40:30;
  for(int t=0;t<p->nth;t++) for(int i=0;i<tops&&p->nops<maxops;i++){ int o=add_op(pf,t,-1,0);
    /* the tree below it */
    int cur=o; while(cur>=0&&p->nops<maxops&&p->ops[cur].kind!=K_PREP&&p->ops[cur].kind!=K_CONV&&pc(childp)){ int c=add_op(pf,t,cur,0); if(c<0) break; if(pc(25)) { int c2=add_op(pf,t,cur,0); (void)c2; } if(pc(80)) cur=c; else { while(p->ops[cur].parent>=0&&pc(50)) cur=p->ops[cur].parent; } } }
  int n0=p->nops;
  /* interruptions */
  int nsw=0,nsg=0; switch(pf){ case PF_12: nsw=3+r_(30); nsg=pc(20)?1+r_(2):0; break; case PF_13: nsw=p->nth>1?r_(12):0; nsg=pc(20)?1+r_(2):0; break; case PF_14: nsw=p->nth>1?r_(6):0; nsg=1+r_(6); break; case PF_15: nsw=p->nth>1?r_(8):0; nsg=pc(20)?1+r_(2):0; break; case PF_17: nsw=p->nth>1?2+r_(20):0; nsg=pc(25)?1:0; break; default: nsw=p->nth>1?1+r_(15):0; nsg=pc(35)?1+r_(3):0; }
  if(style<4) nsw=nsg=0;
  for(int i=0;i<nsg&&p->nops<MAXOPS-8;i++){ int o=r_(i&&pc(30)?p->nops:n0); if(p->ops[o].kind==K_CONV||p->ops[o].kind==K_NATIVE) continue; int s=add_op(pf,p->ops[o].th,o,1); if(s<0) break; p->ops[s].parent=o; if(pc(30)) add_op(pf,p->ops[o].th,s,0); int ph=rand_phase(),n=step_n(ph); add_ev(o,ph,n,1,s); if(pc(15)) for(int k=1;k<=(int)r_(6);k++) add_ev(o,ph,n+k,1,s); }
  for(int i=0;i<nsw;i++){ int o=r_(p->nops); u32 r=r_(100); int ph=r<70?rand_phase():r<90?PH_h:PH_t; int n=ph<=PH_A?step_n(ph):0; int t=r_(p->nth); add_ev(o,ph,n,0,t); if(pc(20)) for(int k=1;k<=(int)r_(8);k++) add_ev(o,ph,n+k*(1+r_(3)),0,r_(p->nth)); }
  /* leaving early */
  int ex=pf==PF_15?85:pf==PF_13||pf==PF_21||pf==PF_16?8:4; if(pf!=PF_12||pc(20)) for(int i=0;i<p->nops;i++) if(pc(ex)&&(pf==PF_15?pc(35):1)&&p->ops[i].kind!=K_PREP&&p->ops[i].kind!=K_CONV){ int k=i; while(p->ops[k].parent>=0&&!p->ops[k].sig&&pc(60)) k=p->ops[k].parent; p->ops[i].exitmode=pc(60)?X_THROW:X_JUMP; p->ops[i].exitto=k; }
  /* long histories: the same thing many times over, and the same thing within itself */
  if(pc(pf==PF_15||pf==PF_17?14:8)) for(int k=1+r_(2);k>0;k--){ int o=r_(p->nops), below=1; for(int i=o+1;i<p->nops;i++){ int a=i; while(a>o) a=p->ops[a].parent; if(a==o) below++; } p->ops[o].rep=2+r_((2u<<r_(9))); if(p->ops[o].rep*below>900) p->ops[o].rep=900/below;
    if(below<=2&&pc(3)){ /* long enough for a 16-bit count */ p->ops[o].rep=66000+r_(1500); p->ops[o].deep=0; p->ops[o].flags&=~F_STEPSCRIB; for(int i=o+1;i<p->nops;i++) if(p->ops[i].parent==o){ p->ops[i].flags&=~F_STEPSCRIB; p->ops[i].rep=p->ops[i].deep=0; } int e=0; for(int i=0;i<p->nev;i++) if(p->ops[p->ev[i].op].parent!=o&&p->ev[i].op!=o) p->ev[e++]=p->ev[i]; p->nev=e; break; } }
  if(pc(pf==PF_13?18:pf==PF_15?12:6)) for(int k=1+r_(2);k>0;k--){ int o=r_(p->nops); if(p->ops[o].kind==K_CONV||p->ops[o].kind==K_PREP||p->ops[o].sig) continue; { int up=o,big=0; while(up>=0){ if(p->ops[up].rep>1000) big=1; up=p->ops[up].parent; } if(big) continue; } p->ops[o].deep=1+r_(2u<<r_(8)); if(p->ops[o].rep>1&&p->ops[o].deep>8) p->ops[o].deep=8; }
}
/* ---------------- known findings ---------------- */
static char known[32][96]; static int nknown;
static void load_known(const char*f,const char*prop){ FILE*k=fopen(f,"r"); char l[512]; if(!k) return; while(fgets(l,sizeof l,k)){ char id[16],sig[96]; if(sscanf(l,"known: property=%15s signature=%95s",id,sig)==2&&!strcmp(id,prop)&&nknown<32) strcpy(known[nknown++],sig); } fclose(k); }
static int is_known(const char*sig){ for(int i=0;i<nknown;i++) if(!strcmp(known[i],sig)) return 1; return 0; }
static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static int cmpu(const void*a,const void*b){ u64 x=*(u64*)a,y=*(u64*)b; return x<y?-1:x>y; }
static void putj(const char*c){ for(;*c;c++){ if(*c=='\n') printf("; "); else if(*c!='"'&&*c!='\\'&&*c>=32) putchar(*c); } }
static u8 *seen_sig, *seen_pos;
int main(int ac,char**av){
  const char*prop="C12",*planf=0,*outp=0,*kf=0,*hashf=0,*one=0; u64 seed=1; long runs=1000,from=0,step=1; double tmax=1e9; int detcheck=50,showplan=0;
  for(int i=1;i<ac;i++){ if(!strcmp(av[i],"--prop")) prop=av[++i]; else if(!strcmp(av[i],"--seed")) seed=strtoull(av[++i],0,0); else if(!strcmp(av[i],"--runs")) runs=atol(av[++i]); else if(!strcmp(av[i],"--from")) from=atol(av[++i]); else if(!strcmp(av[i],"--step")) step=atol(av[++i]); else if(!strcmp(av[i],"--time")) tmax=atof(av[++i]); else if(!strcmp(av[i],"--plan")) planf=av[++i]; else if(!strcmp(av[i],"--out")) outp=av[++i]; else if(!strcmp(av[i],"--known")) kf=av[++i]; else if(!strcmp(av[i],"--hashes")) hashf=av[++i]; else if(!strcmp(av[i],"--verbose")) verbose=1; else if(!strcmp(av[i],"--det")) detcheck=atoi(av[++i]); else if(!strcmp(av[i],"--one")) one=av[++i]; else if(!strcmp(av[i],"--show")) showplan=1; }
  if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE)){ personality(personality(0xffffffff)|ADDR_NO_RANDOMIZE); execv("/proc/self/exe",av); }
  { int f0=open("/dev/null",O_RDONLY); dup2(f0,230); if(f0!=230) close(f0); }
  setenv("MALLOC_ARENA_MAX","1",1);
  S=mmap(0,sizeof *S,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  world_static();
  int pf=profile_of(prop); want_mask=props[pf].mask; static struct plan p;
  if(planf){ FILE*f=fopen(planf,"r"); if(!f||!parse_plan(f,&p)){ fprintf(stderr,"bad plan\n"); return 2; } fclose(f); run_plan(&p);
    if(verbose) fputs(S->log,stdout);
    printf("hash %016llx sched %016llx instructions %llu\n",(unsigned long long)S->hash,(unsigned long long)S->sched,(unsigned long long)S->instr);
    if(S->viol){ printf("REPRODUCED %s: %s\n",S->vsig,S->vmsg); return 1; } printf("no violation\n"); return 0; }
  if(one){ gen(&p,pf,seed,atol(one)); if(showplan) print_plan(stdout,&p); run_plan(&p); if(verbose) fputs(S->log,stdout); printf("run %s hash %016llx viol %d %s %s missed %u\n",one,(unsigned long long)S->hash,S->viol,S->vsig,S->vmsg,S->missed); return S->viol!=0; }
  if(kf) load_known(kf,prop);
  static struct { u64 runs,instr,sw,isw,sig,thr,jmp,calls,missed,fired,deeper,again,nontriv,det,other,known,preps,rejects,scr,ops,kinds[K_NKIND],nul,ro,edge,scrib,fpx,depth; } st;
  seen_sig=calloc(NSG+1,1);
  u64*hs=malloc(sizeof(u64)*(runs/step+2)); long nh=0; double t0=now(); int rc=0; char knownmsg[400]=""; static char sample[3][6000]; int nsample=0; u64 otherclass[V_NV]; memset(otherclass,0,sizeof otherclass);
  for(long i=from;i<runs;i+=step){
    if(now()-t0>tmax) break;
    gen(&p,pf,seed,i); run_plan(&p);
    st.runs++; st.instr+=S->instr; st.sw+=S->switches; st.isw+=S->instr_switches; st.sig+=S->signals; st.thr+=S->throws; st.jmp+=S->jumps; st.calls+=S->calls; st.missed+=S->missed; st.fired+=S->fired; st.deeper+=S->deeper; st.again+=S->again; st.preps+=S->preps; st.rejects+=S->rejects; st.scr+=S->scribbles; st.ops+=S->opdone; for(int k=0;k<K_NKIND;k++) st.kinds[k]+=S->kinds[k]; if(S->maxdepth>st.depth) st.depth=S->maxdepth;
    for(int k=0;k<p.nops;k++){ int f=p.ops[k].flags; st.nul+=!!(f&F_NULLRV); st.ro+=!!(f&F_RO); st.edge+=!!(f&F_EDGE); st.scrib+=!!(f&F_SCRIB); st.fpx+=!!(f&F_FPEXIT); } for(int k=0;k<p.nif;k++) seen_sig[p.ifc[k].sig<0?NSG:p.ifc[k].sig]=1;
    if(S->calls+S->preps&&(S->anyev||S->maxdepth>1||S->rejects||pf==PF_16||pf==PF_21||pf==PF_19)){ st.nontriv++; hs[nh++]=mix(S->sched)^mix(S->hash+3); }
    if(nsample<2&&S->anyev>2&&S->calls>1&&!S->viol&&p.nops<12){ FILE*f=fmemopen(sample[nsample],sizeof sample[0]-1,"w"); print_plan(f,&p); fclose(f); nsample++; }
    u64 h1=S->hash,s1=S->sched; int v1=S->viol; char sig[64]; strcpy(sig,S->vsig);
    if(v1&&is_known(sig)&&(want_mask>>v1&1)){ st.known++; if(!knownmsg[0]) snprintf(knownmsg,sizeof knownmsg,"%s: %s",sig,S->vmsg); continue; }
    if(v1&&!(want_mask>>v1&1)){ st.other++; otherclass[v1]++; if(getenv("SIM_SHOWOTHER")) fprintf(stderr,"other run %ld %s: %s\n",i,sig,S->vmsg); continue; }
    if(v1){ struct plan q=p; char m0[400]; strcpy(m0,S->vmsg); run_plan(&q);
      if(!S->viol||strcmp(S->vsig,sig)||S->hash!=h1){ fprintf(stderr,"NONREPRO run %ld: %s %s, again %s\n",i,sig,m0,S->viol?S->vmsg:"none"); rc=3; continue; }
      int mr=minimise(&q,sig,500); run_plan(&q); u64 ha=S->hash; char msg[400]; strcpy(msg,S->vmsg); run_plan(&q);
      if(S->hash!=ha||!S->viol){ fprintf(stderr,"NONDET minimised\n"); rc=3; continue; }
      if(outp){ FILE*f=fopen(outp,"w"); fprintf(f,"# property %s violation %s\n# %s\n# found by seed %llu run %ld; minimised in %d runs; event hash %016llx\n",prop,sig,msg,(unsigned long long)seed,i,mr,(unsigned long long)ha); print_plan(f,&q); fclose(f); }
      printf("{\"violation\":\"%s\",\"msg\":\"",sig); putj(msg); printf("\",\"run\":%ld}\n",i); rc=1; break; }
    if(detcheck&&(i/step)%detcheck==0){ st.det++; run_plan(&p); if(S->hash!=h1||S->sched!=s1){ fprintf(stderr,"NONDETERMINISM run %ld\n",i); rc=3; break; } }
  }
  double el=now()-t0; qsort(hs,nh,sizeof(u64),cmpu); long d=0; for(long i=0;i<nh;i++) if(!i||hs[i]!=hs[i-1]) hs[d++]=hs[i];
  if(hashf){ FILE*f=fopen(hashf,"w"); fwrite(hs,8,d,f); fclose(f); }
  int ns=0; for(int i=0;i<NSG;i++) ns+=seen_sig[i];
#define U(n,x) printf(",\"" n "\":%llu",(unsigned long long)(x))
  printf("{\"stats\":1,\"wall\":%.3f",el); U("runs",st.runs); U("distinct",d); U("nontrivial",st.nontriv); U("yields",st.instr); U("syscalls",st.calls); U("switches",st.sw); U("calls_and_callbacks",st.calls); U("ops",st.ops); U("ops_skipped",st.missed); U("det_checked",st.det); U("other",st.other); U("known_hits",st.known); U("preparations",st.preps); U("max_depth",st.depth); U("repeated_operations",st.again); U("self_nested_operations",st.deeper); U("max_signatures_used_by_a_worker",ns);
  printf(",\"faults\":{\"switch_between_instructions\":%llu,\"switch_in_callee_or_between_calls\":%llu,\"signal_between_instructions\":%llu,\"exception\":%llu,\"long_jump\":%llu,\"signal_stack_overwrites_below_red_zone\":%llu,\"rejected_preparation\":%llu,\"null_result\":%llu,\"readonly_arguments\":%llu,\"buffers_at_page_end\":%llu,\"callee_overwrites_parameters\":%llu,\"callee_changes_fp_settings\":%llu}",(unsigned long long)st.isw,(unsigned long long)(st.sw-st.isw),(unsigned long long)st.sig,(unsigned long long)st.thr,(unsigned long long)st.jmp,(unsigned long long)st.scr,(unsigned long long)st.rejects,(unsigned long long)st.nul,(unsigned long long)st.ro,(unsigned long long)st.edge,(unsigned long long)st.scrib,(unsigned long long)st.fpx);
  printf(",\"kinds\":{"); for(int k=0;k<K_NKIND;k++) printf("%s\"%s\":%llu",k?",":"",kname[k],(unsigned long long)st.kinds[k]); printf("},\"othercls\":{"); { int c=0; for(int k=0;k<V_NV;k++) if(otherclass[k]) printf("%s\"%s\":%llu",c++?",":"",vname[k],(unsigned long long)otherclass[k]); }
  printf("},\"known_msg\":\""); putj(knownmsg); printf("\",\"samples\":["); for(int i=0;i<nsample;i++){ printf("%s\"",i?",":""); putj(sample[i]); printf("\""); } printf("]}\n");
  return rc; }
