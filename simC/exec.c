/* exec.c: executes plans for the 32-bit x86 port, one forked process per plan; freestanding (there is no 32-bit C
   library here).  stdin: one plan per line; stdout: one verdict per plan. */
#include <ffi.h>
#include <ffi_common.h>
#include <stdarg.h>
#include "corpus32.h"
typedef unsigned char u8; typedef unsigned int u32; typedef unsigned long long u64;
enum { K_U8,K_I8,K_U16,K_I16,K_U32,K_I32,K_PTR,K_F32,K_U64,K_I64,K_F64,K_LD,K_CF,K_CD,K_CLD,K_VOID };
#define NI __attribute__((noinline))
#define MAXOP 24
#define MAXEV 24
#define NFIB 3
#define MAXA 220
/* ---- system calls ---- */
static int sc(int n,int a,int b,int c,int d,int e){ int r; register int D asm("esi")=d; register int E asm("edi")=e; asm volatile("int $0x80":"=a"(r):"a"(n),"b"(a),"c"(b),"d"(c),"r"(D),"r"(E):"memory"); return r; }
static void die(int c){ for(;;) sc(252,c,0,0,0,0); }
static void *map(u32 n,int prot){ int a[6]={0,(int)n,prot,0x22,-1,0}; return (void*)sc(90,(int)a,0,0,0,0); }
static int protect(void*p,u32 n,int pr){ return sc(125,(int)p,n,pr,0,0); }
static char ob[4096]; static int on_;
static void oc(char c){ if(on_<4090) ob[on_++]=c; }
static void flush(void){ int o=0; while(o<on_){ int r=sc(4,1,(int)ob+o,on_-o,0,0); if(r<=0) break; o+=r; } on_=0; }
static void num(u32 v,int base,int min){ char b[16]; int n=0; do{ b[n++]="0123456789abcdef"[v%base]; v/=base; }while(v||n<min); while(n) oc(b[--n]); }
static void fmtv(const char*f,va_list ap){ for(;*f;f++){ if(*f!='%'){ oc(*f); continue; } f++; if(*f=='d'){ int v=va_arg(ap,int); if(v<0){ oc('-'); v=-v; } num(v,10,1); } else if(*f=='x') num(va_arg(ap,u32),16,1); else if(*f=='b') num(va_arg(ap,u32),16,2); else if(*f=='s'){ const char*s=va_arg(ap,const char*); while(*s) oc(*s++); } } }
static void pr(const char*f,...){ va_list ap; va_start(ap,f); fmtv(f,ap); va_end(ap); }
void *memcpy(void*d,const void*s,__SIZE_TYPE__ n){ u8*a=d; const u8*b=s; while(n--){ *a++=*b++; asm volatile(""); } return d; }
void *memmove(void*d,const void*s,__SIZE_TYPE__ n){ u8*a=d; const u8*b=s; if(a<b) while(n--){ *a++=*b++; asm volatile(""); } else while(n--){ a[n]=b[n]; asm volatile(""); } return d; }
void *memset(void*d,int c,__SIZE_TYPE__ n){ u8*a=d; while(n--){ *a++=c; asm volatile(""); } return d; }
int memcmp(const void*d,const void*s,__SIZE_TYPE__ n){ const u8*a=d,*b=s; for(;n--;a++,b++) if(*a!=*b) return *a-*b; return 0; }
/* ---- the plan ---- */
struct op { int kind,ifc,th,parent,sig,fl,seed; int nev; } ; struct ev { int op,n,act,arg; };
enum { CALL,CLOS,LOOP,NATIVE,GOCALL,GOCLOS,RAWCALL,RAWCLOS,RAWLOOP,NKIND };
enum { F_NORES=1, F_JUMP=2, F_STATIC=4, F_EDGE=8 };
static struct { int nif,sig[4],nf,nop; struct op op[MAXOP]; int nev; struct ev ev[MAXEV]; } P;
struct iface { const struct sigd*g; ffi_cif*cif; ffi_type**at,*rt; int rawok,chain; struct clo { void*w,*code; int ifc,kind; } clo[NKIND][2]; ffi_go_closure*go; int pop,popok; };
static struct iface I[4];
struct wc { void*fn; u32 a[5]; u32 ebx,esi,edi; u32 bad,fl,step; u32 res,esp; };
struct tf { u32 ret,ebx,esi,edi,ebp,code,esp,chreg,chain,sbx,ssi,sdi,sbp,bad,espa,fl,step,pad[3]; };
struct act { struct act*up; struct op*o; int id; struct iface*f; int cnt,hooked,nchild; u8*gold[MAXA]; void*av[MAXA]; u8*res,*want; u32 rs; u32 jb[6]; struct wc*w; struct tf*sh; int pend; void*chain; };
static struct fib { int id,done; u32 sp; u32 sh; struct act*a; u8*stack,*ar,*ap,*edge; int ebusy; u32 gs; } F[NFIB],*self; static int nfib_live;
u32 g_esp,g_eax,g_ecx,g_fl,g_ta,g_tc,g_sh,g_code,g_pr[4]; extern char wcret[],ctret[]; extern u8 ehb[];
extern void wcall(struct wc*),cthunk(void),fswitch(u32*,u32*),sigret(void); extern int jset(u32*) __attribute__((returns_twice)); extern void jgo(u32*) __attribute__((noreturn));
extern char __start_ffitext[],__stop_ffitext[],__start_ffiasm[],__stop_ffiasm[];
static u32 tsz,tmap; static u8*ro,*rop; static u8*xm,*tt; static int nx;
static struct { u32 instr,calls,sw,traps,jumps,sigops; u32 h; } S;
static void lg(u32 v){ S.h=(S.h^v)*16777619u; S.h^=S.h>>13; }
static int vdone;
#define viol(c,...) do{ on_=0; pr("V "c"|"); pr(__VA_ARGS__); struct act*_a=self?self->a:0; if(_a) pr(" [op %d, signature %d, abi %d]",_a->id,(int)(_a->f->g-SG),_a->f->g->abi); oc('\n'); flush(); die(1); }while(0)
void abort(void){ viol("crash","the library aborted"); for(;;); }
int ffi_tramp_is_present(void*c){ u8*p=c; return p>=xm&&p<xm+8192&&((p-xm)/64&1); }
void ffi_tramp_set_parms(void*t,void*a,void*b){ void**p=t; p[0]=b; p[1]=a; }
static u32 rs_; static u32 rnd(void){ rs_^=rs_<<13; rs_^=rs_>>17; rs_^=rs_<<5; return rs_; }
static void seed(u32 s){ rs_=s*2654435761u^0x9e3779b9u; if(!rs_) rs_=7; rnd(); rnd(); }
static void *ral(u32 n,u32 a){ u8*p=(u8*)(((u32)rop+a-1)/a*a); rop=p+n; return p; }
static u8 *al(u32 n,u32 a){ u8*p=(u8*)(((u32)self->ap+a-1)/a*a); self->ap=p+n; if(self->ap>self->ar+0x80000) die(9); return p; }
static int pend(struct act*a){ for(int i=0;i<P.nev;i++) if(P.ev[i].op==a->id&&P.ev[i].n>a->cnt) return 1; return 0; }
static void tfon(void){ asm volatile("pushfl; orl $0x100,(%%esp); popfl":::"memory","cc"); }
static void tfoff(void){ asm volatile("pushfl; andl $~0x100,(%%esp); popfl":::"memory","cc"); }
static void exec(int id);
static void setgs(void){ asm volatile("movl %0,%%gs"::"r"(self->gs)); }
static void sw(int to){ struct fib*t=&F[to%NFIB]; if(t==self||t->done||!t->sp) return; struct fib*o=self; lg(0x51+t->id); S.sw++; o->sh=g_sh; self=t; g_sh=t->sh; fswitch(&o->sp,&t->sp); setgs(); }
/* ---- signals ---- */
struct usc { u32 gs,fs,es,ds,edi,esi,ebp,esp,ebx,edx,ecx,eax,trapno,err,eip,cs,efl,esps,ss; };
struct uctx { u32 flags; void*link; u32 sp,sfl,ssz; struct usc m; };
/* everything between the saved state and the interrupted stack is nobody's */
static void gap(struct uctx*u){ u8*fp=*(u8**)((u8*)&u->m+sizeof u->m); u8*sp=(u8*)u->m.esp; if(!fp||fp>=sp||*(u32*)(fp+112+464)!=0x46505853) return; u8*e=fp+*(u32*)(fp+112+468); if(e<=sp&&sp-e<512) memset(e,0xa7,sp-e); }
static void on_trap(int s,void*si,struct uctx*u){ S.traps++; gap(u); char*ip=(char*)u->m.eip; struct act*a=self->a;
  if(!a){ u->m.efl&=~0x100u; return; }
  if(S.traps>60000) u->m.efl&=~0x100u;
  if(u->m.efl&0x400) viol("machine-state","the direction flag is set in library code");
  if((ip>=__start_ffitext&&ip<__stop_ffitext)||(ip>=__start_ffiasm&&ip<__stop_ffiasm)||((u8*)ip>=xm&&(u8*)ip<xm+8192)||((u8*)ip>=tt&&(u8*)ip<tt+4096)){ a->cnt++; S.instr++;
    for(int i=0;i<P.nev;i++){ struct ev*e=&P.ev[i]; if(e->op!=a->id||e->n!=a->cnt) continue; tfoff(); lg(0x70000+e->n);
      if(e->act==0) sw(e->arg); else { S.sigops++; u8 big[512]; memset(big,0xa7,sizeof big); asm volatile(""::"r"(big):"memory"); struct act*keep=self->a; int ch=0; for(int c=0;c<P.nop;c++) if(P.op[c].parent==a->id&&P.op[c].sig==1&&ch++==(e->arg)) exec(c); self->a=keep; } } }
  if(!pend(a)) u->m.efl&=~0x100u; }
static void on_crash(int s,int*si,struct uctx*u){ u32 ip=u->m.eip; char*c=(char*)ip; int lib=(c>=__start_ffitext&&c<__stop_ffitext)||(c>=__start_ffiasm&&c<__stop_ffiasm); u8*ad=(u8*)si[3];
  if(s==26||s==27||s==14) viol("hang","no progress");
  if(s==11&&self&&self->edge&&ad>=self->edge+0x10000&&ad<self->edge+0x11000) viol("read-outside","access past the end of the caller's data (%s)",lib?"library code":"other code");
  if(s==11&&ad>=ro&&ad<ro+0x400000) viol("write-to-callers-memory","write to an interface, type or vector (%s)",lib?"library code":"other code");
  viol("crash","signal %d in %s",s,lib?"library code":"other code"); }
struct ksa { void*h; u32 fl; void*rest; u32 m[2]; };
static void setsig(int s,void*h,u32 fl){ struct ksa k={h,fl|0x04000004u,sigret,{0,0}}; sc(174,s,(int)&k,0,8,0); }
/* ---- types, interfaces ---- */
static ffi_type*ft[400]; static ffi_type*B(int k){ switch(k){ case K_U8:return &ffi_type_uint8; case K_I8:return &ffi_type_sint8; case K_U16:return &ffi_type_uint16; case K_I16:return &ffi_type_sint16; case K_U32:return &ffi_type_uint32; case K_I32:return &ffi_type_sint32; case K_PTR:return &ffi_type_pointer; case K_F32:return &ffi_type_float; case K_U64:return &ffi_type_uint64; case K_I64:return &ffi_type_sint64; case K_F64:return &ffi_type_double; case K_LD:return &ffi_type_longdouble; case K_CF:return &ffi_type_complex_float; case K_CD:return &ffi_type_complex_double; case K_CLD:return &ffi_type_complex_longdouble; } return &ffi_type_void; }
static ffi_type*ty(int t){ const struct tdesc*d=&TD[t]; if(d->kind!=99) return B(d->kind); if(ft[t]) return ft[t]; ffi_type*x=ral(sizeof*x,4); x->size=x->alignment=0; x->type=FFI_TYPE_STRUCT; x->elements=ral(4*(d->nel+1),4); ft[t]=x; for(int i=0;i<d->nel;i++) x->elements[i]=ty(d->el[i]); x->elements[d->nel]=0; return x; }
/* a raw thiscall closure takes its first argument from a register, so it must be one that goes there */
static int rawclos(struct iface*f,struct op*o){ return f->rawok&&(f->g->abi==FFI_SYSV||!f->g->nargs||TD[f->g->args[0]].kind<=K_PTR); }
static void hs(ffi_cif*,void*,void**,void*); static void hr(ffi_cif*,void*,ffi_raw*,void*); static void hg(ffi_cif*,void*,void**,void*);
static struct gox { ffi_go_closure g; u32 magic; int ifc; } *gx[4];
static void setup(void){ for(int n=0;n<P.nif;n++){ struct iface*f=&I[n]; memset(f,0,sizeof*f); f->g=&SG[P.sig[n]%NSG]; const struct sigd*g=f->g; f->cif=ral(sizeof(ffi_cif),16); f->at=ral(4*(g->nargs+1),4); for(int i=0;i<g->nargs;i++) f->at[i]=ty(g->args[i]); f->rt=ty(g->ret);
   int st=g->nfixed<0?ffi_prep_cif(f->cif,g->abi,g->nargs,f->rt,f->at):ffi_prep_cif_var(f->cif,g->abi,g->nfixed,g->nargs,f->rt,f->at); if(st) viol("prepare","signature %d rejected with status %d",(int)(g-SG),st);
   for(int i=-1;i<g->nargs;i++){ int t=i<0?g->ret:g->args[i]; if(TD[t].kind!=K_VOID&&(ty(t)->size!=(u32)TD[t].size||ty(t)->alignment!=TD[t].align)) viol("prepare","type %d laid out with size %d alignment %d",t,(int)ty(t)->size,(int)ty(t)->alignment); }
   f->rawok=(g->abi==FFI_SYSV||g->abi==FFI_THISCALL)&&g->nfixed<0; for(int i=-1;i<g->nargs;i++){ int k=TD[i<0?g->ret:g->args[i]].kind; if(k>=K_LD&&!(k==K_VOID&&i<0)) f->rawok=0; }
   f->chain=g->abi==FFI_THISCALL||g->abi==FFI_FASTCALL?1:2;
   gx[n]=ral(sizeof**gx,8); gx[n]->magic=0x60c10+n; gx[n]->ifc=n; if(ffi_prep_go_closure(&gx[n]->g,f->cif,hg)) viol("prepare","go closure rejected"); }
  for(int i=0;i<P.nop;i++){ struct op*o=&P.op[i]; struct iface*f=&I[o->ifc]; int k=o->kind==LOOP?CLOS:o->kind==RAWLOOP?RAWCLOS:o->kind; if(k!=CLOS&&k!=RAWCLOS) continue; int s=(o->fl&F_STATIC)?1:0; struct clo*c=&f->clo[k][s]; if(c->w) continue; if(k==RAWCLOS&&!rawclos(f,o)) continue;
    nx+=(nx&1)!=s; if(nx>=126) die(9); u8*w=xm+64*nx++; memset(w,0xd7,64); c->w=w; c->code=s?tt+tsz*((w-xm)/64/2):w; c->ifc=o->ifc; c->kind=k; if(s) ((ffi_closure*)w)->ftramp=tt+tmap+tsz*((w-xm)/64/2);
    int st=k==CLOS?ffi_prep_closure_loc((ffi_closure*)w,f->cif,hs,c,c->code):ffi_prep_raw_closure_loc((ffi_raw_closure*)w,f->cif,hr,c,c->code); if(st) viol("prepare","closure preparation returned %d",st); } }
/* ---- values ---- */
static void gleaf(u8*p,int k){ int n=k==K_LD?10:TD[k].size; for(int i=0;i<n;i++) p[i]=rnd()>>9; u32 q=rnd()%8; if(k<=K_PTR||k==K_U64||k==K_I64){ if(q==0) memset(p,0xff,n); else if(q==1){ memset(p,0,n); p[n-1]=0x80; } else if(q==2) memset(p,0,n); }
  else if(k==K_F32||k==K_F64){ p[n-1]&=0xbf; p[n-1]|=0x10; } else { p[7]|=0x80; p[9]&=0xbf; p[9]|=0x10; } }
static void gval(u8*p,int t){ const struct tdesc*d=&TD[t]; for(int i=0;i<d->size;i++) p[i]=rnd()>>11; for(int i=0;i<d->nleaf;i++) gleaf(p+d->lf[i].off,d->lf[i].kind); }
static int veq(int t,const u8*a,const u8*b){ const struct tdesc*d=&TD[t]; for(int i=0;i<d->nleaf;i++) if(memcmp(a+d->lf[i].off,b+d->lf[i].off,d->lf[i].len)) return 0; return 1; }
static int wd(int k,const u8*p){ switch(k){ case K_U8:return *p; case K_I8:return *(signed char*)p; case K_U16:return *(unsigned short*)p; case K_I16:return *(short*)p; default:return *(int*)p; } }
static u32 rsize(struct iface*f){ int k=TD[f->g->ret].kind; return k==K_VOID?0:k<=K_PTR?4:TD[f->g->ret].size; }
/* ---- callee ---- */
static NI void hook(struct act*a,void**pp,const long long*w,u8*res,int handler){ struct iface*f=a->f; const struct sigd*g=f->g;
  if(a->hooked++) viol("identity","the callee was entered twice for one call"); S.calls++; lg(0xca11+a->id);
  for(int i=0;i<g->nargs;i++){ int t=g->args[i]; u8*x=pp[i]; if(!veq(t,x,a->gold[i])) viol("arguments","argument %d of %d arrived as %b%b%b%b instead of %b%b%b%b",i,g->nargs,x[0],TD[t].size>1?x[1]:0,TD[t].size>2?x[2]:0,TD[t].size>3?x[3]:0,a->gold[i][0],TD[t].size>1?a->gold[i][1]:0,TD[t].size>2?a->gold[i][2]:0,TD[t].size>3?a->gold[i][3]:0);
    if(w&&TD[t].kind<K_PTR&&(int)w[i]!=wd(TD[t].kind,a->gold[i])) viol("arguments","argument %d of %d: seen at full width as %x instead of %x",i,g->nargs,(u32)w[i],wd(TD[t].kind,a->gold[i])); }
  struct act*keep=self->a; for(int c=0;c<P.nop;c++) if(P.op[c].parent==a->id&&P.op[c].sig==0) exec(c); if(a->o->seed&1) sw(self->id+1); self->a=keep;
  for(int i=0;i<g->nargs;i++) if(!veq(g->args[i],pp[i],a->gold[i])) viol("arguments","argument %d of %d changed while the callee ran",i,g->nargs);
  if(a->o->fl&F_JUMP&&!(a->o->sig)){ S.jumps++; jgo(a->jb); }
  int t=g->ret,k=TD[t].kind; if(k==K_VOID) return; if(handler&&k<=K_PTR){ *(int*)res=wd(k,a->want); return; }
  if(k==99) memcpy(res,a->want,TD[t].size); else for(int i=0;i<TD[t].nleaf;i++) memcpy(res+TD[t].lf[i].off,a->want+TD[t].lf[i].off,TD[t].lf[i].len); }
/* ---- unwinding by the library's tables, as an exception thrown at the callee's or handler's entry would ---- */
static struct fde { u32 lo,len; u8*p,*e; u8*cp,*ce; int da; u32 ca; } fd[512]; static int nfd;
static u32 ul(u8**p){ u32 v=0,s=0; u8 b; do{ b=*(*p)++; v|=(u32)(b&127)<<s; s+=7; }while(b&128); return v; }
static int sl_(u8**p){ int v=0,s=0; u8 b; do{ b=*(*p)++; v|=(int)(b&127)<<s; s+=7; }while(b&128); if(s<32&&b&64) v|=-(1<<s); return v; }
static u32 g4(u8*p){ u32 v; memcpy(&v,p,4); return v; }
static void ehread(void){ for(u8*p=ehb;g4(p);p+=g4(p)+4){ u8*e=p+4+g4(p); if(!g4(p+4)) continue; u8*c=p+4-g4(p+4),*q=c+9; const char*au=(char*)q; while(*q) q++; q++; struct fde*f=&fd[nfd]; f->ca=ul(&q); f->da=sl_(&q); ul(&q); int enc=0;
    if(*au=='z'){ u8*x; u32 n=ul(&q); x=q; q+=n; for(au++;*au;au++) if(*au=='R') enc=*x++; else if(*au=='L') x++; else if(*au!='S') break; }
    f->cp=q; f->ce=c+4+g4(c); q=p+8; if((enc&15)!=0&&(enc&15)!=11&&(enc&15)!=3) continue; f->lo=g4(q)+((enc&0x70)==0x10?(u32)q:0); f->len=g4(q+4); q+=8; u32 n=ul(&q); f->p=q+n; f->e=e; if(nfd<511) nfd++; } }
struct row { int cr,co,how[9],at[9]; };
static int cfa(struct fde*f,u8*p,u8*e,u32 pc,struct row*r,const struct row*init){ u32 loc=f->lo; static struct row st[4]; int ns=0;
  while(p<e){ u8 o=*p++,n=o&63; switch(o&0xc0){ case 0x40: loc+=n*f->ca; if(loc>pc) return 1; continue; case 0x80: if(n>8) return 0; r->how[n]=1; r->at[n]=ul(&p)*f->da; continue; case 0xc0: if(n>8) return 0; r->how[n]=init->how[n]; r->at[n]=init->at[n]; continue; }
    switch(o){ case 0: break; case 2: loc+=*p++*f->ca; if(loc>pc) return 1; break; case 3: loc+=(p[0]|p[1]<<8)*f->ca; p+=2; if(loc>pc) return 1; break; case 4: loc+=g4(p)*f->ca; p+=4; if(loc>pc) return 1; break;
      case 5: n=ul(&p); if(n>8) return 0; r->how[n]=1; r->at[n]=ul(&p)*f->da; break; case 8: n=ul(&p); if(n>8) return 0; r->how[n]=0; break; case 0xa: if(ns==4) return 0; st[ns++]=*r; break; case 0xb: if(!ns) return 0; *r=st[--ns]; break;
      case 0xc: r->cr=ul(&p); r->co=ul(&p); break; case 0xd: r->cr=ul(&p); break; case 0xe: r->co=ul(&p); break; case 0x2e: ul(&p); break; default: return 0; } }
  return 1; }
static int unw(u32*r){ for(int i=0;i<nfd;i++) if(r[8]-1-fd[i].lo<fd[i].len){ struct row w,in; memset(&w,0,sizeof w); memset(&in,0,sizeof in); w.cr=4; if(!cfa(&fd[i],fd[i].cp,fd[i].ce,~0u,&w,&in)) return -1; in=w; if(!cfa(&fd[i],fd[i].p,fd[i].e,r[8]-1,&w,&in)) return -1; if(w.cr>8) return -1;
    u32 c=r[w.cr]+w.co; if(c<r[4]||c>r[4]+0x100000) return -2; for(int k=0;k<9;k++) if(w.how[k]) r[k]=g4((u8*)c+w.at[k]); r[4]=c; return 1; } return 0; }
static void unwind(struct act*a,u32 esp,const u32*pr_){ u32 r[9]; for(int i=0;i<9;i++) r[i]=0xdead0000u; r[3]=pr_[0]; r[6]=pr_[1]; r[7]=pr_[2]; r[5]=pr_[3]; r[8]=g4((u8*)esp); r[4]=esp+4; int k=a->o->kind; if(k==NATIVE) return;
  for(int n=0;n<12;n++){
    if(r[8]==(u32)wcret){ if(k==CLOS||k==RAWCLOS||k==GOCLOS) viol("unwinding","unwinding missed the frame of the callback's caller"); struct wc*w=a->w; if(r[4]!=w->esp||r[3]!=w->ebx||r[6]!=w->esi||r[7]!=w->edi||g4((u8*)r[5]+8)!=(u32)w) viol("unwinding","unwinding from the callee to the caller of the library gives other registers than the caller's"); return; }
    if(r[8]==(u32)ctret){ if(k!=CLOS&&k!=RAWCLOS&&k!=GOCLOS) viol("unwinding","unwinding missed the frame of the call's caller"); struct tf*t=(struct tf*)g_sh-1; if(r[4]!=t->esp||r[3]!=t->sbx||r[6]!=t->ssi||r[7]!=t->sdi||r[5]!=t->sbp) viol("unwinding","unwinding from the handler to the closure's caller gives other registers than the caller's"); return; }
    int q=unw(r); if(q==-1) return; if(q<=0) viol("unwinding","no caller found by unwinding (frame %d)",n); }
  viol("unwinding","unwinding does not end"); }
void hookc(int k,void**pp,const long long*w,void*res){ tfoff(); struct act*a=self->a; u32 esp=g_esp,eax=g_eax,ecx=g_ecx,fl=g_fl;
  if(!a||&SG[k]!=a->f->g) viol("identity","a callee was reached that this fiber is not calling");
  if(a->o->kind==CLOS||a->o->kind==LOOP||a->o->kind>=GOCLOS&&a->o->kind!=RAWCALL) viol("identity","a native callee was reached instead of the handler"); unwind(a,esp,g_pr);
  if(fl&0x400) viol("machine-state","the direction flag is set at the callee's entry"); if(a->o->kind!=NATIVE&&((esp+4)&15)) viol("machine-state","the stack is misaligned at the callee's entry (%x)",(esp+4)&15);
  if(a->o->kind==GOCALL&&(a->f->chain==1?eax:ecx)!=(u32)a->chain) viol("static-chain","the static chain arrived as %x",a->f->chain==1?eax:ecx);
  if(a->o->kind!=NATIVE&&(a->f->g->abi==FFI_SYSV||a->f->g->abi==FFI_STDCALL||a->f->g->abi==FFI_MS_CDECL)){ const struct sigd*g=a->f->g; int rk=TD[g->ret].kind; u8*q=(u8*)esp+4+((rk==99||rk==K_CD||rk==K_CLD)?4:0);
    for(int i=0;i<g->nargs;i++){ int t=g->args[i]; if(TD[t].kind<K_PTR&&*(int*)q!=wd(TD[t].kind,a->gold[i])) viol("arguments","argument %d of %d fills its place on the stack as %x instead of %x",i,g->nargs,*(u32*)q,wd(TD[t].kind,a->gold[i])); q+=(TD[t].size+3)&~3; } }
  hook(a,pp,w,res,0); if(pend(a)) tfon(); }
static void ali(const void*cfa){ struct tf*t=(struct tf*)g_sh-1; int k=self->a?self->a->o->kind:LOOP; if((k==LOOP||k==RAWLOOP||!(t->esp&15))&&(u32)cfa&15) viol("machine-state","the stack is misaligned at the handler's entry (%x)",(u32)cfa&15); }
static void handler(ffi_cif*cif,void*r,void**pp,struct clo*c,int kind,int low){ struct act*a=self->a;
  if(!a||c!=&a->f->clo[kind][low]||cif!=a->f->cif) viol("identity","another closure's handler, or another interface, was reached"); if(a->o->kind!=kind&&a->o->kind!=kind+(kind==CLOS?1:1)) viol("identity","a handler was reached by a call of another kind"); u8*res=r;
  if(TD[a->f->g->ret].kind==99&&a->res!=res&&a->o->kind!=CLOS&&a->o->kind!=RAWCLOS&&!(a->o->fl&F_NORES)) viol("results","the handler's result is not where the caller asked for it");
  hook(a,pp,0,res,1); if(pend(a)) tfon(); }
extern void hs(ffi_cif*cif,void*r,void**pp,void*u); void hs_c(ffi_cif*cif,void*r,void**pp,void*u){ tfoff(); u32 he=g_esp; ali((void*)(he+4)); if(self->a) unwind(self->a,he,g_pr); struct clo*c=u; handler(cif,r,pp,c,CLOS,self->a&&(self->a->o->fl&F_STATIC)?1:0); }
extern void hr(ffi_cif*cif,void*r,ffi_raw*q,void*u); void hr_c(ffi_cif*cif,void*r,ffi_raw*q,void*u){ tfoff(); u32 he=g_esp; ali((void*)(he+4)); if(self->a) unwind(self->a,he,g_pr); struct act*a=self->a; void*pp[MAXA]; if(!a) viol("identity","handler without a call"); for(int i=0;i<a->f->g->nargs;i++){ pp[i]=q; q+=(TD[a->f->g->args[i]].size+3)/4; } handler(cif,r,pp,u,RAWCLOS,(a->o->fl&F_STATIC)?1:0); }
extern void hg(ffi_cif*cif,void*r,void**pp,void*u); void hg_c(ffi_cif*cif,void*r,void**pp,void*u){ tfoff(); u32 he=g_esp; ali((void*)(he+4)); if(self->a) unwind(self->a,he,g_pr); struct act*a=self->a; if(!a||a->o->kind!=GOCLOS||u!=(void*)gx[a->o->ifc]||gx[a->o->ifc]->magic!=(u32)0x60c10+a->o->ifc||cif!=a->f->cif) viol("static-chain","a Go handler did not get its own closure"); hook(a,pp,0,r,1); if(pend(a)) tfon(); }
/* ---- one call ---- */
static void fpcheck(struct act*a,int after){ struct { u32 cw,sw_,tw,x[4]; } e; asm volatile("fnstenv %0; fldenv %0":"=m"(e)); u32 mx; asm volatile("stmxcsr %0":"=m"(mx)); if((e.tw&0xffff)!=0xffff) viol("machine-state","the floating-point stack is not empty after the call"); if((e.cw&0xffff)!=0x37f||(mx&~0x3fu)!=0x1f80) viol("machine-state","the floating-point modes changed"); }
static NI void native(struct iface*f,void*code,struct act*a,u32 chreg,u32 chain,int step,u8*r){ struct tf*t=(struct tf*)g_sh; memset(t,0,sizeof*t); t->code=(u32)code; t->chreg=chreg; t->chain=chain; t->sbx=0x5b000000u+a->o->seed; t->ssi=0x51000000u+a->o->seed; t->sdi=0xd1000000u+a->o->seed; t->sbp=0xb9000000u+a->o->seed; t->step=step; t->pad[0]=a->o->kind==NATIVE?-1:f->pop; f->g->lc((void*)cthunk,a->av,r); tfoff(); t=(struct tf*)g_sh;
  u32 delta=t->espa-t->esp; if(t->bad) viol("machine-state","registers a callee must preserve changed across a callback (%x)",t->bad); if(t->fl&0x400) viol("machine-state","the direction flag is set after a callback"); if(a->o->kind==NATIVE){ f->pop=delta; f->popok=1; } else if(TD[f->g->ret].kind<=K_PTR&&(int)t->pad[1]!=wd(TD[f->g->ret].kind,a->want)) viol("results","a callback's result is %x at full width instead of %x",t->pad[1],wd(TD[f->g->ret].kind,a->want)); else if((int)delta!=f->pop) viol("machine-state","a callback removed %d bytes of arguments instead of %d",(int)delta,f->pop); }
void badpop(void){ struct tf*t=(struct tf*)g_sh; viol("machine-state","a callback removed %d bytes of arguments instead of %d",(int)(t->espa-t->esp),(int)t->pad[0]); }
static NI void one(int id,int kind){ struct op*o=&P.op[id]; static struct op no[NFIB]; struct iface*f=&I[o->ifc]; const struct sigd*g=f->g; struct act A,*a=&A; u8*ap0=self->ap; struct act*up=self->a;
  memset(a,0,sizeof*a); a->up=up; a->id=id; a->o=o; a->f=f; if(kind!=o->kind){ no[self->id]=*o; no[self->id].kind=kind; no[self->id].fl=0; no[self->id].seed&=~1; a->o=&no[self->id]; a->id=1000+id; }
  int edge=(a->o->fl&F_EDGE)&&!self->ebusy; u8*top=self->edge+0x10000; int raw=kind>=RAWCALL; struct fib*me=self;
  seed(o->seed*977u+kind); static const u8 z; u8*sv[MAXA]; for(int i=0;i<g->nargs;i++){ int t=g->args[i]; a->gold[i]=al(TD[t].size+4,16); gval(a->gold[i],t); if(edge&&!raw){ top=(u8*)(((u32)top-TD[t].size)&~(TD[t].align-1u)); sv[i]=top; } else sv[i]=al(TD[t].size+4,TD[t].align); memcpy(sv[i],a->gold[i],TD[t].size); a->av[i]=sv[i]; }
  a->want=al(TD[g->ret].size+16,16); gval(a->want,g->ret); u32 rs=rsize(f); u8*res=al(rs+64,16); memset(res,0xc6,rs+64); res+=16; a->res=res; a->rs=rs; int nores=(a->o->fl&F_NORES)&&(kind==CALL||kind==LOOP||kind==GOCALL||kind==RAWCALL||kind==RAWLOOP);
  ffi_raw*rw=0; u32 rn_=0; u8*rc=0; if(raw){ rn_=ffi_raw_size(f->cif); u32 want=0; for(int i=0;i<g->nargs;i++) want+=(TD[g->args[i]].size+3)/4*4; if(rn_!=want) viol("raw","ffi_raw_size says %d for %d bytes of arguments",(int)rn_,(int)want); rw=edge?(ffi_raw*)(top-rn_):(ffi_raw*)al(rn_+4,4); ffi_ptrarray_to_raw(f->cif,a->av,rw); rc=al(rn_+4,4); memcpy(rc,rw,rn_); void*back[MAXA]; ffi_raw_to_ptrarray(f->cif,rw,back); for(int i=0;i<g->nargs;i++) if(!veq(g->args[i],back[i],a->gold[i])) viol("raw","argument %d is lost between the pointer array and the raw form",i); }
  self->a=a; if(edge) self->ebusy=1; lg(0xe000+id*16+kind); struct wc w; memset(&w,0,sizeof w); w.ebx=0xb0b00000u+o->seed; w.esi=0x51510000u+o->seed; w.edi=0xd1d10000u+o->seed; w.step=pend(a); w.a[0]=(u32)f->cif; w.a[2]=nores?0:(u32)res; w.a[3]=raw?(u32)rw:(u32)a->av; a->chain=(void*)(0xc4a10000u+o->seed); u32 sh0=g_sh; a->w=&w;
  if(!jset(a->jb)) switch(kind){
    case CALL: w.fn=ffi_call; w.a[1]=(u32)g->ent; wcall(&w); break;
    case GOCALL: w.fn=ffi_call_go; w.a[1]=(u32)g->ent; w.a[4]=(u32)a->chain; wcall(&w); break;
    case RAWCALL: w.fn=ffi_raw_call; w.a[1]=(u32)g->ent; wcall(&w); break;
    case LOOP: w.fn=ffi_call; w.a[1]=(u32)f->clo[CLOS][(o->fl&F_STATIC)?1:0].code; wcall(&w); break;
    case RAWLOOP: w.fn=ffi_raw_call; w.a[1]=(u32)f->clo[RAWCLOS][(o->fl&F_STATIC)?1:0].code; wcall(&w); break;
    case CLOS: native(f,f->clo[CLOS][(o->fl&F_STATIC)?1:0].code,a,0,0,w.step,res); break;
    case RAWCLOS: native(f,f->clo[RAWCLOS][(o->fl&F_STATIC)?1:0].code,a,0,0,w.step,res); break;
    case GOCLOS: native(f,gx[o->ifc]->g.tramp,a,f->chain,(u32)gx[o->ifc],w.step,res); break;
    case NATIVE: native(f,g->ent,a,0,0,0,res); break; }
  else { tfoff(); g_sh=sh0; goto out; }
  tfoff(); if(self!=me||self->a!=a) viol("identity","the call returned into another activation");
  if(a->hooked!=1) viol("identity","the callee was entered %d times",a->hooked); if(w.bad) viol("machine-state","registers a callee must preserve changed across a call (%x)",w.bad); if(w.fl&0x400) viol("machine-state","the direction flag is set after a call");
  fpcheck(a,1);
  { int k=TD[g->ret].kind; if(!nores&&k!=K_VOID){ if(k<=K_PTR&&kind!=CLOS&&kind!=GOCLOS&&kind!=NATIVE&&kind!=RAWCLOS){ if(*(int*)res!=wd(k,a->want)) viol("results","the result arrived as %x instead of %x",*(u32*)res,wd(k,a->want)); } else if(!veq(g->ret,res,a->want)) viol("results","the result arrived as %b%b%b%b instead of %b%b%b%b",res[0],res[1],res[2],res[3],a->want[0],a->want[1],a->want[2],a->want[3]); }
    for(int i=-16;i<48;i++) if((i<0||i>=(int)rs||nores||k==K_VOID)&&(i<0||i>=(int)rs)&&((i<(int)rs)?res[i]:res[i+0])!=0xc6&&i<0) viol("write-to-callers-memory","bytes before the result changed"); for(u32 i=rs;i<rs+16;i++) if(res[i]!=0xc6) viol("write-to-callers-memory","byte %d after the result changed",(int)(i-rs)); if(nores) for(u32 i=0;i<rs;i++) if(res[i]!=0xc6) viol("write-to-callers-memory","a result was stored nobody asked for"); }
  out: for(int i=0;i<g->nargs;i++) if(a->av[i]!=sv[i]||memcmp(sv[i],a->gold[i],TD[g->args[i]].size)) viol("write-to-callers-memory","argument %d changed in the caller's memory",i); if(raw&&memcmp(rc,rw,rn_)) viol("write-to-callers-memory","the raw arguments changed");
  (void)z; if(edge) self->ebusy=0; self->a=up; self->ap=ap0; lg(0xf000+id); }
static void exec(int id){ struct op*o=&P.op[id]; int k=o->kind; struct iface*f=&I[o->ifc]; if(k==RAWCALL?!f->rawok:k>RAWCALL&&!rawclos(f,o)) k=o->kind=k==RAWCALL?CALL:k==RAWCLOS?GOCLOS:GOCALL; u32 ta=g_ta,tc=g_tc,c=g_code,e1=g_esp,e2=g_eax,e3=g_ecx,e4=g_fl,r0=g_pr[0],r1=g_pr[1],r2=g_pr[2],r3=g_pr[3];
  if((k==CLOS||k==RAWCLOS||k==GOCLOS)&&!f->popok){ one(id,NATIVE); } 
  one(id,k); g_ta=ta; g_tc=tc; g_code=c; g_esp=e1; g_eax=e2; g_ecx=e3; g_fl=e4; g_pr[0]=r0; g_pr[1]=r1; g_pr[2]=r2; g_pr[3]=r3; }
/* each fiber is a thread to the library's thread-local data, if it has any; the heap is a plain one */
extern const u8 __ehdr_start[];
static void tls(struct fib*b){ const u8*e=__ehdr_start,*ph=e+g4((u8*)e+28); int n=e[44]; u8*p=map(65536,3); u8*tcb=p+61440; *(u8**)tcb=tcb; for(int i=0;i<n;i++,ph+=32) if(g4((u8*)ph)==7){ u32 fs=g4((u8*)ph+16),ms=g4((u8*)ph+20),al_=g4((u8*)ph+28); ms=(ms+al_-1)/al_*al_; if(ms>60000) die(9); memcpy(tcb-ms,(u8*)g4((u8*)ph+8),fs); }
  u32 d[4]={~0u,(u32)tcb,0xfffff,0x51}; if(sc(243,(int)d,0,0,0,0)) return; b->gs=d[0]*8+3; }
static u8*hp,*he_; void *malloc(size_t n){ n=(n+31)&~15u; if(!hp||hp+n>he_){ if(n>0x100000) return 0; hp=map(0x200000,3); he_=hp+0x200000; } u8*p=hp; hp+=n; *(u32*)p=n-16; return p+16; }
void free(void*p){} void *calloc(size_t a,size_t b){ void*p=malloc(a*b); if(p) memset(p,0,a*b); return p; } void *realloc(void*p,size_t n){ void*q=malloc(n); if(q&&p){ u32 o=((u32*)p)[-4]; memcpy(q,p,o<n?o:n); } return q; }
size_t strlen(const char*a){ size_t n=0; while(a[n]) n++; return n; }
static void fmain(void){ setgs();  for(int i=0;i<P.nop;i++) if(P.op[i].parent<0&&P.op[i].th==self->id) exec(i); self->done=1; for(int i=0;i<P.nf;i++) if(!F[i].done) sw(i);
  int n=0; for(int i=0;i<P.nf;i++) n+=F[i].done; if(n!=P.nf) die(9); on_=0; pr("ok %x %d %d %d %d %d %d\n",S.h,(int)S.instr,(int)S.calls,(int)S.sw,(int)S.traps,(int)S.jumps,(int)S.sigops); flush(); die(0); }
static void child(void){ struct { void*p; int fl; u32 n; } ss={map(65536,3),0,65536}; sc(186,(int)&ss,0,0,0,0); setsig(5,on_trap,0x40000000u); setsig(11,on_crash,0x08000000u); setsig(4,on_crash,0x08000000u); setsig(7,on_crash,0x08000000u); setsig(8,on_crash,0x08000000u); setsig(26,on_crash,0x08000000u); { int it[4]={0,0,20,0}; sc(104,1,(int)it,0,0,0); }
  for(int i=0;i<P.nf;i++){ struct fib*b=&F[i]; b->id=i; b->stack=map(0x100000,3); b->ar=b->ap=map(0x80000,3); b->edge=map(0x11000,3); protect(b->edge+0x10000,4096,0); u32*sp=(u32*)(b->stack+0xffff0-4); *--sp=(u32)fmain; *--sp=0;*--sp=0;*--sp=0;*--sp=0; b->sp=(u32)sp; b->sh=(u32)map(65536,3); tls(b); }
  setup(); protect(ro,0x400000,1); protect(xm,8192,5); protect(tt,4096,5); S.h=2166136261u; u32 junk; self=&F[0]; g_sh=F[0].sh; fswitch(&junk,&F[0].sp); }
static char line[65536]; static char ib[65536]; static int in_,ip_;
static int gc(void){ if(ip_>=in_){ in_=sc(3,0,(int)ib,sizeof ib,0,0); ip_=0; if(in_<=0) return -1; } return (u8)ib[ip_++]; }
extern void *ffi_tramp_arch(size_t*,size_t*);
void cmain(void){ ehread(); ro=map(0x400000,3); rop=ro; xm=map(8192,7); tt=map(8192,7); { size_t a,b; void*t=ffi_tramp_arch(&a,&b); tsz=a; tmap=b; if(tmap>4096) die(9); memcpy(tt,t,tmap); }
  for(;;){ int n=0,c; while((c=gc())>=0&&c!='\n') if(n<65535) line[n++]=c; if(c<0) break; line[n]=0; int v[600],nv=0; for(char*p=line;*p&&nv<599;){ while(*p==' ') p++; if(!*p) break; int s=1; if(*p=='-'){ s=-1; p++; } int x=0; while(*p>='0'&&*p<='9') x=x*10+*p++-'0'; v[nv++]=s*x; if(*p&&*p!=' ') break; }
    memset(&P,0,sizeof P); int q=0; P.nif=v[q++]; for(int i=0;i<P.nif&&i<4;i++) P.sig[i]=v[q++]; P.nf=v[q++]; P.nop=v[q++]; for(int i=0;i<P.nop;i++){ struct op*o=&P.op[i]; o->kind=v[q++]; o->ifc=v[q++]; o->th=v[q++]; o->parent=v[q++]; o->sig=v[q++]; o->fl=v[q++]; o->seed=v[q++]; } P.nev=v[q++]; for(int i=0;i<P.nev;i++){ struct ev*e=&P.ev[i]; e->op=v[q++]; e->n=v[q++]; e->act=v[q++]; e->arg=v[q++]; }
    int pid=sc(2,0,0,0,0,0); if(pid==0){ child(); die(9); } int st=0; while(sc(114,pid,(int)&st,0,0,0)==-4); on_=0; if(st==0||(st&0xff7f)==0x100) continue; if((st&0x7f)==0) pr("E exit %d\n",st>>8&255); else pr("V crash|killed by signal %d\n",st&0x7f); flush(); }
  die(0); }
