/* the simulated operating system: address space, files, descriptors, /proc */
#include "sim.h"
#include <sys/syscall.h>
#include <sys/statfs.h>
#include <mntent.h>
#include <stdarg.h>

#define ABASE 0x100000000000ull
#define APAGES 49152              /* 192 MB of simulated address space */
#define ASIZE ((u64)APAGES*4096)
#define MAXFILE 256
#define FPAGES 16384   /* pages of the largest simulated file */
struct pg { u8 used, prot, shared, app; short file; u8 pad[2]; int foff; };
static struct pg *pg;
static int hi_pg;
enum { F_NONE, F_MEMFD, F_TMP, F_LIB, F_POISON, F_TEXT, F_APP };
struct sfile { int kind, dir, linked, noexec, mapped, nfd, npages, blocks, size; char name[96]; u8 resv[FPAGES/8]; };
static struct sfile *F; static int nF=1;
static short fdt[256]; static u8 fdapp[256];   /* descriptor -> file (0 = not open) */
static int dirused[NDIR];
static int libpages, mapcalls; 
u32 wx_seen; int wx_any; int env_changed; static int polfault; int ntramp_guess=102;
static int opened_any; int simlimit;
static char last_unmapped_ok; static int last_unmap_pg, last_unmap_n;
#define E (P.env)
static int pgsz(void){ return E.page; }

/* ---------------- the library image on disk ---------------- */
static char exe_path[512]; static unsigned long tx_start,tx_end,tx_off;
static int img_good=-1,img_poison=-1,img_tail=-1,img_trunc=-1,img_space=-1; 
extern char trampoline_code_table[] __attribute__((weak));
extern void *ffi_tramp_arch(size_t*,size_t*) __attribute__((weak));
static int mkimg(int mode){
  int fd=syscall(SYS_memfd_create,"img",1); int e=open("/proc/self/exe",O_RDONLY|O_CLOEXEC); 
  char *b=malloc(1<<16); ssize_t n; off_t o=0;
  unsigned long tab=0; if(trampoline_code_table) tab=(unsigned long)trampoline_code_table-tx_start+tx_off;
  while((n=read(e,b,1<<16))>0){
    for(ssize_t i=0;i<n;i++){ unsigned long p=o+i;
      if(mode==1&&p>=tx_off&&p<tx_off+(tx_end-tx_start)) b[i]=(char)0xcc;
      if(mode==2&&tab&&p>=tab+2048&&p<tab+4096) b[i]=(char)0xcc; }
    if(write(fd,b,n)!=n) abort();
    o+=n; }
  if(mode==3&&tab){ if(ftruncate(fd,tab-4096>0?tab-100:0)) abort(); }
  free(b); close(e); return fd;
}
void os_static_init(void){
  ssize_t n=readlink("/proc/self/exe",exe_path,sizeof exe_path-1); if(n>0) exe_path[n]=0;
  FILE *f=fopen("/proc/self/maps","r"); char l[1024]; unsigned long me=(unsigned long)(trampoline_code_table?trampoline_code_table:(char*)os_static_init);
  while(fgets(l,sizeof l,f)){ unsigned long a,b,o; char pr[8]; if(sscanf(l,"%lx-%lx %7s %lx",&a,&b,pr,&o)==4&&me>=a&&me<b){ tx_start=a; tx_end=b; tx_off=o; } }
  fclose(f);
  void *r=mmap((void*)ABASE,ASIZE,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if(r!=(void*)ABASE){ fprintf(stderr,"cannot reserve arena\n"); _exit(2); }
  pg=mmap(0,sizeof(struct pg)*APAGES,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  F=mmap(0,sizeof(struct sfile)*MAXFILE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  int fds[5]; 
  /* keep simulator descriptors high so that the library sees small, reproducible numbers */
  for(int i=0;i<4;i++){ int fd=-1; 
    unsigned long tab=0; (void)tab;
    fd=mkimg(i); fds[i]=fcntl(fd,F_DUPFD_CLOEXEC,100+i); if(fds[i]<0) abort(); close(fd); }
  img_good=fds[0]; img_poison=fds[1]; img_tail=fds[2]; img_trunc=fds[3]; (void)img_space;
  size_t ts=0,ms=0; if(ffi_tramp_arch){ ffi_tramp_arch(&ts,&ms); if(ts) ntramp_guess=(int)(ms/ts); }
}
void os_init(void){ nF=1; hi_pg=0; libpages=0; mapcalls=0; wx_seen=0; wx_any=0; polfault=0; opened_any=0; simlimit=0; env_changed=0; last_unmapped_ok=0; }

/* ---------------- address space ---------------- */
static inline int inar(const void*p){ u64 a=(u64)p; return a>=ABASE&&a<ABASE+ASIZE; }
static inline int pgi(const void*p){ return (int)(((u64)p-ABASE)>>12); }
static int range_free(int s,int n){ if(s<0||s+n>APAGES) return 0; for(int i=0;i<n;i++) if(pg[s+i].used) return 0; return 1; }
static int place(int n){
  int al=pgsz()>>12, mode=E.place; u64 r=mix(E.pseed*1000003ull+mapcalls);
  if(n>APAGES-64) return -1;
  if(mode==PL_MIX) mode=r%3;
  int lo=16*al;
  if(mode==PL_UP||mode==PL_GAP){
    int gap=mode==PL_GAP?al:0;
    for(int s=lo;s+n<APAGES;s+=al){ 
      if(s>hi_pg+1){ return s+gap; }
      if(range_free(s-gap>=0?s-gap:s,n+2*gap)) return s; }
    return -1; }
  if(mode==PL_DOWN){
    /* lowest used page above which nothing matters: grow downwards from a fixed top */
    int top=8192; if(n>top-64) top=APAGES-16*al;
    int s=(top-n)/al*al;
    for(;s>=lo;){ int k=0; for(k=n-1;k>=0;k--) if(pg[s+k].used) break; if(k<0) return s; s=(s+k-n)/al*al; }
    for(s=8192;s+n<APAGES;s+=al) if(range_free(s,n)) return s;
    return -1; }
  /* scatter */
  for(int t=0;t<64;t++){ int s=(int)(mix(r+t)%(6000))/al*al+lo; if(range_free(s-al,n+2*al)) return s; }
  for(int s=lo;s+n<APAGES;s+=al) if(range_free(s,n)) return s;
  return -1;
}
static void file_gone(int f){ if(f>0&&F[f].nfd==0&&F[f].npages==0&&!F[f].linked&&F[f].dir>=0){ dirused[F[f].dir]-=F[f].blocks; F[f].blocks=0; memset(F[f].resv,0,sizeof F[f].resv); F[f].dir=-1; } }
static void clr(int s,int n){
  for(int i=s;i<s+n;i++) if(pg[i].used){ if(pg[i].file>0){ F[pg[i].file].npages--; file_gone(pg[i].file);} if(!pg[i].app) libpages--; memset(&pg[i],0,sizeof pg[i]); } }
static void setp(int s,int n,int prot,int shared,int file,int foff,int app){
  for(int i=0;i<n;i++){ struct pg *p=&pg[s+i]; p->used=1; p->prot=prot; p->shared=shared; p->file=file; p->foff=foff+i; p->app=app; if(file>0) F[file].npages++; if(!app) libpages++; }
  if(s+n>hi_pg) hi_pg=s+n; }
static int locked_pol(void){ return E.selinux!=SE_NONE||E.pax==PAX_M||E.pax==PAX_ME; }
int any_policy_fault(void){ return polfault; }
int lib_usable(void){ int l=E.lib; return E.page==4096&&(l==LIB_OK||l==LIB_MULTI||l==LIB_ODD||l==LIB_HUGEMAPS||l==LIB_SPACE||l==LIB_SPACE_DECOY); }
#ifdef NOSTATIC
#define HAVE_STATIC 0
#else
#define HAVE_STATIC 1
#endif
int wx_forbidden(void){ return locked_pol() || (HAVE_STATIC&&lib_usable()); }

void *sim_mmap(void *addr,size_t len,int prot,int flags,int fd,off_t off){
  sim_yield(1); S->sysc++;
  int anon=flags&MAP_ANONYMOUS, wx=(prot&PROT_WRITE)&&(prot&PROT_EXEC);
  int kind= anon?(wx?K_MMAP_RWX:K_MMAP_ANON):((prot&PROT_EXEC)?K_MMAP_FILEX:K_MMAP_FILE);
  int file=0; mapcalls++;
  if(wx){ wx_any=1;
    if(wx_forbidden()&&!polfault&&!env_changed) { int anyf=0; for(int i=0;i<K_N;i++) anyf+=S->fired[i]; if(locked_pol()||!anyf) violate(V_WX,"mapping requested with write and execute permission at once (selinux=%d pax=%d lib=%d)",E.selinux,E.pax,E.lib); } }
  logev("mmap len=%zu prot=%d flags=%x fd=%d off=%ld",len,prot,flags,fd,(long)off);
  int e=fault(kind);
  if(e){ hashev(1,kind,e); errno=e; return MAP_FAILED; }
  if(len==0||(off&(pgsz()-1))){ errno=EINVAL; return MAP_FAILED; }
  if(len>(1ull<<40)){ errno=ENOMEM; return MAP_FAILED; }
  size_t rl=(len+pgsz()-1)&~(size_t)(pgsz()-1); int n=(int)(rl>>12);
  if(!anon){
    if(fd<0||fd>=256||!fdt[fd]){ errno=EBADF; return MAP_FAILED; }
    file=fdt[fd];
    if((prot&PROT_EXEC)&&F[file].noexec){ hashev(1,2,EPERM); S->envfired++; errno=EPERM; return MAP_FAILED; }
  }
  if(wx&&E.rwx!=RWX_OK){ hashev(1,3,E.rwx); S->envfired++; errno=E.rwx==RWX_EACCES?EACCES:EPERM; return MAP_FAILED; }
  if((flags&MAP_FIXED)||(flags&0x100000)){
    if(!inar(addr)||!inar((char*)addr+rl-1)){ if(addr==NULL){errno=EPERM;return MAP_FAILED;} violate(V_FUNMAP,"fixed mapping outside the library's memory"); }
    int s=pgi(addr);
    for(int i=0;i<n;i++){ if(pg[s+i].used&&pg[s+i].app) violate(V_FUNMAP,"library maps over memory of the application"); }
    if((u64)addr&(pgsz()-1)){ errno=EINVAL; return MAP_FAILED; }
    clr(s,n);
  } else {
    if(E.maxpages&&libpages+n>E.maxpages){ hashev(1,4,0); S->envfired++; errno=ENOMEM; return MAP_FAILED; }
    int s=place(n);
    if(s<0){ errno=ENOMEM; return MAP_FAILED; }
    addr=(void*)(ABASE+((u64)s<<12));
  }
  int rf=(flags&~(MAP_FIXED|0x100000|MAP_POPULATE|MAP_32BIT|MAP_HUGETLB|MAP_LOCKED|MAP_GROWSDOWN))|MAP_FIXED|(anon?MAP_NORESERVE:0);
  void *r=mmap(addr,rl,prot,rf,fd,off);
  if(r==MAP_FAILED){ e=errno; logev("real mmap failed %d",e); errno=e; return r; }
  setp(pgi(addr),n,prot,(flags&MAP_SHARED)!=0,file,(int)(off>>12),0); if(file) F[file].mapped=1;
  hashev(1,(u64)addr,prot|((u64)n<<8));
  logev("  -> %p",addr);
  return r;
}
int sim_munmap(void *addr,size_t len){
  sim_yield(1); S->sysc++;
  logev("munmap %p len=%zu",addr,len);
  int e=fault(K_MUNMAP); if(e){ hashev(2,0,e); errno=e; return -1; }
  if(((u64)addr&(pgsz()-1))||len==0){ errno=EINVAL; return -1; }
  size_t rl=(len+pgsz()-1)&~(size_t)(pgsz()-1); int n=(int)(rl>>12);
  if(!inar(addr)||!inar((char*)addr+rl-1)) violate(V_FUNMAP,"library unmaps memory it never mapped (%s)",inar(addr)?"tail":"outside");
  int s=pgi(addr);
  for(int i=0;i<n;i++) if(!pg[s+i].used) violate(V_FUNMAP,"library unmaps a page it does not hold");
    else if(pg[s+i].app) violate(V_FUNMAP,"library unmaps memory of the application");
  clr(s,n);
  if(mmap(addr,rl,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED) abort();
  last_unmapped_ok=1; last_unmap_pg=s; last_unmap_n=n;
  hashev(2,(u64)addr,n);
  return 0;
}
int sim_mprotect(void *addr,size_t len,int prot){
  sim_yield(1); S->sysc++;
  int wx=(prot&PROT_WRITE)&&(prot&PROT_EXEC);
  if(wx){ wx_any=1; if(wx_forbidden()&&!polfault&&!env_changed){ int anyf=0; for(int i=0;i<K_N;i++) anyf+=S->fired[i]; if(locked_pol()||!anyf) violate(V_WX,"mprotect to write and execute"); } }
  int e=fault(K_MPROTECT); if(e){ errno=e; return -1; }
  if(wx&&E.rwx!=RWX_OK){ errno=EACCES; return -1; }
  if(!inar(addr)) violate(V_FUNMAP,"library changes protection of foreign memory");
  int s=pgi(addr), n=(int)((len+4095)>>12);
  for(int i=0;i<n;i++){ if(!pg[s+i].used||pg[s+i].app) violate(V_FUNMAP,"library changes protection of foreign memory");
    if((prot&PROT_EXEC)&&pg[s+i].file>0&&F[pg[s+i].file].noexec){ errno=EACCES; return -1; } }
  int r=mprotect(addr,len,prot); if(r==0) for(int i=0;i<n;i++) pg[s+i].prot=prot;
  hashev(15,(u64)addr,prot);
  return r;
}
int sim_madvise(void*a,size_t n,int ad){ return madvise(a,n,ad); }
void *sim_mremap(void*a,size_t o,size_t n,int f,...){ (void)a;(void)o;(void)n;(void)f; errno=ENOMEM; return MAP_FAILED; }

/* ---------------- files ---------------- */
static int newfile(int kind,int dir,int noexec,const char*name){ int f=0; if(nF>=MAXFILE){ for(int i=1;i<nF;i++) if(!F[i].nfd&&!F[i].npages&&!F[i].linked){ f=i; break; } if(!f){ fprintf(stderr,"simulator: too many files\n"); _exit(2); } } else f=nF++; memset(&F[f],0,sizeof F[f]); F[f].kind=kind; F[f].dir=dir; F[f].noexec=noexec; snprintf(F[f].name,sizeof F[f].name,"%s",name?name:""); return f; }
static int realfile(const char*content,size_t n,int cloexec){ int fd=syscall(SYS_memfd_create,"sim",cloexec?1:0); if(fd>=0&&n){ if(write(fd,content,n)<0||lseek(fd,0,SEEK_SET)<0) abort(); } return fd; }
static int bind(int fd,int f,int app){ if(fd<0||fd>=256){ if(fd>=0) close(fd); errno=EMFILE; return -1; } fdt[fd]=f; fdapp[fd]=app; F[f].nfd++; return fd; }
static const char *dirname_[NDIR]={"/sim/libffi_tmp","/sim/tmpdir","/tmp","/var/tmp","/dev/shm","/sim/home","/mnt/a","/mnt/b","/mnt/c d","/mnt/d"};
static char longdir[5000];
static const char *envval(int d){ if(E.dir[d]==D_EMPTYSTR) return ""; if(E.dir[d]==D_LONG){ memset(longdir,'x',sizeof longdir-1); longdir[0]='/'; return longdir; } return dirname_[d]; }
static int finddir(const char*p,size_t n){ while(n>1&&p[n-1]=='/') n--; for(int i=0;i<NDIR;i++) if(strlen(dirname_[i])==n&&!memcmp(p,dirname_[i],n)) return i; return -1; }
static int dircap(int d){ switch(E.dir[d]){case D_FULL:return 0;case D_CAP1:return 1*(pgsz()>>12);case D_CAP2:return 2*(pgsz()>>12);case D_CAP4:return 4*(pgsz()>>12);} return 1<<30; }
static int direrr(const char*path,int d){
  if(strlen(path)>=4096) return ENAMETOOLONG;
  if(!*path) return ENOENT;
  if(d<0) return ENOENT;
  switch(E.dir[d]){ case D_UNSET:case D_MISSING:case D_EMPTYSTR:case D_LONG:return ENOENT; case D_NOPERM:return EACCES; case D_ROFS:return EROFS; case D_NOTDIR:return ENOTDIR; }
  return 0; }
static char *libpath(void){ static char b[9000]; 
  switch(E.lib){
   case LIB_SPACE: case LIB_SPACE_DECOY: return "/sim/my app/lib/libffi.so.8";
   case LIB_DELETED: case LIB_DELETED_OTHER: return "/sim/usr/lib/libffi.so.8";
   case LIB_LONG: { int n=0; b[0]=0; while(n<4110){ n+=sprintf(b+n,"/dddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd%d",n); } sprintf(b+n,"/libffi.so.8"); return b; }
   case LIB_ODD: return "/sim/usr/lib/li\\040b%s%n%d/../libffi-[3.4](x)#~.so.8";
  } return "/sim/usr/lib/libffi.so.8"; }
static char *maps_text(void){
  static char b[120000]; int n=0; const char*p=libpath(); 
  n+=sprintf(b+n,"555500000000-555500001000 r--p 00000000 fd:01 1234                       /sim/bin/app\n");
  n+=sprintf(b+n,"555500001000-555500005000 r-xp 00001000 fd:01 1234                       /sim/bin/app\n");
  n+=sprintf(b+n,"555500009000-555500029000 rw-p 00000000 00:00 0                          [heap]\n");
  n+=sprintf(b+n,"7f0000000000-7f0000021000 rw-p 00000000 00:00 0 \n");
  if(E.lib==LIB_HUGEMAPS) for(int i=0;i<300;i++) n+=sprintf(b+n,"7e%010x-7e%010x rw-p 00000000 00:00 0                          %s\n",i*0x4000,i*0x4000+0x2000,i%3?"":"[anon:very strange name]");
  n+=sprintf(b+n,"7f0000030000-7f0000040000 r-xp 00000000 fd:01 77                         /sim/lib/ld so.so\n");
  char suffix[40]=""; if(E.lib==LIB_DELETED||E.lib==LIB_DELETED_OTHER) strcpy(suffix," (deleted)");
  if(E.lib!=LIB_NOTLISTED){
    if(E.lib==LIB_MULTI){ n+=sprintf(b+n,"%lx-%lx r--p %08lx fd:01 9876                       %s\n",tx_start-0x3000,tx_start,tx_off>=0x3000?tx_off-0x3000:0,p);
      unsigned long tab=trampoline_code_table?(unsigned long)trampoline_code_table&~4095ul:tx_start; 
      if(tab>tx_start) n+=sprintf(b+n,"%lx-%lx r-xp %08lx fd:01 9876                       %s\n",tx_start,tab,tx_off,p);
      n+=sprintf(b+n,"%lx-%lx r-xp %08lx fd:01 9876                       %s\n",tab,tx_end,tx_off+(tab-tx_start),p); }
    else n+=sprintf(b+n,"%lx-%lx r-xp %08lx fd:01 9876                       %s%s\n",tx_start,tx_end,tx_off,p,suffix);
    n+=sprintf(b+n,"%lx-%lx r--p %08lx fd:01 9876                       %s%s\n",tx_end,tx_end+0x1000,tx_off+(tx_end-tx_start),p,suffix);
  }
  n+=sprintf(b+n,"7ffffffde000-7ffffffff000 rw-p 00000000 00:00 0                          [stack]\n");
  n+=sprintf(b+n,"ffffffffff600000-ffffffffff601000 --xp 00000000 00:00 0                  [vsyscall]\n");
  return b; }
/* the lists of mounts as systems have them: option strings in which the words looked for are parts of other
   words or come last, comments and blank lines, a very long line, and a name with an escaped space */
static char *mounts_text(int which){
  static char b[16384]; int n=0; u64 v=E.pseed*0x9e3779b97f4a7c15ull;
  static const char*rw[]={"rw,relatime","rw,relatime,errors=remount-ro","rw","rw,prjquota,uid=1000,nonoexec","rw,nosuid,nodev,x-ro.noexec","defaults"};
  static const char*ro[]={"ro,relatime","relatime,ro","ro","ro,errors=remount-rw"};
  static const char*nx[]={"rw,nosuid,noexec,relatime","rw,relatime,noexec","noexec","noexec,rw"};
  if(which==0&&(v>>60&1)) n+=sprintf(b+n,"# static information\n\n");
  n+=sprintf(b+n,"proc /proc proc rw,nosuid,nodev,noexec,relatime 0 0\nsysfs /sys sysfs ro,nosuid 0 0\n");
  if((v>>56&3)==3){ n+=sprintf(b+n,"overlay /ov overlay ro,lowerdir=/l0"); for(int i=1;i<250;i++) n+=sprintf(b+n,":/var/lib/x/l%d",i); n+=sprintf(b+n," 0 0\n"); }
  if(which==1&&E.selinux==SE_MOUNTS) n+=sprintf(b+n,"selinuxfs /sys/fs/selinux selinuxfs rw,relatime 0 0\n");
  for(int i=0;i<4;i++) if(which==0? i<2 : i>=(E.mtab==MT_LIST?1:0)){
    unsigned k=v>>(8*i+4)&15; const char*o=E.mopt[i]==0?rw[k%6]:E.mopt[i]==1?ro[k%4]:nx[k%4];
    n+=sprintf(b+n,"/dev/sd%c ",'a'+i); for(const char*q=dirname_[6+i];*q;q++) n+=*q==' '?sprintf(b+n,"\\040"):sprintf(b+n,"%c",*q);
    n+=sprintf(b+n," ext4 %s 0 %d\n",o,i==0); }
  return b; }
static char *status_text(void){ static char b[512]; sprintf(b,"Name:\tsim\nState:\tR (running)\nPid:\t4242\n%sThreads:\t1\n",
   E.pax==PAX_M?"PaX:\tpeMrs\n":E.pax==PAX_E?"PaX:\tpEmrs\n":E.pax==PAX_ME?"PaX:\tpEMrs\n":""); return b; }
/* text of a pseudo file, or NULL with *err */
static const char *pseudo(const char*path,int*err){
  *err=ENOENT;
  if(!strcmp(path,"/proc/self/maps")||!strcmp(path,"/proc/4242/maps")||!strcmp(path,"/proc/thread-self/maps")){ if(E.lib==LIB_NOREAD){*err=EACCES;return 0;} return maps_text(); }
  if(!strcmp(path,"/proc/self/status")||!strcmp(path,"/proc/4242/status")) return status_text();
  if(!strcmp(path,"/proc/mounts")||!strcmp(path,"/proc/self/mounts")||!strcmp(path,"/proc/4242/mounts")){ if(E.mounts==MT_ABSENT&&E.selinux!=SE_MOUNTS) return 0; return mounts_text(1); }
  if(!strcmp(path,"/etc/mtab")){ if(E.mtab==MT_ABSENT) return 0; return mounts_text(0); }
  return 0; }
static int is_polpath(const char*p){ return strstr(p,"mounts")||strstr(p,"status")||strstr(p,"selinux")?1:0; }
static int lib_open(const char*path,int*kind,int*noexec){
  const char*lp=libpath(); int same=!strcmp(path,lp); char pre[64];
  *kind=F_LIB; *noexec=0;
  switch(E.lib){
   case LIB_OK: case LIB_MULTI: case LIB_ODD: case LIB_HUGEMAPS: case LIB_NOTLISTED: case LIB_NOREAD: case LIB_SPACE: case LIB_LONG: if(same) return img_good; break;
   case LIB_NOEXEC: *noexec=1; if(same) return img_good; break;
   case LIB_NOOPEN: if(same){ errno=EACCES; return -1; } break;
   case LIB_DELETED: errno=ENOENT; return -1;
   case LIB_DELETED_OTHER: if(same){ *kind=F_POISON; return img_poison; } break;
   case LIB_REPLACED: if(same){ *kind=F_POISON; return img_poison; } break;
   case LIB_REPL_TAIL: if(same){ *kind=F_POISON; return img_tail; } break;
   case LIB_TRUNC: if(same){ *kind=F_POISON; return img_trunc; } break;
   case LIB_SPACE_DECOY: if(same) return img_good; snprintf(pre,sizeof pre,"/sim/my"); if(!strcmp(path,pre)){ *kind=F_POISON; return img_poison; } break;
  }
  if(E.lib==LIB_LONG&&strlen(path)>=4096){ errno=ENAMETOOLONG; return -1; }
  errno=ENOENT; return -1; }
static int reopen(int imgfd,int cloexec){ char p[64]; sprintf(p,"/proc/self/fd/%d",imgfd); return open(p,O_RDONLY|(cloexec?O_CLOEXEC:0)); }
static int mktmp(int d,int linked,const char*name,int cloexec){
  int fd=realfile(0,0,cloexec); if(fd<0) return -1;
  int f=newfile(F_TMP,d,E.dir[d]==D_NOEXEC||(d>=6&&E.mopt[d-6]==2),name); F[f].linked=linked;
  return bind(fd,f,0); }
static int open_common(const char*path,int flags){
  sim_yield(1); S->sysc++;
  int d=finddir(path,strlen(path)), e;
  if((flags&O_TMPFILE)==O_TMPFILE){
    logev("open(O_TMPFILE) %.60s",path);
    if((e=fault(K_OPENTMP))){ hashev(3,1,e); errno=e; return -1; }
    e=direrr(path,d); if(e){ S->envfired++; hashev(3,2,e); errno=e; return -1; }
    if(E.tmpf[d]!=TF_YES){ S->envfired++; errno=E.tmpf[d]==TF_OPNOTSUPP?EOPNOTSUPP:E.tmpf[d]==TF_ISDIR?EISDIR:EINVAL; return -1; }
    opened_any=1; hashev(3,3,d);
    return mktmp(d,0,"",(flags&O_CLOEXEC)!=0); }
  logev("open %.60s",path);
  if((e=fault(K_OPEN))){ if(is_polpath(path)) polfault=1; hashev(3,4,e); errno=e; return -1; }
  if(!strcmp(path,"/dev/urandom")||!strcmp(path,"/dev/random")){ char r[256]; u64 s=E.pseed; for(int i=0;i<32;i++){ u64 x=rnd(&s); memcpy(r+i*8,&x,8);} int f=newfile(F_TEXT,-1,0,path); return bind(realfile(r,sizeof r,flags&O_CLOEXEC),f,0); }
  const char*t=pseudo(path,&e);
  if(t){ int f=newfile(F_TEXT,-1,0,path); return bind(realfile(t,strlen(t),(flags&O_CLOEXEC)!=0),f,0); }
  if(e!=ENOENT){ errno=e; return -1; }
  for(int i=1;i<nF;i++) if(F[i].linked&&!strcmp(F[i].name,path)){ errno=EACCES; return -1; }
  if((flags&O_CREAT)){ /* open by name in a known directory */
    const char*sl=strrchr(path,'/'); int dd=sl?finddir(path,sl-path):-1; e=direrr(path,dd); if(e){ errno=e; return -1; }
    return mktmp(dd,1,path,(flags&O_CLOEXEC)!=0); }
  if(!strcmp(path,"/proc/self/exe")){ int f=newfile(F_LIB,-1,0,"exe"); return bind(reopen(img_good,(flags&O_CLOEXEC)!=0),f,0); }
  int kind,nx; int img=lib_open(path,&kind,&nx);
  if(img<0){ S->envfired++; hashev(3,5,errno); return -1; }
  if((flags&O_ACCMODE)!=O_RDONLY){ errno=ETXTBSY; return -1; }
  int f=newfile(kind,-1,nx,path); hashev(3,6,kind);
  return bind(reopen(img,(flags&O_CLOEXEC)!=0),f,0);
}
int sim_open(const char*path,int flags,...){ return open_common(path,flags); }
int sim_openat(int dfd,const char*path,int flags,...){ (void)dfd; return open_common(path,flags); }
int sim_creat(const char*path,mode_t m){ (void)m; return open_common(path,O_CREAT|O_WRONLY|O_TRUNC); }
int sim_memfd_create(const char*name,unsigned fl){
  sim_yield(1); S->sysc++; (void)name;
  int e=fault(K_MEMFD); logev("memfd_create"); if(e){ hashev(4,0,e); errno=e; return -1; }
  if(E.memfd==MF_NOSYS){ S->envfired++; errno=ENOSYS; return -1; }
  if(E.memfd==MF_ACCES){ S->envfired++; errno=EACCES; return -1; }
  if(fl&~0x1fu){ errno=EINVAL; return -1; }
  int f=newfile(F_MEMFD,-1,E.memfd==MF_NOEXEC,""); hashev(4,1,0);
  return bind(realfile(0,0,fl&1),f,0); }
static int mkst(char*tmpl,int flags,int suf){
  sim_yield(1); S->sysc++; logev("mkstemp %.60s",tmpl);
  size_t n=strlen(tmpl); int e=fault(K_MKTEMP); if(e){ hashev(5,0,e); errno=e; return -1; }
  if(n<6+(size_t)suf||memcmp(tmpl+n-6-suf,"XXXXXX",6)){ errno=EINVAL; return -1; }
  char*sl=strrchr(tmpl,'/'); int d=sl?finddir(tmpl,sl-tmpl):-1;
  e=direrr(tmpl,d); if(e){ S->envfired++; hashev(5,1,e); errno=e; return -1; }
  char num[8]; snprintf(num,8,"%06d",nF*37%1000000); memcpy(tmpl+n-6-suf,num,6);
  hashev(5,2,d); opened_any=1;
  return mktmp(d,1,tmpl,(flags&O_CLOEXEC)!=0); }
int sim_mkstemp(char*t){ return mkst(t,0,0); }
int sim_mkostemp(char*t,int fl){ return mkst(t,fl,0); }
int sim_mkostemps(char*t,int s,int fl){ return mkst(t,fl,s); }
int sim_unlink(const char*path){
  sim_yield(1); S->sysc++; logev("unlink %.80s",path);
  for(int i=1;i<nF;i++) if(F[i].linked&&!strcmp(F[i].name,path)){ F[i].linked=0; file_gone(i); hashev(6,i,0); return 0; }
  if(finddir(path,strlen(path))>=0||!strncmp(path,"/sim",4)) violate(V_FCLOSE,"library unlinks '%s', which it did not create",path);
  errno=ENOENT; return -1; }
int sim_remove(const char*p){ return sim_unlink(p); }
int sim_unlinkat(int d,const char*p,int f){ (void)d;(void)f; return sim_unlink(p); }
static int reserve(int f,u64 from,u64 to){ /* bytes; returns how far it got */
  u64 a=from; while(a<to){ u64 p=a>>12; u64 e=(p+1)<<12; if(e>to) e=to;
    if(p>=FPAGES){ simlimit=1; break; }   /* no simulated disk is larger than 64 MB */
    if(!(F[f].resv[p>>3]>>(p&7)&1)){
      if(F[f].dir>=0){ if(dirused[F[f].dir]+1>dircap(F[f].dir)){ S->envfired++; break; } dirused[F[f].dir]++; }
      F[f].resv[p>>3]|=1<<(p&7); F[f].blocks++; }
    a=e; }
  return (int)(a-from); }
static ssize_t wr_at(int fd,const void*b,size_t n,off_t o,int usepos){
  sim_yield(1); S->sysc++;
  int e=fault(K_WRITE); logev("write fd %d n %zu",fd,n);
  if(fd<0||fd>=256||!fdt[fd]){ errno=EBADF; return -1; }
  int f=fdt[fd];
  if(e>0){ hashev(7,0,e); errno=e; return -1; }
  if(usepos) o=lseek(fd,0,SEEK_CUR);
  if(e==-1&&n>1) n=n/2;                       /* short write */
  int ok=reserve(f,o,o+n);
  if(ok<=0&&n>0){ hashev(7,1,ENOSPC); errno=ENOSPC; return -1; }
  ssize_t r=usepos?write(fd,b,ok):pwrite(fd,b,ok,o);
  hashev(7,r,o); return r; }
ssize_t sim_write(int fd,const void*b,size_t n){ return wr_at(fd,b,n,0,1); }
ssize_t sim_pwrite(int fd,const void*b,size_t n,off_t o){ return wr_at(fd,b,n,o,0); }
ssize_t sim_read(int fd,void*b,size_t n){ sim_yield(1); S->sysc++; int e=fault(K_PREAD); if(e>0){errno=e;return -1;} if(e==-1&&n>1) n/=2; return read(fd,b,n); }
ssize_t sim_pread(int fd,void*b,size_t n,off_t o){ sim_yield(1); S->sysc++; int e=fault(K_PREAD); logev("pread fd %d n %zu",fd,n); hashev(8,n,e); if(e>0){errno=e;return -1;} if(e==-1&&n>1) n/=2; return pread(fd,b,n,o); }
off_t sim_lseek(int fd,off_t o,int w){ sim_yield(1); hashev(9,o,w); return lseek(fd,o,w); }
int sim_ftruncate(int fd,off_t n){ sim_yield(1); S->sysc++; int e=fault(K_FTRUNC); logev("ftruncate %d %ld",fd,(long)n); if(e){ hashev(10,0,e); errno=e; return -1; }
  int r=ftruncate(fd,n); if(r==0&&fd<256&&fdt[fd]){ int f=fdt[fd]; for(u64 p=(n+4095)>>12;p<FPAGES;p++) if(F[f].resv[p>>3]>>(p&7)&1){ F[f].resv[p>>3]&=~(1<<(p&7)); F[f].blocks--; if(F[f].dir>=0) dirused[F[f].dir]--; } }
  hashev(10,n,r); return r; }
int sim_fallocate(int fd,int mode,off_t o,off_t n){ sim_yield(1); S->sysc++; int e=fault(K_FALLOC); if(e){errno=e;return -1;}
  if(fd<0||fd>=256||!fdt[fd]){errno=EBADF;return -1;}
  int f=fdt[fd];
  if(mode&2){ /* punch */ for(u64 p=(o+4095)>>12;p<(u64)(o+n)>>12&&p<FPAGES;p++) if(F[f].resv[p>>3]>>(p&7)&1){ F[f].resv[p>>3]&=~(1<<(p&7)); F[f].blocks--; if(F[f].dir>=0) dirused[F[f].dir]--; } return fallocate(fd,mode,o,n); }
  if(reserve(f,o,o+n)<n){errno=ENOSPC;return -1;} return fallocate(fd,mode,o,n); }
int sim_posix_fallocate(int fd,off_t o,off_t n){ int s=errno; int r=sim_fallocate(fd,0,o,n); int e=errno; errno=s; return r?e:0; }
int sim_close(int fd){
  sim_yield(1); S->sysc++; logev("close %d",fd);
  if(fd<0||fd>=256){ errno=EBADF; return -1; }
  if(fdapp[fd]&&fdt[fd]) violate(V_FCLOSE,"library closes descriptor %d of the application",fd);
  if(!fdt[fd]) violate(V_FCLOSE,"library closes descriptor %d, which is not open",fd);
  int f=fdt[fd]; fdt[fd]=0; F[f].nfd--; file_gone(f); int e=fault(K_CLOSE); close(fd); hashev(11,fd,e);
  if(e){ errno=e; return -1; } return 0; }
int sim_dup(int fd){ int r=dup(fd); if(r>=0&&r<256&&fd<256){ bind(r,fdt[fd],0);} return r; }
int sim_fcntl(int fd,int c,...){ va_list a; va_start(a,c); long x=va_arg(a,long); va_end(a); sim_yield(1); int r=fcntl(fd,c,x); if((c==F_DUPFD||c==F_DUPFD_CLOEXEC)&&r>=0&&r<256&&fd<256) bind(r,fdt[fd],0); return r; }
int sim_fstat(int fd,struct stat*st){ sim_yield(1); return fstat(fd,st); }
int sim_access(const char*path,int m){
  sim_yield(1); S->sysc++; int e=fault(K_ACCESS); if(e){ errno=e; return -1; }
  int d=finddir(path,strlen(path)); e=direrr(path,d); if(e&&!(e==EROFS||e==EACCES)){ errno=e; return -1; }
  if((m&W_OK)&&(e||E.dir[d]==D_ROFS)){ errno=e?e:EROFS; return -1; } hashev(12,d,e); return 0; }
int sim_statfs(const char*path,struct statfs*s){
  sim_yield(1); S->sysc++; int e=fault(K_STATFS); if(e){ polfault=1; errno=e; return -1; }
  memset(s,0,sizeof *s);
  if((!strcmp(path,"/selinux")||!strcmp(path,"/sys/fs/selinux"))&&E.selinux==SE_STATFS){ s->f_type=0xf97cff8cU; return 0; }
  errno=ENOENT; return -1; }
char *sim_getenv(const char*n){
  sim_yield(0); int d=-1;
  if(!strcmp(n,"LIBFFI_TMPDIR")) d=0; else if(!strcmp(n,"TMPDIR")) d=1; else if(!strcmp(n,"HOME")) d=5;
  if(d<0||E.dir[d]==D_UNSET) return 0;
  return (char*)envval(d); }
char *sim_secure_getenv(const char*n){ return sim_getenv(n); }
long sim_sysconf(int n){ if(n==_SC_PAGESIZE) return pgsz(); return sysconf(n); }
int sim_getpagesize(void){ return pgsz(); }
int sim_getpid(void){ return 4242; }
void sim_abort(void){ violate(V_HEAP,"library called abort() (internal corruption or misuse detected)"); }
void sim_assert_fail(const char*a,const char*f,unsigned l,const char*fn){ (void)fn; (void)f; violate(V_HEAP,"assertion failed: %s (line %u)",a,l); }
void sim_ffi_assert(const char*e,const char*f,int l){ (void)f; violate(V_HEAP,"assertion failed: %s (line %d)",e,l); }
void sim_exit(int c){ violate(V_CRASH,"library called exit(%d)",c); }

/* ---------------- streams ---------------- */
#define MAXSTR 64
static FILE *strm[MAXSTR]; static int nstr; static char str_cloexec[MAXSTR];
static FILE *mkstream(const char*t,int ce){ static char *keep; (void)keep; size_t n=strlen(t); FILE*f; char*b=malloc(n+1); memcpy(b,t,n+1); f=fmemopen(b,n?n:1,"r"); for(int i=0;i<MAXSTR;i++) if(!strm[i]){ strm[i]=f; str_cloexec[i]=ce; nstr++; return f; } return f; }
static FILE *fop(const char*path,const char*mode,int kind){
  sim_yield(1); S->sysc++; logev("fopen %s",path);
  int e=fault(kind); if(e){ if(is_polpath(path)) polfault=1; hashev(13,kind,e); errno=e; return 0; }
  const char*t=pseudo(path,&e); hashev(13,kind,t!=0);
  if(!t){ S->envfired++; errno=e; return 0; }
  return mkstream(t,kind==K_SETMNT||strchr(mode,'e')!=0); }
FILE *sim_fopen(const char*p,const char*m){ return fop(p,m,K_FOPEN); }
FILE *sim_setmntent(const char*p,const char*m){ return fop(p,m,K_SETMNT); }
FILE *sim_fdopen(int fd,const char*m){ (void)m; (void)fd; errno=ENOMEM; return 0; }
static int unstr(FILE*f){ for(int i=0;i<MAXSTR;i++) if(strm[i]==f){ strm[i]=0; nstr--; return 1; } return 0; }
int sim_fclose(FILE*f){ sim_yield(1); if(!f||!unstr(f)) violate(V_FCLOSE,"library closes a stream it does not hold"); hashev(14,0,0); return fclose(f); }
int sim_endmntent(FILE*f){ sim_yield(1); if(!f) return 1; if(!unstr(f)) violate(V_FCLOSE,"library closes a stream it does not hold"); hashev(14,1,0); fclose(f); return 1; }
ssize_t sim_getline(char**b,size_t*n,FILE*f){ sim_yield(1); int e=fault(K_GETS); if(e){ polfault=1; errno=e; return -1; } return getline(b,n,f); }
ssize_t sim_getdelim(char**b,size_t*n,int d,FILE*f){ sim_yield(1); int e=fault(K_GETS); if(e){ polfault=1; errno=e; return -1; } return getdelim(b,n,d,f); }
char *sim_fgets(char*b,int n,FILE*f){ sim_yield(1); int e=fault(K_GETS); if(e){ polfault=1; errno=e; return 0; } return fgets(b,n,f); }
char *sim_fgets_chk(char*b,size_t z,int n,FILE*f){ if((size_t)n>z) violate(V_HEAP,"fgets overflow"); return sim_fgets(b,n,f); }

/* ---------------- heap ---------------- */
#define HPSZ (24u<<20)
#define MAXBLK 8192
static char *hp; static size_t hpo; static struct { char*p; size_t n; int live; } blk[MAXBLK]; static int nblk, liveblk; static size_t livebytes;
static void *sm(size_t n,int zero){
  if(!hp){ hp=mmap((void*)0x200000000000ull,HPSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(hp==MAP_FAILED) abort(); }
  size_t r=(n+47)&~(size_t)15; int i;
  /* reuse a dead block of the same size once enough are quarantined */
  if(nblk>=MAXBLK||hpo+r>HPSZ){ for(i=0;i<nblk;i++) if(!blk[i].live&&((blk[i].n+47)&~(size_t)15)==r) goto have; errno=ENOMEM; return 0; }
  i=nblk++; blk[i].p=hp+hpo; hpo+=r;
have: blk[i].n=n; blk[i].live=1; liveblk++; livebytes+=n; memset(blk[i].p,zero?0:0xA5,n); memset(blk[i].p+n,0x5C,16); return blk[i].p; }
static int bi(void*p){ 
  if((char*)p<hp||!hp||(char*)p>=hp+hpo) return -1;
  for(int i=nblk-1;i>=0;i--) if(blk[i].p==p) return i; return -2; }
void *sim_malloc(size_t n){ sim_yield(1); int e=fault(K_MALLOC); hashev(16,n,e); if(e){ errno=e; return 0; } return sm(n,0); }
void *sim_calloc(size_t a,size_t b){ sim_yield(1); int e=fault(K_MALLOC); hashev(16,a*b,e); if(e){ errno=e; return 0; } return sm(a*b,1); }
void sim_free(void*p){ sim_yield(1); if(!p) return; int i=bi(p); hashev(17,i,0); if(i==-1){ free(p); return; } if(i<0||!blk[i].live) violate(V_HEAP,"library frees a block twice or never allocated");
  for(int k=0;k<16;k++) if((u8)blk[i].p[blk[i].n+k]!=0x5C) violate(V_HEAP,"library wrote past the end of a heap block");
  blk[i].live=0; liveblk--; livebytes-=blk[i].n; memset(blk[i].p,0xDD,blk[i].n); }
void *sim_realloc(void*p,size_t n){ if(!p) return sim_malloc(n); int i=bi(p); if(i==-1) return realloc(p,n); void*q=sim_malloc(n); if(q){ memcpy(q,p,blk[i].n<n?blk[i].n:n); sim_free(p);} return q; }
int sim_posix_memalign(void**r,size_t a,size_t n){ (void)a; void*p=sim_malloc(n); if(!p) return ENOMEM; *r=p; return 0; }
void *sim_aligned_alloc(size_t a,size_t n){ (void)a; return sim_malloc(n); }

/* ---------------- what the oracles may ask ---------------- */
struct foot footprint(void){ struct foot f; memset(&f,0,sizeof f); f.pages=libpages; f.blocks=liveblk; f.bytes=livebytes; f.streams=nstr;
  for(int i=0;i<hi_pg;i++) if(pg[i].used&&!pg[i].app&&pg[i].file>0&&(pg[i].prot&PROT_EXEC)&&!pg[i].shared) f.xpages++;
  for(int i=0;i<256;i++) if(fdt[i]&&!fdapp[i]) f.fds++; return f; }
int lib_blocks_has(char*p,size_t n){ if(!hp||p<hp||p>=hp+hpo) return 0; for(int i=0;i<nblk;i++) if(blk[i].live&&p>=blk[i].p&&p+n<=blk[i].p+blk[i].n) return 1; return 0; }
int mem_rw(char*p,size_t n){ if(lib_blocks_has(p,n)) return 1; if(n==0) n=1; for(char*q=(char*)((u64)p&~4095ull);q<p+n;q+=4096){ if(!inar(q)) return 0; struct pg*g=&pg[pgi(q)]; if(!g->used||g->app||(g->prot&3)!=3) return 0; } return 1; }
int code_prot(char*p){ if(!inar(p)) return -1; struct pg*g=&pg[pgi(p)]; if(!g->used) return 0; return g->prot; }
int code_src(char*p){ if(!inar(p)) return 0; struct pg*g=&pg[pgi(p)]; if(!g->used) return 0;
  if(g->file>0){ struct sfile*f=&F[g->file]; if(f->kind==F_LIB||f->kind==F_POISON) return SRC_STATIC_LIB; if(!g->shared) return SRC_STATIC_TMP; return f->kind==F_MEMFD?SRC_MEMFD:SRC_DIRFILE; }
  if((g->prot&6)==6) return SRC_RWX; return SRC_PRIVX; }
int is_poison_page(char*p){ if(!inar(p)) return 0; struct pg*g=&pg[pgi(p)]; return g->used&&g->file>0&&F[g->file].kind==F_POISON; }
int backing_held(void){ for(int i=0;i<256;i++) if(fdt[i]&&!fdapp[i]&&(F[fdt[i]].kind==F_TMP||F[fdt[i]].kind==F_MEMFD)) return 1; return 0; }
int data_shared_file(char*p){ if(!inar(p)) return 0; struct pg*g=&pg[pgi(p)]; return g->used&&g->file>0&&g->shared; }
static int rank_of(int d){ /* documented order: memfd 0, then directories */
  static const int r[NDIR]={1,2,3,4,5,6,7,8,9,10}; return r[d]; }
int code_loc(char*p){ if(!inar(p)) return -1; struct pg*g=&pg[pgi(p)]; if(!g->used||g->file<=0) return -1; struct sfile*f=&F[g->file]; if(f->kind==F_MEMFD) return 0; if(f->kind==F_TMP&&f->dir>=0) return rank_of(f->dir); return -1; }
int loc_usable(int l,int need){
  if(l==0) return E.memfd==MF_OK;
  int d=l-1; if(d<0||d>=NDIR) return 0;
  if(d>=6){ int i=d-6; int listed=(i<2&&E.mtab==MT_LIST)||(i>=(E.mtab==MT_LIST?1:0)&&(E.mounts==MT_LIST||E.selinux==SE_MOUNTS)); if(!listed||E.mopt[i]!=0) return 0; }
  if(E.dir[d]!=D_OK&&E.dir[d]!=D_CAP1&&E.dir[d]!=D_CAP2&&E.dir[d]!=D_CAP4) return 0;
  return dircap(d)>=need; }
int ladder_first(void){ for(int l=0;l<=NDIR;l++) if(loc_usable(l,E.page>>12)) return l; return -1; }
int caps_limited(void){ if(E.maxpages||simlimit) return 1; for(int d=0;d<NDIR;d++) if(E.dir[d]==D_CAP1||E.dir[d]==D_CAP2||E.dir[d]==D_CAP4) return 1; return 0; }
int ladder_ok(int strict){ /* strict: the library's own code is counted too */
  if(strict&&HAVE_STATIC&&lib_usable()) return 1;
  if(!locked_pol()&&E.rwx==RWX_OK) return 1;
  return ladder_first()>=0; }
int file_holes(char*why){
  for(int i=0;i<hi_pg;i++) if(pg[i].used&&!pg[i].app&&pg[i].file>0&&pg[i].shared&&(pg[i].prot&PROT_WRITE)&&(F[pg[i].file].kind==F_TMP||F[pg[i].file].kind==F_MEMFD)){ int o=pg[i].foff; if(o<FPAGES&&!(F[pg[i].file].resv[o>>3]>>(o&7)&1)){ sprintf(why,"page %d of the backing file is mapped but its storage is not reserved",o); return 1; } }
  return 0; }
int os_hygiene(char*why){
  for(int i=1;i<nF;i++) if(F[i].linked){ sprintf(why,"temporary file %.60s still has a name",F[i].name); return V_NAME; }
  int n=0; for(int i=0;i<256;i++) if(fdt[i]&&!fdapp[i]){ n++; int fl=fcntl(i,F_GETFD); if(fl<0){ sprintf(why,"descriptor %d vanished",i); return V_FCLOSE; } if(!(fl&FD_CLOEXEC)){ sprintf(why,"descriptor %d held without close-on-exec",i); return V_CLOEXEC; }
    /* a descriptor is kept for the file that code is mapped from; one that nothing was ever mapped from belongs to an attempt that was given up */
    if(!F[fdt[i]].mapped){ sprintf(why,"descriptor %d is still open on %.60s, which was opened, never mapped and given up",i,F[fdt[i]].name); return V_LEAKFD; } }
  for(int i=0;i<MAXSTR;i++) if(strm[i]){ n++; if(!str_cloexec[i]){ sprintf(why,"stream held without close-on-exec"); return V_CLOEXEC; } }
  if(n>4){ sprintf(why,"%d descriptors held",n); return V_LEAKFD; }
  return 0; }
/* application's own resources */
void *app_map(int pages,int mode){
  int s=-1;
  if(mode==1&&last_unmapped_ok&&last_unmap_n>=pages&&range_free(last_unmap_pg,pages)) s=last_unmap_pg;
  else if(mode==2){ for(int i=0;i+1<hi_pg+2;i++) if(pg[i].used&&!pg[i].app&&range_free(i+1,pages)){ s=i+1; break; } }
  else if(mode==3){ for(int i=pages;i<hi_pg;i++) if(pg[i].used&&!pg[i].app&&range_free(i-pages,pages)){ s=i-pages; break; } }
  if(s<0){ mapcalls+=1000; s=place(pages); mapcalls-=1000; }
  if(s<0) return 0;
  void*a=(void*)(ABASE+((u64)s<<12));
  if(mmap(a,(size_t)pages<<12,7,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED,-1,0)==MAP_FAILED) return 0;
  setp(s,pages,7,0,0,0,1); hashev(30,(u64)a,mode); return a; }
void app_unmap(void*p,int pages){ int s=pgi(p); clr(s,pages); mmap(p,(size_t)pages<<12,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); }
void *app_dual(int pages,void**x){
  int fd=syscall(SYS_memfd_create,"app",1); if(fd<0) return 0; if(ftruncate(fd,(off_t)pages<<12)){close(fd);return 0;}
  int s=place(pages); if(s<0){close(fd);return 0;} void*a=(void*)(ABASE+((u64)s<<12)); mmap(a,(size_t)pages<<12,3,MAP_SHARED|MAP_FIXED,fd,0); setp(s,pages,3,1,0,0,1);
  mapcalls+=500; s=place(pages); mapcalls-=500; if(s<0){close(fd);return 0;} void*b=(void*)(ABASE+((u64)s<<12)); mmap(b,(size_t)pages<<12,5,MAP_SHARED|MAP_FIXED,fd,0); setp(s,pages,5,1,0,0,1);
  close(fd); *x=b; hashev(31,(u64)a,(u64)b); return a; }
int app_fd_open(void){ int fd=syscall(SYS_memfd_create,"appfd",1); if(fd<0) return -1; if(fd>=256){close(fd);return -1;} int f=newfile(F_APP,-1,0,"app"); fdt[fd]=f; fdapp[fd]=1; F[f].nfd=1; hashev(32,fd,0); return fd; }
int app_fd_ok(int fd){ return fdapp[fd]&&fdt[fd]&&fcntl(fd,F_GETFD)>=0; }
void app_fd_close(int fd){ if(fd>=0&&fdapp[fd]&&fdt[fd]){ F[fdt[fd]].nfd=0; fdt[fd]=0; fdapp[fd]=0; close(fd);} }
void env_set(int what,int val){
  /* what: 0..NDIR-1 dir state; 20 rwx; 21 lib; 22 memfd; 23 selinux; 24 maxpages (+current); 25 tmpf all; 26 mounts */
  env_changed=1; hashev(33,what,val);
  if(what<NDIR) E.dir[what]=val;
  else if(what==20) E.rwx=val; else if(what==21) E.lib=val; else if(what==22) E.memfd=val; else if(what==23) E.selinux=val;
  else if(what==24) E.maxpages=val?libpages+val-1:0;
  else if(what==25){ for(int i=0;i<NDIR;i++) E.tmpf[i]=val; }
  else if(what==26){ E.mounts=val; E.mtab=val; } }
