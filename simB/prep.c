/* preparing interfaces: every verdict and every interface made after some history is compared with what untouched copies of
   the same types give (C17) */
#include "sim.h"
#define NPT 12
struct pt { int nel, null, valid, size, align; short el[9]; struct { short off, len; } lf[96]; int nlf; };
struct inst { ffi_type t[NPT]; ffi_type *el[NPT][10]; };
static struct pt D[NPT]; static int np; static int shared_ok[NPT];
static struct inst own[MAXT], shared; static struct { void *w, *code; int busy; } pc[MAXT];
extern void *closure_mem(void **code); extern ffi_type *ftype(int t); extern void step_on(struct act *a), step_off(void);
static void add_leaves(struct pt *d, int off, int e) {
  if (e < 100) { if (d->nlf < 96) { d->lf[d->nlf].off = off; d->lf[d->nlf++].len = e == K_LD ? 10 : TD[e].size; } else d->valid = 2; return; }
  struct pt *s = &D[e - 100]; for (int i = 0; i < s->nlf; i++) if (d->nlf < 96) { d->lf[d->nlf].off = off + s->lf[i].off; d->lf[d->nlf++].len = s->lf[i].len; } else d->valid = 2; }
static void describe(u64 seed) { u64 s = mix(seed + 17); np = 3 + rn(&s, NPT - 2); if (np > NPT) np = NPT;
  for (int i = 0; i < np; i++) { struct pt *d = &D[i]; memset(d, 0, sizeof *d); d->nel = rn(&s, 6) == 0 ? 0 : 1 + rn(&s, 5); d->null = rn(&s, 12) == 0; d->valid = 1;
    for (int k = 0; k < d->nel; k++) { u32 r = rn(&s, 100); d->el[k] = r < 42 && i ? 100 + rn(&s, i) : r == 99 ? K_VOID : rn(&s, 12); }
    if (d->null || !d->nel) { d->valid = 0; continue; }
    for (int k = 0; k < d->nel; k++) { int e = d->el[k], sz, al; if (e >= 100) { if (!D[e - 100].valid) { d->valid = 0; break; } if (D[e - 100].valid == 2) d->valid = 2; sz = D[e - 100].size; al = D[e - 100].align; } else if (e == K_VOID) { d->valid = 2; sz = al = 1; } else { sz = TD[e].size; al = TD[e].align; }
      d->size = (d->size + al - 1) / al * al; if (e != K_VOID) add_leaves(d, d->size, e); d->size += sz; if (al > d->align) d->align = al; }
    if (d->valid) d->size = (d->size + d->align - 1) / d->align * d->align; } }
static void build(struct inst *n) { memset(n, 0, sizeof *n); for (int i = 0; i < np; i++) { n->t[i].type = FFI_TYPE_STRUCT; n->t[i].elements = D[i].null ? 0 : n->el[i]; for (int k = 0; k < D[i].nel; k++) n->el[i][k] = D[i].el[k] >= 100 ? &n->t[D[i].el[k] - 100] : ftype(D[i].el[k]); } }
void pool_init(void) { int any = 0; for (int i = 0; i < P.nops; i++) if (P.ops[i].kind == K_PREP) any = 1; if (!any) return;
  describe(P.pool); for (int t = 0; t < P.nth; t++) { build(&own[t]); if (!(pc[t].w = closure_mem(&pc[t].code))) pc[t].code = 0; }
  build(&shared); for (int i = 0; i < np; i++) { shared_ok[i] = 0; if (D[i].valid) { ffi_cif c; if (ffi_prep_cif(&c, FFI_UNIX64, 0, &shared.t[i], 0) == FFI_OK) shared_ok[i] = 1; } } }
static ffi_type *ty(struct inst *n, int e) { return e >= 100 ? &n->t[e - 100] : ftype(e); }
struct pctx { u64 magic; ffi_cif *cif; int n; int ret; short *arg; u8 **gold, *res; int seen; };
static int leafcmp(int e, const u8 *a, const u8 *b) { if (e < 100) return memcmp(a, b, e == K_LD ? 10 : TD[e].size); struct pt *d = &D[e - 100]; for (int i = 0; i < d->nlf; i++) if (memcmp(a + d->lf[i].off, b + d->lf[i].off, d->lf[i].len)) return 1; return 0; }
static int esize(int e) { return e >= 100 ? D[e - 100].size : TD[e].size; }
static u64 widen(int k, const u8 *p) { switch (k) { case K_U8: return *p; case K_I8: return (u64)(int64_t)*(int8_t*)p; case K_U16: return *(uint16_t*)p; case K_I16: return (u64)(int64_t)*(int16_t*)p; case K_U32: return *(u32*)p; case K_I32: return (u64)(int64_t)*(int32_t*)p; default: return *(u64*)p; } }
static void pc_handler(ffi_cif *cif, void *rv, void **av, void *ud) { step_off(); struct pctx *c = ud; if (c->magic != 0x9c17 || cif != c->cif) violate(V_IDENT, "the handler of a prepared interface received other data"); c->seen++;
  for (int i = 0; i < c->n; i++) if (leafcmp(c->arg[i], av[i], c->gold[i])) violate(V_ARGS, "argument %d of %d wrong in a call through an interface prepared after other preparations", i, c->n);
  if (c->ret == K_VOID) return; if (c->ret <= K_PTR) *(u64*)rv = widen(c->ret, c->res); else memcpy(rv, c->res, esize(c->ret)); }
static int usable(int e, int abi) { if (e == K_VOID) return 0; if (e < 100) return !(abi == FFI_WIN64 && e == K_LD); struct pt *d = &D[e - 100]; if (d->valid != 1 || d->size > 256) return 0; if (abi == FFI_WIN64) for (int i = 0; i < d->nlf; i++) if (d->lf[i].len == 10) return 0; return 1; }
/* what the documented rules say, from the description alone; -1: not decided here */
static int want_type(int e) { return e < 100 ? FFI_OK : D[e - 100].valid == 2 ? -1 : D[e - 100].valid ? FFI_OK : FFI_BAD_TYPEDEF; }
static int badabi(int abi) { return !(abi > FFI_FIRST_ABI && abi < FFI_LAST_ABI); }
static int want_cif(int abi, int n, const short *e, int nf) { if (badabi(abi)) return FFI_BAD_ABI; int unk = 0;
  for (int i = -1; i < n; i++) { int w = want_type(e[i < 0 ? n : i]); if (w == FFI_BAD_TYPEDEF && !unk) return w; if (w < 0) unk = 1; }
  if (unk) return -1; if (nf >= 0) for (int i = nf; i < n; i++) if (e[i] < 100 && (e[i] < K_U32 || e[i] == K_F32)) return FFI_BAD_ARGTYPE; return FFI_OK; }
static void same_layout(struct inst *h, struct inst *f, int e) { ffi_type *x = ty(h, e), *y = ty(f, e); if (x->size != y->size || x->alignment != y->alignment) violate(V_HISTORY, "size or alignment of a type differs from a fresh copy of it");
  if (e >= 100 && D[e - 100].valid == 1 && x->size && (x->size != (size_t)D[e - 100].size || x->alignment != D[e - 100].align)) violate(V_HISTORY, "a type is laid out with size %d alignment %d instead of %d and %d", (int)x->size, x->alignment, D[e - 100].size, D[e - 100].align); }
static struct { ffi_type *at[3][9]; ffi_cif cif[3]; short e[3][9]; int busy; } keep[MAXT];   /* vectors and interfaces used again and again */
struct item { int off, abi, n, nf, st, cif, vec; short e[9]; ffi_cif copy; size_t offs[12]; };
static void prep_history1(const struct op *o) { struct act *a = self->top; u64 s = mix(o->seed + 3); int sh = rn(&s, 100) < (P.nth > 1 ? 55 : 20); struct inst *h = sh ? &shared : &own[self->id]; S->preps++;
  static const ffi_abi ab[] = { FFI_UNIX64, FFI_UNIX64, FFI_UNIX64, FFI_GNUW64, FFI_WIN64, FFI_UNIX64, FFI_GNUW64, 0, FFI_LAST_ABI, 99 };
  /* a history of preparations, with the same vectors and interfaces used over again */
  int m = 1 + (rn(&s, 2) ? rn(&s, 5) : 0); struct item *it = (struct item*)ralloc(sizeof *it * m, 16); __typeof__(&keep[0]) k = &keep[self->id], k0 = k; if (k->busy) { k = (__typeof__(k))ralloc(sizeof *k, 16); memset(k, 0, sizeof *k); } k0->busy++;
  for (int j = 0; j < m; j++) { struct item *x = &it[j]; memset(x, 0, sizeof *x); x->n = rn(&s, 7); x->nf = -1; x->abi = ab[rn(&s, rn(&s, 6) ? 7 : 10)]; x->vec = rn(&s, 3); x->cif = rn(&s, 3); short *e = k->e[x->vec];
    int again = j && rn(&s, 2); if (again) { x->vec = it[j - 1].vec; x->n = it[j - 1].n; e = k->e[x->vec]; if (rn(&s, 2)) x->cif = it[j - 1].cif; if (rn(&s, 2)) x->abi = it[j - 1].abi; }
    int one = again && x->n ? (int)rn(&s, x->n + 1) : -1;   /* change one entry of the vector only */
    for (int i = 0; i <= x->n; i++) { if (again && i != one && (e[i] < 100 || !sh || shared_ok[e[i] - 100]) && !(i < x->n && e[i] == K_VOID)) continue;
      for (int g = 0;; g++) { e[i] = rn(&s, 100) < 55 ? 100 + rn(&s, np) : i == x->n && rn(&s, 6) == 0 ? K_VOID : rn(&s, 12); if (!sh || e[i] < 100 || shared_ok[e[i] - 100]) break; if (g > 20) { e[i] = K_I32; break; } } }
    memcpy(x->e, e, sizeof x->e); for (int i = 0; i < x->n; i++) k->at[x->vec][i] = ty(h, e[i]);
    if (rn(&s, 10) < 2 && e[0] >= 100) { x->off = 1 + !!rn(&s, 4); memset(x->offs, 0xee, sizeof x->offs); step_on(a); x->st = ffi_get_struct_offsets(x->abi, ty(h, e[0]), x->off == 2 ? x->offs : 0); step_off(); }
    else { if (rn(&s, 10) < 3) x->nf = rn(&s, x->n + 1); if (x->nf == 0) x->nf = -1; ffi_cif *c = &k->cif[x->cif]; if (rn(&s, 2)) memset(c, rn(&s, 256), sizeof *c);
      step_on(a); x->st = x->nf < 0 ? ffi_prep_cif(c, x->abi, x->n, ty(h, e[x->n]), k->at[x->vec]) : ffi_prep_cif_var(c, x->abi, x->nf, x->n, ty(h, e[x->n]), k->at[x->vec]); step_off(); x->copy = *c; }
    hashev(31, x->st, x->off); if (x->st != FFI_OK) S->rejects++; logev("op %d %s %s abi %d: status %d", a->op, x->off ? "offsets" : "prepare", sh ? "shared types" : "own types", x->abi, x->st); }
  /* every verdict against the rules and against fresh copies of the same types */
  for (int j = 0; j < m; j++) { struct item *x = &it[j]; u8 *mark = self->ap; struct inst *f = (struct inst*)ralloc(sizeof *f, 16); build(f); int n = x->n;
    if (x->off) { size_t of[12]; memset(of, 0xee, sizeof of); int w = badabi(x->abi) ? FFI_BAD_ABI : want_type(x->e[0]); if (w >= 0 && x->st != w) violate(V_HISTORY, "ffi_get_struct_offsets returned %d instead of %d", x->st, w);
      int stf = ffi_get_struct_offsets(x->abi, ty(f, x->e[0]), x->off == 2 ? of : 0); if (x->st != stf) violate(V_HISTORY, "ffi_get_struct_offsets returned %d for a type it returns %d for when it is fresh", x->st, stf);
      if (stf == FFI_OK) { if (memcmp(x->offs, of, sizeof of)) violate(V_HISTORY, "the member offsets differ from those of a fresh copy of the type"); same_layout(h, f, x->e[0]); } }
    else { ffi_type *af[9]; for (int i = 0; i < n; i++) af[i] = ty(f, x->e[i]); ffi_cif cf; memset(&cf, 0x5a, sizeof cf); int w = want_cif(x->abi, n, x->e, x->nf); if (w >= 0 && x->st != w) violate(V_HISTORY, "preparing returned %d instead of %d", x->st, w);
      int stf = x->nf < 0 ? ffi_prep_cif(&cf, x->abi, n, ty(f, x->e[n]), af) : ffi_prep_cif_var(&cf, x->abi, x->nf, n, ty(f, x->e[n]), af);
      if (x->st != stf) violate(V_HISTORY, "preparing returned %d for types and a convention that give %d when the types are fresh", x->st, stf);
      if (stf == FFI_OK) { ffi_cif *c = &x->copy; if (c->bytes != cf.bytes || c->flags != cf.flags || c->nargs != cf.nargs || c->abi != cf.abi) violate(V_HISTORY, "the prepared interface differs from one prepared from fresh types"); for (int i = 0; i <= n; i++) same_layout(h, f, x->e[i]); } }
    self->ap = mark; }
  /* and the last one works */
  struct item *x = &it[m - 1]; if (x->off || x->st != FFI_OK) return; int n = x->n, nf = x->nf, abi = x->abi; short *e = x->e; ffi_cif *ch = &k->cif[x->cif];
  if (!pc[self->id].code || pc[self->id].busy || !rn(&s, 3)) return;
  for (int i = 0; i <= n; i++) if (!(i == n && e[i] == K_VOID) && !usable(e[i], abi)) return;
  if (nf >= 0) for (int i = nf; i < n; i++) if (e[i] < 100 && (e[i] < K_U32 || e[i] == K_F32)) return;
  u8 *gold[9], *val[9]; void *av[9]; for (int i = 0; i < n; i++) { int z = esize(e[i]); gold[i] = ralloc(z + 16, 32); val[i] = ralloc(z + 16, 32); for (int k = 0; k < z; k++) gold[i][k] = val[i][k] = rnd(&s) >> 13; av[i] = val[i]; }
  int rz = esize(e[n]); u8 *res = ralloc(rz + 16, 32), *rv = ralloc(rz + 64, 32); for (int k = 0; k < rz; k++) res[k] = rnd(&s) >> 13; memset(rv, 0xc3, rz + 64);
  struct pctx c = { 0x9c17, ch, n, e[n], e, gold, res, 0 };
  if (ffi_prep_closure_loc(pc[self->id].w, ch, pc_handler, &c, pc[self->id].code) != FFI_OK) violate(V_PREP, "closure preparation failed for an accepted interface");
  pc[self->id].busy = 1; step_on(a); ffi_call(ch, (void(*)(void))pc[self->id].code, rv, av); step_off(); pc[self->id].busy = 0; S->calls++;
  if (c.seen != 1) violate(V_IDENT, "the handler ran %d times for one call", c.seen);
  if (e[n] != K_VOID) { if (e[n] <= K_PTR ? *(u64*)rv != widen(e[n], res) : leafcmp(e[n], rv, res)) violate(V_RESULT, "wrong result from a call through an interface prepared after other preparations"); }
}
void prep_history(const struct op *o) { int id = self->id, b = keep[id].busy; prep_history1(o); keep[id].busy = b; }
