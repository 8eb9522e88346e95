#!/usr/bin/env python3
"""gen32.py OUTDIR: native callers and callees of 32-bit x86 (corpus.c), their descriptions (types32.c) and entry stubs (ents32.S).
The corpus does not depend on libffi: the compiler is the reference for every calling convention."""
import random, sys, os
out = sys.argv[1]; R = random.Random(20250707)
P = [("u8","unsigned char",1,1,1),("i8","signed char",1,1,1),("u16","unsigned short",2,2,2),("i16","short",2,2,2),
     ("u32","unsigned int",4,4,4),("i32","int",4,4,4),("ptr","void*",4,4,4),("f32","float",4,4,4),
     ("u64","unsigned long long",8,4,8),("i64","long long",8,4,8),("f64","double",8,4,8),("ld","long double",12,4,10),
     ("cf","_Complex float",8,4,8),("cd","_Complex double",16,4,16),("cld","_Complex long double",24,4,24),("void","void",0,1,0)]
N = {p[0]: i for i, p in enumerate(P)}; NP = len(P); types = []
for n, c, s, a, l in P:
    lv = {"void": [], "cf": [(0,4,"f32"),(4,4,"f32")], "cd": [(0,8,"f64"),(8,8,"f64")], "cld": [(0,10,"ld"),(12,10,"ld")]}.get(n, [(0, l, n)])
    types.append(dict(n=n, c=c, size=s, align=a, els=None, lv=lv))
al = lambda x, a: (x + a - 1) // a * a
seen = {}
def struct(els):
    els = tuple(els)
    if els in seen: return seen[els]
    o = 0; A = 1; lv = []
    for e in els:
        t = types[e]; o = al(o, t["align"]); A = max(A, t["align"]); lv += [(o + x, l, k) for x, l, k in t["lv"]]; o += t["size"]
    types.append(dict(n="s%d" % len(types), c="struct s%d" % len(types), size=al(o, A), align=A, els=els, lv=lv)); seen[els] = len(types) - 1
    return seen[els]
T = lambda s: [N[x] for x in s.split()]
ints = T("u8 i8 u16 i16 u32 i32 ptr"); flts = T("f32 f64"); wide = T("u64 i64"); prims = ints + flts + wide + T("ld"); cplx = T("cf cd cld")
S = [struct([N["u8"]] * n) for n in (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 33)] + [struct([N["i16"]] * n) for n in (1, 2, 3, 5)]
S += [struct([N["i32"]] * n) for n in (1, 2, 3, 4, 9)] + [struct([x]) for x in T("f32 f64 u64 ld ptr cf")] + [struct(T("f32 f32")), struct(T("f64 u8")), struct(T("u8 ld i16"))]
for _ in range(30): S.append(struct([R.choice(prims) for _ in range(R.randint(1, 6))]))
for _ in range(20): S.append(struct([R.choice(S) if R.random() < .5 else R.choice(prims) for _ in range(R.randint(1, 4))]))
S += [struct([N["u64"]] * 40), struct([N["u8"]] * 301), struct([struct([N["i32"]] * 99), N["f64"]] * 3)]
S = sorted(set(S))
SYSV, THIS, FAST, STD, CDECL = 1, 3, 4, 5, 8
ATT = {SYSV: "", THIS: "__attribute__((thiscall))", FAST: "__attribute__((fastcall))", STD: "__attribute__((stdcall))", CDECL: "__attribute__((callee_pop_aggregate_return(0)))"}
sigs = []
def add(abi, ret, args, nf=-1): sigs.append((abi, ret, tuple(args), nf))
anyt = lambda: R.choice(prims) if R.random() < .7 else R.choice(S)
def nargs(): r = R.random(); return R.randint(0, 3) if r < .4 else R.randint(4, 9) if r < .8 else R.randint(10, 30) if r < .97 else R.randint(60, 200)
allT = list(range(NP)) + S
for t in allT:
    for abi in (SYSV, STD, CDECL): add(abi, t, [anyt() for _ in range(R.randint(0, 4))] + ([t] if t != N["void"] else []) + [R.choice(prims)])
for t in prims + [N["void"]] + cplx:
    for abi in (THIS, FAST):
        add(abi, t, [R.choice(ints) for _ in range(R.randint(0, 4))]); add(abi, t, [N["ptr"]] + [R.choice(ints + flts) for _ in range(R.randint(0, 6))])
for _ in range(40): add(R.choice([THIS, FAST]), R.choice(S + prims), [N["ptr"]] + [R.choice(prims) for _ in range(R.randint(0, 6))])
for _ in range(120): add(SYSV, R.choice(allT), [anyt() if R.random() < .95 else R.choice(cplx) for _ in range(nargs())])
for _ in range(40): add(R.choice([STD, CDECL]), R.choice(allT), [anyt() for _ in range(nargs())])
for _ in range(60): add(R.choice([SYSV, SYSV, THIS]), R.choice(ints + flts + wide + [N["void"]]), [N["i32"]] + [R.choice(ints + flts + wide) for _ in range(nargs())])
for _ in range(30): add(SYSV, R.choice(prims), [R.choice(prims) for _ in range(R.randint(1, 5))] + [R.choice(T("i32 u32 ptr f64 u64 i64 ld")) for _ in range(R.randint(0, 7))], R.randint(1, 1))
HUGE = [struct([struct([N["u8"]] * 301)] * 15 + [N["u16"]]), struct([struct([N["u64"]] * 40)] * 17)]
for t in HUGE:
    for abi in (SYSV, STD, CDECL, FAST): add(abi, N["i32"], [N["i32"], t, N["u8"]]); add(abi, t, [N["f64"], t])
for _ in range(24): add(R.choice([SYSV, STD, THIS, FAST]), R.choice(T("u64 f64 i64 f32 ld i8 u16")), [N["ptr"]] + [R.choice(prims) for _ in range(R.randint(29, 120))])
for _ in range(60): add(R.choice([THIS, FAST]), R.choice(prims + S), [R.choice(prims + S)] + [R.choice(prims) for _ in range(R.randint(0, 6))])
sigs2 = []
# gcc lets a structure around a single floating-point value leave the registers of thiscall and fastcall to later
# integers, other compilers do not: not a reference
odd = lambda t: types[t]['els'] and len(types[t]['els']) == 1 and all(k in ('f32','f64','ld') for _, _, k in types[t]['lv'])
for abi, ret, args, nf in sigs:
    if abi in (THIS, FAST): args = tuple(N['u64'] if odd(t) else t for t in args)
    if nf >= 0:
        nf = 1
        while nf < len(args) and args[nf] in T("u8 i8 u16 i16 f32"): nf += 1
        nf = max([i + 1 for i, t in enumerate(args) if t in T("u8 i8 u16 i16 f32")] + [nf])
    sigs2.append((abi, ret, args, nf))
sigs = sigs2
D = "\n".join("struct %s { %s };" % (t["n"], " ".join("%s m%d;" % (types[e]["c"], j) for j, e in enumerate(t["els"]))) for t in types[NP:])
f = open(os.path.join(out, "corpus.c"), "w"); f.write("extern void hookc(int,void**,const long long*,void*);\n%s\n" % D)
for k, (abi, ret, args, nf) in enumerate(sigs):
    rt = types[ret]["c"]; v = nf >= 0; nx = nf if v else len(args); A = ATT[abi]; n = len(args)
    f.write("%s %s t%d(%s) {\n" % (rt, A, k, ", ".join(["%s a%d" % (types[t]["c"], i) for i, t in enumerate(args[:nx])] + (["..."] if v else [])) or "void"))
    if v:
        f.write(" __builtin_va_list ap; __builtin_va_start(ap,a%d);\n" % (nx - 1) + "".join(" %s a%d=__builtin_va_arg(ap,%s);\n" % (types[args[i]]["c"], i, types[args[i]]["c"]) for i in range(nx, n)))
    f.write(" void*pp[]={%s}; long long w[]={%s};\n" % (",".join("&a%d" % i for i in range(n)) or "0", ",".join("a%d" % i if args[i] in ints and args[i] != N["ptr"] else "0" for i in range(n)) or "0"))
    f.write(" hookc(%d,pp,w,0);\n}\n" % k if ret == N["void"] else " %s r; hookc(%d,pp,w,&r); return r;\n}\n" % (rt, k))
    f.write("void l%d(void*c,void**a,void*r){ %s((%s(%s*)(%s))c)(%s); }\n" % (k, "" if ret == N["void"] else "*(%s*)r=" % rt, rt, A, ", ".join([types[t]["c"] for t in args[:nx]] + (["..."] if v else [])) or "void", ", ".join("*(%s*)a[%d]" % (types[t]["c"], i) for i, t in enumerate(args))))
f.close()
f = open(os.path.join(out, "types32.c"), "w"); f.write('#include "corpus32.h"\n%s\n' % D)
for i, t in enumerate(types):
    if t["els"]: f.write("static const short e%d[]={%s};\n" % (i, ",".join(map(str, t["els"]))))
    if t["lv"]: f.write("static const struct leaf v%d[]={%s};\n" % (i, ",".join("{%d,%d,%d}" % (o, l, N[k]) for o, l, k in t["lv"])))
    if i != N["void"]: f.write("struct q%d { char c; %s x; }; _Static_assert(sizeof(%s)==%d && __builtin_offsetof(struct q%d,x)==%d,\"\");\n" % (i, t["c"], t["c"], t["size"], i, t["align"]))
f.write("const struct tdesc TD[]={\n" + "".join("{%d,%d,%d,%d,%s,%d,%s},\n" % (i if i < NP else 99, t["size"], t["align"], len(t["els"] or ()), "e%d" % i if t["els"] else "0", len(t["lv"]), "v%d" % i if t["lv"] else "0") for i, t in enumerate(types)) + "};\nconst int NTD=%d;\n" % len(types))
for k, (abi, ret, args, nf) in enumerate(sigs): f.write("static const short a%d[]={%s}; extern void ent%d(void),l%d(void*,void**,void*);\n" % (k, ",".join(map(str, args)) or "0", k, k))
f.write("const struct sigd SG[]={\n" + "".join("{%d,%d,%d,%d,a%d,(void*)ent%d,l%d},\n" % (abi, ret, len(args), nf, k, k, k) for k, (abi, ret, args, nf) in enumerate(sigs)) + "};\nconst int NSG=%d;\n" % len(sigs)); f.close()
f = open(os.path.join(out, "ents32.S"), "w"); f.write(".text\n")
for k in range(len(sigs)): f.write(".globl ent%d\nent%d: movl %%esp,g_esp; movl %%eax,g_eax; movl %%ecx,g_ecx; movl %%ebx,g_pr; movl %%esi,g_pr+4; movl %%edi,g_pr+8; movl %%ebp,g_pr+12; pushfl; popl g_fl; jmp t%d\n" % (k, k, k))
f.write('.section .note.GNU-stack,"",@progbits\n'); f.close()
print(len(sigs))
