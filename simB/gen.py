#!/usr/bin/env python3
"""gen.py OUTDIR NFILES: writes the corpus of native callers and callees (types.c with the descriptions, c0.c .. cN.c).
The corpus does not depend on libffi; the compiler is the reference for both calling conventions."""
import random, sys, os
out, NF = sys.argv[1], int(sys.argv[2]); R = random.Random(20240611)
# name: (C type, size, align, leaf length, class)
P = [("u8","unsigned char",1,1,1),("i8","signed char",1,1,1),("u16","unsigned short",2,2,2),("i16","short",2,2,2),
     ("u32","unsigned int",4,4,4),("i32","int",4,4,4),("u64","unsigned long long",8,8,8),("i64","long long",8,8,8),
     ("ptr","void*",8,8,8),("f32","float",4,4,4),("f64","double",8,8,8),("ld","long double",16,16,10),
     ("cf","_Complex float",8,4,8),("cd","_Complex double",16,8,16),("cld","_Complex long double",32,16,32),
     ("cc","_Complex unsigned char",2,1,2),("cs","_Complex short",4,2,4),("ci","_Complex int",8,4,8),("cl","_Complex long long",16,8,16),("void","void",0,1,0)]
N = {p[0]: i for i, p in enumerate(P)}
types = []  # dicts: name, c, size, align, els, leaves
for n, c, s, a, l in P:
    lv = [(0, l, n)] if n not in ("cld", "void") else ([] if n == "void" else [(0, 10, "ld"), (16, 10, "ld")])
    types.append(dict(n=n, c=c, size=s, align=a, els=None, leaves=lv))
NP = len(P)
def al(x, a): return (x + a - 1) // a * a
seen = {}
def struct(els):
    els = tuple(els)
    if els in seen: return seen[els]
    o = 0; A = 1; lv = []
    for e in els:
        t = types[e]; o = al(o, t["align"]); A = max(A, t["align"])
        lv += [(o + x, l, k) for x, l, k in t["leaves"]]; o += t["size"]
    s = al(o, A); i = len(types)
    types.append(dict(n="s%d" % i, c="struct s%d" % i, size=s, align=A, els=els, leaves=lv)); seen[els] = i
    return i
ints = [N[x] for x in "u8 i8 u16 i16 u32 i32 u64 i64 ptr".split()]
flts = [N["f32"], N["f64"]]
prims = ints + flts + [N["ld"]]
cplx = [N[x] for x in "cf cd cld cc cs ci cl".split()]
S = []
for n in list(range(1, 20)) + [24, 31, 32, 33, 40]: S.append(struct([N["u8"]] * n))
for n in range(1, 10): S.append(struct([N["i16"]] * n))
for n in range(1, 8): S.append(struct([N["i32"]] * n)); S.append(struct([N["f32"]] * n))
for n in range(1, 5): S.append(struct([N["u64"]] * n)); S.append(struct([N["f64"]] * n))
for n in range(1, 4): S.append(struct([N["ld"]] * n)); S.append(struct([N["cf"]] * n)); S.append(struct([N["cd"]] * n))
S.append(struct([N["cld"]]))
base = ["u8","i16","i32","u64","ptr","f32","f64","ld"]
for a in base:
    for b in base: S.append(struct([N[a], N[b]]))
for _ in range(60): S.append(struct([N[R.choice(["u8","i8","i16","i32","f32","f32","f64","u64"])] for _ in range(R.randint(3, 5))]))
for _ in range(70):
    els = []
    for _ in range(R.randint(1, 4)):
        els.append(R.choice(S) if R.random() < .45 else R.choice(prims + flts + cplx[:2]))
    i = struct(els)
    if types[i]["size"] <= 200: S.append(i)
# small aggregates: every way a complex or nested part can share an eightbyte with something else
for a in ["cf","ci","cs","cc"]:
    for b in ["u8","i16","i32","f32","f64","u64"]: S.append(struct([N[a], N[b]])); S.append(struct([N[b], N[a]]))
for e in [("f32","cf","f32"),("f32","f32","cf"),("i32","cf"),("cf","cf","f32"),("f32","cs","f32"),("cl",),("cl","u8"),("u8","cc","cs","f32"),("cd","f32"),("cld","u8")]: S.append(struct([N[x] for x in e]))
small = [N[x] for x in "u8 i16 i32 f32 f32 f32 f64 u64 cf cc cs ci".split()]
k = 0
while k < 90:
    inner = struct([R.choice(small) for _ in range(R.randint(1, 3))])
    els = [R.choice(small) for _ in range(R.randint(0, 2))]; els.insert(R.randint(0, len(els)), inner)
    if R.random() < .3: els = [struct(els)] + ([R.choice(small)] if R.random() < .5 else [])
    i = struct(els)
    if types[i]["size"] <= 16: S.append(i); k += 1
S = sorted(set(S)); S = [s for s in S if types[s]["size"] <= 200]
SYSV, GNUW, WIN = 0, 1, 2
sigs = []
def ms_ok(t, abi):
    T = types[t]
    if abi == WIN and any(k == "ld" for _, _, k in T["leaves"]): return False
    return True
def add(abi, ret, args, nfixed=-1):
    if not all(ms_ok(t, abi) for t in list(args) + [ret]): return
    sigs.append((abi, ret, tuple(args), nfixed))
def fill(): 
    k = R.random()
    if k < .25: return []
    if k < .5: return [R.choice(ints) for _ in range(R.randint(1, 7))]
    if k < .7: return [R.choice(flts) for _ in range(R.randint(1, 9))]
    return [R.choice(prims) for _ in range(R.randint(1, 8))]
# large aggregates: always in memory
BIG = []
for n in (33, 47, 64, 81, 125): BIG.append(struct([N["u64"]] * n))
BIG += [struct([N["ld"]] * 20), struct([N["f32"]] * 70), struct([N["u8"]] * 301), struct([N["i16"]] * 350)]
BIG += [struct([BIG[2]] * 2 + [N["u8"]]), struct([BIG[4], N["i32"], BIG[4]]), struct([BIG[4]] * 4 + [N["f64"]])]
while len(BIG) < 22:
    i = struct([R.choice(BIG[:9]) if R.random() < .3 else R.choice(S) for _ in range(R.randint(2, 14))])
    if 200 < types[i]["size"] < 3000: BIG.append(i)
HUGE = [struct([BIG[4]] * 37 + [N["i32"]])]; HUGE.append(struct([HUGE[0], HUGE[0], N["u8"]]))   # more than 32 and 64 KB
allT = list(range(NP - 1)) + S
for t in allT:
    add(SYSV, t, fill() + [t, N["i32"], t])
    if R.random() < .5: add(SYSV, R.choice(prims), [R.choice(ints) for _ in range(5)] + [R.choice(flts) for _ in range(R.choice([0, 6, 7]))] + [t, R.choice(prims), t])
for t in allT:
    if t < NP or types[t]["size"] <= 20 or R.random() < .3:
        add(GNUW, t, fill()[:5] + [t, N["i32"], t])
    if (t < NP or R.random() < .3): add(WIN, t, fill()[:4] + [t, N["f64"], t])
def anyt(): return R.choice(prims) if R.random() < .6 else R.choice(S) if R.random() < .85 else R.choice(cplx)
def nargs(): 
    r = R.random()
    return R.randint(0, 3) if r < .2 else R.randint(4, 9) if r < .55 else R.randint(10, 20) if r < .9 else R.randint(21, 64)
for _ in range(170): add(SYSV, R.choice(allT + [N["void"]] * 8), [anyt() for _ in range(nargs())])
for _ in range(60): add(GNUW, R.choice(allT + [N["void"]] * 8), [anyt() for _ in range(nargs())])
for _ in range(30): add(WIN, R.choice(allT + [N["void"]] * 8), [anyt() for _ in range(nargs())])
# only scalars that the raw forms (also the Java one) support
jr = ints + flts
for _ in range(50): add(SYSV, R.choice(jr + [N["void"]]), [R.choice(jr) for _ in range(nargs())])
for _ in range(15): add(GNUW, R.choice(jr + [N["void"]]), [R.choice(jr) for _ in range(nargs())])
va = [N[x] for x in "i32 u32 u64 i64 ptr f64 ld f64 i32".split()]
for _ in range(45):
    nf = R.randint(1, 9)
    add(SYSV, R.choice(prims + [N["void"]] + S[:40]), [R.choice(prims) for _ in range(nf)] + [R.choice(va) if R.random() < .75 else R.choice(S) for _ in range(R.randint(0, 12))], nf)
for abi in (GNUW, WIN):
    for _ in range(20):
        nf = R.randint(1, 5)
        add(abi, R.choice(prims + [N["void"]]), [R.choice(prims) for _ in range(nf)] + [R.choice([x for x in va if x != N['ld']]) for _ in range(R.randint(0, 8))], nf)
for t in BIG:
    for _ in range(3): add(SYSV, t, fill())
    add(SYSV, R.choice(prims), fill() + [t] + fill()); add(SYSV, R.choice(BIG), fill() + [R.choice(BIG), R.choice(prims), t])
    add(GNUW, t, fill()); add(GNUW, R.choice(prims), fill()[:3] + [t, N["i32"]]); add(WIN, t, fill()); add(WIN, R.choice(BIG), fill()[:4] + [t])
for t in HUGE:
    for abi in (SYSV, GNUW, WIN): add(abi, t, fill()[:3]); add(abi, R.choice(prims[:9]), fill()[:3] + [t, N["i32"]]); add(abi, t, [N["u64"], t])
for abi, n in ((SYSV, 130), (SYSV, 257), (SYSV, 300), (SYSV, 520), (GNUW, 129), (GNUW, 300), (WIN, 140), (WIN, 280)):
    add(abi, R.choice(S), [R.choice(prims[:11]) for _ in range(n)]); add(abi, R.choice(prims[:11]), [anyt() if abi == SYSV else R.choice(prims[:11] + S[:30]) for _ in range(n)])
ABI = {SYSV: "", GNUW: "__attribute__((ms_abi))", WIN: "__attribute__((ms_abi))"}
def decls(): 
    o = []
    for t in types[NP:]:
        o.append("struct %s { %s };" % (t["n"], " ".join("%s m%d;" % (types[e]["c"], j) for j, e in enumerate(t["els"]))))
    return "\n".join(o)
D = decls()
isint = lambda t: t in ints and t != N["ptr"]
W = lambda t, e: ("(long long)%s" % e) if isint(t) else "0"
def clang_ok(sig):
    abi, ret, args, nf = sig
    if abi == SYSV: return True
    return not any(k in ("ld", "cf", "cd", "cld", "cc", "cs", "ci", "cl") for t in list(args) + [ret] for _, _, k in types[t]["leaves"])
def emit(f, k, sig, C):
    abi, ret, args, nf = sig; A = ABI[abi]; rt = types[ret]["c"]; v = nf >= 0; nfix = nf if v else len(args)
    ps = ["%s a%d" % (types[t]["c"], i) for i, t in enumerate(args[:nfix])]
    if v: ps.append("...")
    # a result in memory is built in place, where the caller asked for it (as compilers do for C++)
    sz = types[ret]["size"]; inplace = C == "g" and types[ret]["els"] and (sz > 16 if abi == SYSV else sz not in (1, 2, 4, 8)); rd = rt + "*" if inplace else rt
    if inplace: ps.insert(0, "%s *rp" % rt)
    f.write("%s %s t%s%d(%s) {\n" % (rd, A, C, k, ", ".join(ps) or "void"))
    if v:
        ms = abi != SYSV; vl, vs, ve = ("__builtin_ms_va_list", "__builtin_ms_va_start", "__builtin_ms_va_end") if ms else ("__builtin_va_list", "__builtin_va_start", "__builtin_va_end")
        f.write("  %s ap; %s(ap, a%d);\n" % (vl, vs, nfix - 1))
        for i in range(nfix, len(args)): f.write("  %s a%d = __builtin_va_arg(ap, %s);\n" % (types[args[i]]["c"], i, types[args[i]]["c"]))
        f.write("  %s(ap);\n" % ve)
    n = len(args)
    f.write("  void *pp[] = {%s};\n  long long w[] = {%s};\n" % (", ".join("&a%d" % i for i in range(n)) or "0", ", ".join(W(t, "a%d" % i) for i, t in enumerate(args)) or "0"))
    if ret == N["void"]: f.write("  hookc(%d, pp, w, 0);\n}\n" % k)
    elif inplace: f.write("  hookc(%d, pp, w, rp); return rp;\n}\n" % k)
    else: f.write("  %s r; hookc(%d, pp, w, &r); return r;\n}\n" % (rt, k))
    f.write("void l%s%d(void *c, void **a, void *r) {\n" % (C, k))
    pt = ", ".join(["%s" % types[t]["c"] for t in args[:nfix]] + (["..."] if v else [])) or "void"
    call = "((%s (%s *)(%s))c)(%s)" % (rt, A, pt, ", ".join("*(%s*)a[%d]" % (types[t]["c"], i) for i, t in enumerate(args)))
    f.write("  %s%s;\n}\n" % ("" if ret == N["void"] else "*(%s*)r = " % rt, call))
fs = []
for i in range(NF):
    for C in "gc":
        f = open(os.path.join(out, "%s%d.c" % (C, i)), "w"); fs.append(f)
        f.write("extern void hookc(int, void**, const long long*, void*);\n%s\n" % D)
        for k in range(i, len(sigs), NF):
            if C == "g" or clang_ok(sigs[k]): emit(f, k, sigs[k], C)
        f.close()
f = open(os.path.join(out, "types.c"), "w")
f.write('#include "corpus.h"\n%s\n' % D)
for i, t in enumerate(types):
    if t["els"]: f.write("static const short e%d[]={%s};\n" % (i, ",".join(map(str, t["els"]))))
    if t["leaves"]: f.write("static const struct leaf v%d[]={%s};\n" % (i, ",".join("{%d,%d,%d}" % (o, l, N[k]) for o, l, k in t["leaves"])))
f.write("const struct tdesc TD[]={\n")
for i, t in enumerate(types):
    f.write("{%d,%d,%d,%d,%s,%d,%s},\n" % (i if i < NP else 99, t["size"], t["align"], len(t["els"] or ()), "e%d" % i if t["els"] else "0", len(t["leaves"]), "v%d" % i if t["leaves"] else "0"))
f.write("};\nconst int NTD=%d;\n" % len(types))
for i, t in enumerate(types):
    if i != N["void"]: f.write("_Static_assert(sizeof(%s)==%d && _Alignof(%s)==%d,\"\");\n" % (t["c"], t["size"], t["c"], t["align"]))
for k, (abi, ret, args, nf) in enumerate(sigs):
    f.write("static const short a%d[]={%s}; extern void tg%d(void),lg%d(void*,void**,void*)" % (k, ",".join(map(str, args)) or "0", k, k))
    if clang_ok(sigs[k]): f.write(",tc%d(void),lc%d(void*,void**,void*)" % (k, k))
    f.write(";\n")
f.write("const struct sigd SG[]={\n")
for k, (abi, ret, args, nf) in enumerate(sigs):
    c = clang_ok(sigs[k])
    f.write("{%d,%d,%d,%d,a%d,{(void*)tg%d,%s},{lg%d,%s}},\n" % (abi, ret, len(args), nf, k, k, "(void*)tc%d" % k if c else "0", k, "lc%d" % k if c else "0"))
f.write("};\nconst int NSG=%d;\n" % len(sigs)); f.close()
f = open(os.path.join(out, "ents.S"), "w")
f.write(".text\n.globl ents_base\n.balign 16\nents_base:\n")
for k, g in enumerate(sigs):
    for C in "gc":
        if C == "c" and not clang_ok(g): f.write("ud2\n.balign 16\n")
        else: f.write("leaq t%s%d(%%rip),%%r11\njmp %s\n.balign 16\n" % (C, k, "ent_ms" if g[0] else "ent_sysv"))
f.write('.section .note.GNU-stack,"",@progbits\n'); f.close()
print(len(types), "types", len(sigs), "signatures")
