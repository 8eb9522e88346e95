#!/bin/bash
# build.sh OUTDIR [REPO]: the 32-bit x86 port of libffi from REPO, freestanding, with the plan executor
set -e
OUT=$1; R=${2:-/repo}; H=$(cd "$(dirname "$0")" && pwd); V=$(dirname "$H"); mkdir -p $OUT/inc/gnu; : > $OUT/inc/gnu/stubs-32.h
sed -e 's/@VERSION@/3.4.8/;s/@TARGET@/X86/;s/@HAVE_LONG_DOUBLE@/1/;s/@FFI_EXEC_TRAMPOLINE_TABLE@/0/;s/@FFI_VERSION_STRING@/3.4.8/;s/@FFI_VERSION_NUMBER@/30408/' $R/include/ffi.h.in > $OUT/inc/ffi.h
sed -e 's/SIZEOF_SIZE_T 8/SIZEOF_SIZE_T 4/;s/SIZEOF_LONG_DOUBLE 16/SIZEOF_LONG_DOUBLE 12/;/HAVE_AS_X86_64_UNWIND/d' $V/common/fficonfig.h > $OUT/inc/fficonfig.h
CH=$(cat $H/gen32.py $H/corpus32.h | sha256sum | cut -c1-16); C=$(dirname $OUT)/corpus32-$CH
if [ ! -e $C/ok ]; then rm -rf $C; mkdir -p $C; python3 $H/gen32.py $C >/dev/null
  gcc -m32 -O1 -w -fno-pic -fno-stack-protector -fcf-protection=none -mno-sse -ffreestanding -fno-asynchronous-unwind-tables -c $C/corpus.c -o $C/corpus.o & gcc -m32 -O1 -w -fno-pic -fno-asynchronous-unwind-tables -I$H -c $C/types32.c -o $C/types32.o & gcc -m32 -c $C/ents32.S -o $C/ents32.o & for j in $(jobs -p); do wait $j; done; touch $C/ok; fi
rename() { local a=""; for s in $(objdump -h $1 | awk '$2 ~ /^\.text/ {print $2}'); do a="$a --rename-section $s=$2"; done; objcopy $a $1; }
variant() { local n=$1 cc=$2 ef=$3 d=$OUT/$1 pids=(); mkdir -p $d; local I="-I$OUT/inc -I$R/include -I$R/src -I$R/src/x86 -idirafter /usr/include/x86_64-linux-gnu"
  for s in prep_cif raw_api types x86/ffi; do ( b=$(basename $s); $cc -m32 -w -fexceptions -DHAVE_CONFIG_H $ef -fno-stack-protector -ffunction-sections $I -c $R/src/$s.c -o $d/$b.o; rename $d/$b.o ffitext ) & pids+=($!); done
  ( $cc -m32 -w -DHAVE_CONFIG_H $(echo "$ef" | tr ' ' '\n' | grep -e cf-prot -e f.*[pP][iI][cC]) $I -c $R/src/x86/sysv.S -o $d/sysv.o; rename $d/sysv.o ffiasm ) & pids+=($!)
  gcc -m32 -O1 -w -g -fno-pic -fno-stack-protector -fcf-protection=none -mno-sse -ffreestanding -fno-builtin -fno-tree-loop-distribute-patterns -fno-asynchronous-unwind-tables -I$H $I -c $H/exec.c -o $d/exec.o & pids+=($!)
  for a in asm32 ehb ehe; do gcc -m32 -c $H/$a.S -o $d/$a.o || exit 1; done
  for p in ${pids[@]}; do wait $p; done; ld -m elf_i386 -z noexecstack -o $d/exec32 $d/ehb.o $(ls $d/*.o | grep -v /eh[be].o) $C/*.o $d/ehe.o
  printf '#!/bin/sh\nexec python3 -S %s/driver.py %s/exec32 "$@"\n' $H $d > $d/simC; chmod +x $d/simC; }
SHIP="-O3 -fomit-frame-pointer -fstrict-aliasing -ffast-math"
variant pic gcc "$SHIP -fPIC -fcf-protection=full" & a=$!
variant nopic gcc "$SHIP -fno-pic -fcf-protection=none" & b=$!
variant debug gcc "-O0 -fPIC" & c=$!
variant clang clang "-O2 -fomit-frame-pointer -fPIC" & e=$!
for p in $a $b $c $e; do wait $p; done
