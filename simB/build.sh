#!/bin/bash
# build.sh OUTDIR [REPO]  - compiles libffi's sources from REPO with the shipped flags and links the call simulator
set -e
OUT=$1; R=${2:-/repo}; H=$(cd "$(dirname "$0")" && pwd); V=$(dirname "$H")
mkdir -p $OUT/inc
sed -e 's/@VERSION@/3.4.8/;s/@TARGET@/X86_64/;s/@HAVE_LONG_DOUBLE@/1/;s/@FFI_EXEC_TRAMPOLINE_TABLE@/0/;s/@FFI_VERSION_STRING@/3.4.8/;s/@FFI_VERSION_NUMBER@/30408/' $R/include/ffi.h.in > $OUT/inc/ffi.h
cp $V/common/fficonfig.h $OUT/inc/fficonfig.h
BASE="-g -fexceptions -w -DHAVE_CONFIG_H"
SHIP="-O3 -fomit-frame-pointer -fstrict-aliasing -ffast-math"
# the corpus does not depend on libffi: it is built once per version of its generator
CH=$(cat $H/gen.py $H/corpus.h | sha256sum | cut -c1-16); C=$(dirname $OUT)/corpus-$CH
if [ ! -e $C/ok ]; then
  rm -rf $C; mkdir -p $C; NF=24; python3 $H/gen.py $C $NF >/dev/null
  ( for i in $(seq 0 $((NF-1))); do echo "gcc -O1 -fexceptions -w -fno-stack-protector -c $C/g$i.c -o $C/g$i.o"; echo "clang -O1 -fexceptions -w -c $C/c$i.c -o $C/c$i.o"; done; echo "gcc -O1 -w -I$H -c $C/types.c -o $C/types.o"; echo "gcc -c $C/ents.S -o $C/ents.o" ) | xargs -P 8 -I{} sh -c '{} || exit 255'
  rm -f $C/*.c; touch $C/ok
fi
HF="-g -O2 -mno-red-zone -fexceptions -w -I$H"
variant() { # name, compiler, cflags, config edit
  local n=$1 cc=$2 ef=$3 ed=$4 d=$OUT/$1
  mkdir -p $d/inc; cp $OUT/inc/ffi.h $d/inc/; sed "$ed" $OUT/inc/fficonfig.h > $d/inc/fficonfig.h
  local I="-I$d/inc -I$R/include -I$R/src -I$R/src/x86"; local pids=()
  for s in prep_cif raw_api java_raw_api x86/ffi64 x86/ffiw64; do ( b=$(basename $s); $cc $BASE $ef -ffunction-sections $I -c $R/src/$s.c -o $d/$b.o; rename $d/$b.o ffitext; objcopy $SUBST $d/$b.o ) & pids+=($!); done
  for s in types closures tramp debug; do $cc $BASE $ef $I -c $R/src/$s.c -o $d/$s.o & pids+=($!); done
  for s in unix64 win64; do ( $cc $BASE $(echo "$ef" | tr ' ' '\n' | grep cf-prot) $I -c $R/src/x86/$s.S -o $d/$s.o; rename $d/$s.o ffiasm ) & pids+=($!); done
  for s in rt prep main; do gcc $HF -Wall -Wno-misleading-indentation $I -c $H/$s.c -o $d/h_$s.o & pids+=($!); done
  g++ $HF $I -c $H/cx.cc -o $d/h_cx.o & pids+=($!)
  gcc $I -c $H/asm.S -o $d/h_asm.o & pids+=($!)
  for p in ${pids[@]}; do wait $p; done
  g++ -g -no-pie -o $d/simB $d/*.o $C/*.o -lpthread
}
rename() { # object, section: all code of the object goes into one section
  local a=""; for s in $(objdump -h $1 | awk '$2 ~ /^\.text/ {print $2}'); do a="$a --rename-section $s=$2"; done; objcopy $a $1
}
SUBST=""; for s in malloc calloc realloc free aligned_alloc posix_memalign pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_rwlock_wrlock pthread_rwlock_rdlock pthread_rwlock_unlock mtx_lock mtx_trylock mtx_unlock pthread_once; do SUBST="$SUBST --redefine-sym $s=b_$s"; done
variant default gcc "$SHIP" "" & a=$!
variant nostatic gcc "$SHIP" "/FFI_EXEC_STATIC_TRAMP/d" & b=$!
variant nocet gcc "$SHIP -fcf-protection=none" "" & c=$!
variant debug gcc "-O0 -DFFI_DEBUG=1 -DDEBUG=1 -fstack-protector-all" "" & dd=$!
variant clang clang "-O2 -fomit-frame-pointer -fstrict-aliasing" "" & e=$!
for p in $a $b $c $dd $e; do wait $p; done
