#!/bin/bash
# build.sh OUTDIR [REPO]  - compiles libffi's sources from REPO with call-outs and links the simulator
set -e
OUT=$1; R=${2:-/repo}; H=$(cd "$(dirname "$0")" && pwd); V=$(dirname "$H")
mkdir -p $OUT/inc
sed -e 's/@VERSION@/3.4.8/;s/@TARGET@/X86_64/;s/@HAVE_LONG_DOUBLE@/1/;s/@FFI_EXEC_TRAMPOLINE_TABLE@/0/;s/@FFI_VERSION_STRING@/3.4.8/;s/@FFI_VERSION_NUMBER@/30408/' $R/include/ffi.h.in > $OUT/inc/ffi.h
cp $V/common/fficonfig.h $OUT/inc/fficonfig.h
BASE="-g -O2 -fomit-frame-pointer -fstrict-aliasing -fexceptions -w -DHAVE_CONFIG_H -D_FORTIFY_SOURCE=0 -U_FORTIFY_SOURCE -fno-builtin-malloc"
INC="-I$OUT/inc -I$R/include -I$R/src -I$R/src/x86"
variant() { # name, extra cflags, harness flags, config edit
  local n=$1 ef=$2 hf=$3 ed=$4 d=$OUT/$1
  mkdir -p $d/inc; cp $OUT/inc/ffi.h $d/inc/; sed "$ed" $OUT/inc/fficonfig.h > $d/inc/fficonfig.h
  local I="-I$d/inc -I$R/include -I$R/src -I$R/src/x86"
  local pids=()
  for s in prep_cif types raw_api java_raw_api closures tramp debug x86/ffi64 x86/ffiw64; do
    gcc $BASE $ef -fsanitize=thread $I -c $R/src/$s.c -o $d/$(basename $s).o & pids+=($!)
  done
  for s in unix64 win64; do gcc $BASE $ef $I -c $R/src/x86/$s.S -o $d/$s.o & pids+=($!); done
  for s in rt os world main; do gcc -g -O2 -Wall -Wno-unused-result -Wno-format-truncation -Wno-misleading-indentation -Wno-format-overflow $hf -I$H $I -c $H/$s.c -o $d/h_$s.o & pids+=($!); done
  for p in ${pids[@]}; do wait $p; done
  for s in prep_cif types raw_api java_raw_api closures tramp debug ffi64 ffiw64; do objcopy --redefine-syms=$H/redefine.txt $d/$s.o & pids+=($!); done; wait
  gcc -g -o $d/simA $d/*.o $H/alias.ld -lpthread
}
variant default "" "" "" & a=$!
variant nostatic "" "-DNOSTATIC" "/FFI_EXEC_STATIC_TRAMP/d" & b=$!
variant debug "-DFFI_DEBUG=1 -DDEBUG=1 -fstack-protector-all -O1" "" "" & c=$!
variant nocet "-fcf-protection=none" "" "" & dd=$!
wait $a; wait $b; wait $c; wait $dd
