#!/bin/bash
# mk.sh <scenario> <asan|plain|conc> <outdir> [repo]: build one simulator executable from the repository's current headers.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
scn=$1; mode=$2; out=$3; repo=${4:-/repo}
mkdir -p "$out"
core=$here/core
CF="-std=c++17 -O2 -g1 -w -fno-omit-frame-pointer"
pids=()
for f in core io sched; do g++ $CF -c "$core/$f.cpp" -o "$out/$f.o" & pids+=($!); done
units=()
COMMON="-std=c++11 -include cstdint -I$repo/include -w -g1 -fno-omit-frame-pointer"
if [ "$mode" = asan ]; then
  g++ $COMMON -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -c "$here/scn/$scn.cpp" -o "$out/scn.o" & pids+=($!)
elif [ "$mode" = cov ]; then
  g++ $CF -c "$core/cov.cpp" -o "$out/cov.o" & pids+=($!)
  clang++ $COMMON -O0 -fprofile-instr-generate -fcoverage-mapping -c "$here/scn/$scn.cpp" -o "$out/scn.o" & pids+=($!)
elif [ "$mode" = plain ]; then
  g++ $COMMON -O1 -D_GLIBCXX_ASSERTIONS -c "$here/scn/$scn.cpp" -o "$out/scn.o" & pids+=($!)
else
  g++ $CF -c "$core/hb.cpp" -o "$out/hb.o" & pids+=($!)
  clang++ $COMMON -O1 -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -c "$here/scn/$scn.cpp" -o "$out/scn.o" & pids+=($!)
fi
# A scenario of two source files: the simulator decides when each of them is initialised.
if [ -f "$here/scn/${scn}_b.cpp" ]; then
  case $mode in
    asan) g++ $COMMON -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -c "$here/scn/${scn}_b.cpp" -o "$out/scn_b.o" & ;;
    conc) clang++ $COMMON -O1 -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -c "$here/scn/${scn}_b.cpp" -o "$out/scn_b.o" & ;;
    cov) clang++ $COMMON -O0 -fprofile-instr-generate -fcoverage-mapping -c "$here/scn/${scn}_b.cpp" -o "$out/scn_b.o" & ;;
    *) g++ $COMMON -O1 -D_GLIBCXX_ASSERTIONS -c "$here/scn/${scn}_b.cpp" -o "$out/scn_b.o" & ;;
  esac
  pids+=($!)
  units=("$out/scn_b.o")
fi
case "$scn" in j0*|l02)   # optional
  mkdir -p "$out/locale"
  localedef -i de_DE -f UTF-8 "$out/locale/de_DE.utf8" >/dev/null 2>&1 &
  if [ "$scn" = l02 ]; then
    localedef -i tr_TR -f UTF-8 "$out/locale/tr_TR.utf8" >/dev/null 2>&1 &
    localedef -i fr_FR -f ISO-8859-1 "$out/locale/fr_FR.iso88591" >/dev/null 2>&1 &
  fi ;;
esac
for p in "${pids[@]}"; do wait "$p"; done
if [ ${#units[@]} -gt 0 ]; then
  objcopy --rename-section .init_array=sim_init_a "$out/scn.o"
  objcopy --rename-section .init_array=sim_init_b "$out/scn_b.o"
fi
if [ "$mode" = asan ]; then
  g++ -fsanitize=address,undefined -rdynamic "$out"/{core,io,sched,scn}.o ${units[@]+"${units[@]}"} -o "$out/sim" -lpthread -ldl
elif [ "$mode" = cov ]; then
  clang++ -fprofile-instr-generate -rdynamic "$out"/{core,io,sched,cov,scn}.o ${units[@]+"${units[@]}"} -o "$out/sim" -lpthread -ldl
elif [ "$mode" = plain ]; then
  g++ -rdynamic "$out"/{core,io,sched,scn}.o ${units[@]+"${units[@]}"} -o "$out/sim" -lpthread -ldl
else
  g++ -rdynamic "$out"/{core,io,sched,hb,scn}.o ${units[@]+"${units[@]}"} -o "$out/sim" -lpthread -ldl
fi
wait
