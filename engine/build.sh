#!/bin/bash
# usage: build.sh OUTDIR   -- builds concolic (symh) and plain (plainh) harnesses from /repo's current tree
# exit 0 on success, 3 when the tree does not build
OUT=${1:?}; E=$(cd "$(dirname "$0")" && pwd); R=${VERIF_REPO:-/repo}
mkdir -p "$OUT" || exit 3; cd "$OUT" || exit 3
CXX=/usr/bin/clang++-18; OPT=/usr/bin/opt-18
[ -f "$OUT/SymFP.so" ] || g++ -O1 -shared -fPIC $(llvm-config-18 --cxxflags) -fno-rtti "$E/SymFP.cpp" -o "$OUT/SymFP.so" &
g++ -O2 -c "$E/symrt.cpp" -o "$OUT/symrt.o" &
g++ -O2 -c "$E/symplain.cpp" -o "$OUT/symplain.o" &
SRCS=$(cd "$R/src" && find . -name '*.cpp' ! -name '*_node.cpp' | sort)
INC="-I$R/include -isystem /usr/include/eigen3 -isystem /usr/include"
INC="-I$R/include -isystem /usr/include/eigen3"
# exactly the release configuration of the project (assertions off)
plain() { g++ -std=c++11 -O2 -DNDEBUG $INC -I"$E" -c "$1" -o "$2" 2>>"$OUT/plain.log"; }
bc() {
  $CXX -std=c++11 -DNDEBUG -O0 -Xclang -disable-O0-optnone -fno-exceptions -ffp-contract=off -DEIGEN_DONT_VECTORIZE -DEIGEN_DISABLE_UNALIGNED_ARRAY_ASSERT \
    -ftrivial-auto-var-init=pattern $INC -I"$E" -c -emit-llvm "$1" -o "$2.bc" 2>>"$OUT/bc.log" ||
  $CXX -std=c++11 -DNDEBUG -O0 -Xclang -disable-O0-optnone -ffp-contract=off -DEIGEN_DONT_VECTORIZE -DEIGEN_DISABLE_UNALIGNED_ARRAY_ASSERT \
    -ftrivial-auto-var-init=pattern $INC -I"$E" -c -emit-llvm "$1" -o "$2.bc" 2>>"$OUT/bc.log"
}
inst() { $OPT -load-pass-plugin="$OUT/SymFP.so" -passes='function(mem2reg),symfp' "$1.bc" -o "$1.i.bc" 2>>"$OUT/bc.log" && $CXX -O1 -c "$1.i.bc" -o "$1.o" 2>>"$OUT/bc.log"; }
# scenarios on internal helpers are dropped when the helpers are no longer there
harness() {
  for f in "" "-DNO_UTIL" "-DNO_EKF" "-DNO_UTIL -DNO_EKF"; do
    if g++ -std=c++11 -O2 -DNDEBUG $f $INC -I"$E" -c "$E/harness.cpp" -o "$OUT/ph.o" 2>>"$OUT/plain.log"; then
      INC="$f $INC" bc "$E/harness.cpp" "$OUT/sh"; return
    fi
  done
}
export -f plain bc inst harness; export CXX OPT INC E OUT R
{ i=0; for s in $SRCS; do echo "plain $R/src/$s $OUT/p$i.o"; echo "bc $R/src/$s $OUT/s$i"; i=$((i+1)); done
  echo "harness"; } | xargs -P 8 -I{} bash -c '{}' 
wait
{ i=0; for s in $SRCS; do echo "inst $OUT/s$i"; i=$((i+1)); done; echo "inst $OUT/sh"; } | xargs -P 8 -I{} bash -c '{}'
PO=""; SO=""; i=0; for s in $SRCS; do PO="$PO p$i.o"; SO="$SO s$i.o"; i=$((i+1)); done
g++ $PO ph.o symplain.o -o plainh 2>>"$OUT/plain.log" || exit 3
g++ $SO sh.o symrt.o -o symh 2>>"$OUT/bc.log" || exit 3
exit 0
