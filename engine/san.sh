#!/bin/bash
# usage: san.sh OUTDIR -- address/undefined-behaviour instrumented builds of the plain harness from /repo's current tree:
# sanp fills indeterminate memory with a pattern, sanz with zeros
OUT=${1:?}; E=$(cd "$(dirname "$0")" && pwd); R=${VERIF_REPO:-/repo}
mkdir -p "$OUT/sp" "$OUT/sz" && cd "$OUT" || exit 3
FL="-std=c++14 -O1 -gline-tables-only -DNDEBUG -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -fno-omit-frame-pointer -I$R/include -I$E -isystem /usr/include/eigen3"
one() { /usr/bin/clang++-18 $FL -ftrivial-auto-var-init=$2 -c "$1" -o "$3" 2>>"$OUT/san.log"; }
hs() { for f in "" "-DNO_UTIL" "-DNO_EKF" "-DNO_UTIL -DNO_EKF"; do /usr/bin/clang++-18 $FL $f -ftrivial-auto-var-init=$1 -c "$E/harness.cpp" -o "$2" 2>>"$OUT/san.log" && return; done; }
export -f one hs; export FL E R OUT
i=0
{ echo "hs pattern sp/h.o"; echo "hs zero sz/h.o"
for s in $(cd "$R/src" && find . -name '*.cpp' ! -name '*_node.cpp' | sort) symplain; do
  f="$R/src/$s"; [ $s = symplain ] && f="$E/symplain.cpp"
  echo "one $f pattern sp/$i.o"; echo "one $f zero sz/$i.o"; i=$((i+1))
done; } | xargs -P 8 -I{} bash -c '{}'
/usr/bin/clang++-18 -fsanitize=address,undefined sp/*.o -o sanp 2>>"$OUT/san.log" && /usr/bin/clang++-18 -fsanitize=address,undefined sz/*.o -o sanz 2>>"$OUT/san.log" || exit 3
rm -r "$OUT/sp" "$OUT/sz"
