#!/bin/bash
# Builds the analyser from the committed sources into /verif/build (ignored by git).
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$here/../build; mkdir -p $out
hash=$(cat $here/*.cpp $here/*.h $here/build.sh | sha256sum | cut -c1-16)
[ -x $out/rsa-$hash ] && exit 0
inc=$(llvm-config-18 --includedir 2>/dev/null || echo /usr/lib/llvm-18/include)
pids=()
tmp=$(mktemp -d $out/obj.XXXXXX)
for f in node interp main lint; do g++ -O2 -std=c++17 -I$inc -w -c $here/$f.cpp -o $tmp/$f.o & pids+=($!); done
for p in ${pids[@]}; do wait $p; done
g++ $tmp/node.o $tmp/interp.o $tmp/main.o -L/usr/lib/llvm-18/lib -lLLVM-18 -o $tmp/rsa
g++ $tmp/lint.o -L/usr/lib/llvm-18/lib -lLLVM-18 -o $tmp/lint
mv $tmp/lint $out/lint-$hash; mv $tmp/rsa $out/rsa-$hash; rm -r "$tmp"
for o in $out/rsa-* $out/lint-*; do case $o in *-$hash) ;; *) unlink $o;; esac; done
