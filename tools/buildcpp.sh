#!/bin/bash
# buildcpp.sh OUT_DIR [asan|tsan|memcheck]: compiles /repo's library sources and the harness
set -e
out=$1; kind=${2:-asan}; repo=${REPO:-/repo}; cc=${CCACHE:-}
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$out"
B="-std=c++20 -O1 -g1 -w -DNDEBUG -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer -I$repo/dwave/optimization/include -I$repo/dwave/optimization/src"
case $kind in
 asan) L="$B -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all"; H="$B -fsanitize=address";;
 memcheck) L="$B"; H="$B";;
 tsan) L="$B -fsanitize=thread"; H="$L";;
esac
srcs=$(find "$repo/dwave/optimization/src" -name '*.cpp' | sort)
# longest first
{ echo "$here/cpp/main.cpp $out/zz_main.o $H"
  for s in $(echo "$srcs" | grep /mathematical) $(echo "$srcs" | grep /indexing) $(echo "$srcs" | grep -v '/mathematical\|/indexing'); do
    echo "$s $out/$(echo "${s#$repo/}" | tr / _).o $L"; done
  for m in iter qm wide; do echo "$here/cpp/$m.cpp $out/zz_$m.o $L"; done; } \
 | xargs -P 8 -L 1 sh -c "src=\$0; obj=\$1; shift; $cc g++ \"\$@\" -c \$src -o \$obj || exit 255"
g++ $L $out/*.o -o "$out/vf" -lpthread
