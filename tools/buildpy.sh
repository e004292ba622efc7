#!/bin/bash
# buildpy.sh OUT_DIR [plain|asan]: builds the Python package from /repo's working tree into OUT_DIR/i
set -e
out=$1; kind=${2:-plain}; repo=${REPO:-/repo}
mkdir -p "$out/i"
export PATH=/opt/dwo-venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 CC=gcc CXX=g++
opt=(-Doptimization=1 -Db_ndebug=true)
if [ "$kind" = asan ]; then
  opt=(-Doptimization=1 -Db_ndebug=true -Db_sanitize=address,undefined -Db_lundef=false -Ddebug=true)
  export CXXFLAGS="-fno-omit-frame-pointer -g1 -fno-sanitize-recover=undefined -fno-sanitize=vptr" CFLAGS="-fno-omit-frame-pointer -g1"
fi
cd "$repo"
meson setup "$out/b" --wrap-mode=nodownload --prefix="$out/i" -Dbuildtype=release "${opt[@]}" \
  -Dpython.platlibdir="$out/i" -Dpython.purelibdir="$out/i" -Dpython.bytecompile=-1 -Dwerror=false > "$out/setup.log" 2>&1 || { cat "$out/setup.log"; exit 1; }
ninja -C "$out/b" > "$out/ninja.log" 2>&1 || { tail -50 "$out/ninja.log"; exit 1; }
meson install -C "$out/b" --no-rebuild --quiet > "$out/install.log" 2>&1 || { cat "$out/install.log"; exit 1; }
