#!/bin/bash
# builds the IR exporter and the clang plugin into /verif/build (offline; needs clang-18 + LLVM-18 headers)
set -eu
cd "$(dirname "$0")/.."
mkdir -p build evidence
make1() { # source, output, extra flags
  local sha tmp; sha=$(sha256sum "$1" | cut -c1-16)
  if [ -e "build/$2" ] && [ "$(cat "build/$2.sha" 2>/dev/null || true)" = "$sha" ]; then return 0; fi
  tmp=$(mktemp "build/$2.XXXXXX")
  clang++ -O1 -std=c++17 "$1" -o "$tmp" $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -Wno-everything $3
  chmod 755 "$tmp"; mv "$tmp" "build/$2"; echo "$sha" > "build/$2.sha"
}
make1 engine/irx.cpp irx "$(llvm-config-18 --ldflags) -lLLVM-18" & a=$!
make1 engine/astq.cpp astq.so "-fPIC -shared" & b=$!
wait $a; wait $b
