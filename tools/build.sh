#!/bin/bash
# Builds the frontend (a libTooling program) into /verif/build unless it is up to date.
set -e
cd "$(dirname "$0")/.."
mkdir -p build
SUM=$(sha256sum frontend/grootfe.cpp | cut -c1-16)
(
  flock 9
  if [ ! -x build/grootfe-$SUM ]; then
    L=/usr/lib/llvm-18
    /usr/bin/clang++ -O1 $($L/bin/llvm-config --cxxflags) -fno-rtti frontend/grootfe.cpp -o build/grootfe.tmp.$$ \
      -L$L/lib $L/lib/libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$L/lib
    mv build/grootfe.tmp.$$ build/grootfe-$SUM
  fi
) 9>build/.lock
echo "build/grootfe-$SUM"
