#!/bin/bash
# Builds /repo's working tree (library and Python bindings) in /verif/.build, and the TLC override of Num.tla.
# Object files are looked up by content in the sandbox's compiler cache: nothing is trusted from a previous build.
set -e
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
V=/opt/placo-venv; SP=lib/python3.12/site-packages; B=$VERIF/.build
export VERIF_BUILD_DIR=$B
mkdir -p "$B"
exec 9> "$B/.lock"; flock 9
(
  export PATH=$VERIF/harness/bin:$V/bin:/usr/local/bin:/usr/bin:/bin CC=gcc CXX=g++ PIP_NO_INDEX=1 PYTHONDONTWRITEBYTECODE=1
  export CCACHE_DIR=/opt/placo-ccache CCACHE_MAXSIZE=3G
  unset PYTHONPATH LD_LIBRARY_PATH CMAKE_PREFIX_PATH
  if [ ! -f "$B/build.ninja" ] || [ /repo/CMakeLists.txt -nt "$B/build.ninja" ]; then
    cmake -S /repo -B "$B" -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_PREFIX_PATH=$V/$SP/cmeel.prefix \
      -DCMAKE_CXX_COMPILER_LAUNCHER=$VERIF/harness/bin/cclaunch -DPython_ROOT_DIR=$V -DPython3_ROOT_DIR=$V \
      -DPython_EXECUTABLE=$V/bin/python -DPython3_EXECUTABLE=$V/bin/python -DPYTHON_SITELIB=$SP -Wno-dev > "$B/cmake.log" 2>&1 \
      || { tail -20 "$B/cmake.log"; exit 3; }
  fi
  ninja -C "$B" > "$B/ninja.log" 2>&1 || { grep -E "error|FAILED" "$B/ninja.log" | head -20; exit 3; }
) || exit 3
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
if [ ! -f "$B/java/Num.class" ] || [ "$VERIF/harness/java/Num.java" -nt "$B/java/Num.class" ]; then
  mkdir -p "$B/java"; javac -nowarn -cp $J -d "$B/java" "$VERIF/harness/java/Num.java" > "$B/javac.log" 2>&1 || { cat "$B/javac.log"; exit 3; }
fi
