#!/bin/bash
# Compiles t.cpp with RaftLib's sources from the current directory and runs it.
# The library's absent submodules (shm, affinity, demangle) are stood in by stubs/ and impl.cpp.
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 3
trap 'find "$W" -mindepth 1 -delete; rmdir "$W"' EXIT
F="-std=gnu++17 -include cstdint -DSTRING_NAMES=1 -DL1D_CACHE_LINE_SIZE=64 -DRDTSCP=1 -I$H/stubs -I$R -I$R/raftinc -w"
for s in "$R"/src/*.cpp; do
  case $s in */sysschedutil.cpp) ;; *) echo "#include \"$s\"";; esac
done > "$W/unity.cpp"
(g++ $F -DLIBCOMPILE=1 -c "$W/unity.cpp" -o "$W/u.o") & p=$!
g++ $F -c "$H/t.cpp" -o "$W/t.o" && g++ $F -c "$H/impl.cpp" -o "$W/i.o" || exit 4
wait $p || exit 4
g++ "$W/t.o" "$W/i.o" "$W/u.o" -o "$W/t" -pthread || exit 4
cd "$W" && timeout 60 ./t
