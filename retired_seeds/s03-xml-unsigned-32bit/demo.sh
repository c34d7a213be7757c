#!/bin/bash
# cwd: the Gyoto tree, already built.  Exit 0 when the promised behaviour is seen.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
MPI=$(mpic++ --showme:compile 2>/dev/null)
g++ -std=c++17 -w -O1 -pthread -DHAVE_CONFIG_H -I"$R/include" -I"$R/_build/include" -I"$R/_build" -I/usr/include/eigen3 $MPI \
  "$D/demo.cc" -o "$T/demo" -L"$R/_build/lib/.libs" -Wl,--no-as-needed -lgyoto-unreleased  -Wl,-rpath,"$R/_build/lib/.libs" -lxerces-c -lboost_mpi -lboost_serialization $(mpic++ --showme:link 2>/dev/null) || exit 2
export LD_LIBRARY_PATH="$R/_build/lib/.libs" LC_ALL=C
cd "$T" && timeout 250 ./demo "$R"
