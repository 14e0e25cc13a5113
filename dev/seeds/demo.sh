#!/bin/bash
# compiles demo.cpp against the library built from /repo and runs it; exit 0: behaves as promised
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -r "$out"' EXIT
R="$(pwd)"
M="$R/subpackages/mav_trajectory_generation"
g++ -std=gnu++17 -O1 -w -fno-access-control -I"$here" -I"$R/include" -I"$R/include/dynamic_trajectory_generator" \
  -I/usr/include/eigen3 -I"$M/include" -I"$M/include/mav_trajectory_generation" "$here/demo.cpp" -o "$out/demo" \
  "$R/_build/libdynamic_trajectory_generator.a" "$R/_build/subpackages/mav_trajectory_generation/libmav_trajectory_generation.a" \
  -lnlopt -lglog -lyaml-cpp -lgflags -lpthread -lm || exit 3
cd "$out" && timeout -k 5 120 ./demo
