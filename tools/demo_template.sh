#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the property is broken; run with cwd /repo after a build
R=$(pwd); D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++23 -g -w -DPLAIN_CORE -I"$R/framework/core/include" "$D/demo.cc" -o "$T/demo" \
  -L"$R/_build/bin" -lplaind -Wl,-rpath,"$R/_build/bin" -pthread || exit 2
cd "$T" && timeout 120 ./demo
