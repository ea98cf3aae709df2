#!/bin/bash
# Does the engine execute the std idioms a refactoring may introduce?  Prints what fails: only t_fmt 1, 2 and 3 may (format!() is summarised).
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
python3 check.py build self || exit 1
A=()
for k in $(seq 0 29); do A+=("t_str $k 3" "t_coll $k 4"); done
for k in 3 6 14 16 21; do A+=("t_str $k 8"); done
for k in $(seq 0 25); do A+=("t_num $k"); done
for k in $(seq 0 5); do A+=("t_fmt $k"); done
MT=60 python3 tools/probe.py self "${A[@]}" | grep -E "ENGINE| V |MISM|LIMIT" | cut -c1-200
