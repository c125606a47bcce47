#!/bin/bash
# build.sh OUTDIR [san|pp]: builds the simulator with the dhara sources of $REPO
# (san: with AddressSanitizer and UBSan; pp: preemptible at every basic block).
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
out=$1; mode=$2
mkdir -p "$out"
opt="-O2 -g"; ccx="$opt"
if [ "$mode" = san ]; then opt="-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"; fi
pp=; if [ "$mode" = pp ]; then pp="-fsanitize-coverage=trace-pc"; fi
CF="$opt -ftrivial-auto-var-init=pattern -fexceptions -fno-strict-aliasing -I$repo -w"
pids=()
run() { "$@" & pids+=($!); }
objs=()
for f in "$repo"/dhara/*.c "$repo"/ecc/*.c; do
	o="$out/$(basename "$(dirname "$f")")_$(basename "$f" .c).o"; objs+=("$o")
	run gcc $CF $pp -c "$f" -o "$o"
done
run gcc $CF -I"$here" -c "$here/shim.c" -o "$out/shim.o"
# the released firmware, frozen
robjs=()
for f in "$here"/ref/dhara/*.c "$here"/ref/ecc/*.c "$here/shim.c"; do
	o="$out/ref_$(basename "$(dirname "$f")")_$(basename "$f" .c).o"; robjs+=("$o")
	run gcc $opt -ftrivial-auto-var-init=pattern -fexceptions -fno-strict-aliasing -I"$here/ref" -I"$here" -w -DNO_VARIANT -c "$f" -o "$o"
done
run gcc $CF -DGF13_NO_TABLES -c "$repo/ecc/bch.c" -o "$out/nt1.o"
run gcc $CF -DGF13_NO_TABLES -c "$repo/ecc/gf13.c" -o "$out/nt2.o"
sims=()
for f in "$here"/*.cpp; do
	o="$out/sim_$(basename "$f" .cpp).o"; sims+=("$o")
	run g++ -std=c++17 $opt -fno-strict-aliasing -w -c "$f" -o "$o"
done
for p in "${pids[@]}"; do wait "$p"; done
# the table-free build of the BCH code, under other names
ld -r "$out/nt1.o" "$out/nt2.o" -o "$out/nt.o"
syms="bch_1bit bch_2bit bch_3bit bch_4bit bch_generate bch_verify bch_repair"
ra=(); for s in $syms; do ra+=(--redefine-sym "$s=nt_$s" --keep-global-symbol "nt_$s"); done
objcopy "${ra[@]}" "$out/nt.o"
ld -r "${robjs[@]}" -o "$out/ref.o"
nm -g --defined-only "$out/ref.o" | awk '$3 ~ /^sh_/ { print $3, "ref_" $3 }' >"$out/ref.syms"
objcopy --wildcard --keep-global-symbol 'sh_*' "$out/ref.o"
objcopy --redefine-syms "$out/ref.syms" "$out/ref.o"
g++ $opt "${sims[@]}" "$out/shim.o" "${objs[@]}" "$out/nt.o" "$out/ref.o" -o "$out/dharasim"
