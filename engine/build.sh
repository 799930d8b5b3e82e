#!/bin/bash
# build.sh GROUP OUT.ll : LLVM IR of harness crate hx-GROUP with the real code linked in
# build.sh --native GROUP : shared object for replaying counterexamples natively; prints its path
set -e
export RUSTUP_TOOLCHAIN=nightly-2024-04-24 CARGO_NET_OFFLINE=true
cd "$(dirname "$0")/../hx"; V=$(cd .. && pwd)
g=$1; [ "$g" = --native ] && g=$2
python3 ../engine/gen.py $g
if [ "$1" = --native ]; then
  g=$2; export CARGO_TARGET_DIR=$V/target/native-$g
  RUSTFLAGS="--cap-lints=allow" cargo rustc --offline --release -q -p hx-$g --lib --crate-type cdylib >&2
  echo $CARGO_TARGET_DIR/release/libhx_$(echo $g|tr - _).so
  exit
fi
g=$1; out=$2; export CARGO_TARGET_DIR=$V/target/hx-$g
d=$CARGO_TARGET_DIR/release/deps; n=hx_$(echo $g|tr - _)
compile() {
RUSTFLAGS="--cap-lints=allow --cfg rsx_symbolic -Zlocation-detail=none -Cdebuginfo=1 --emit=llvm-bc,link -Cno-vectorize-loops -Cno-vectorize-slp" \
  cargo build --offline --release -q -p hx-$g --lib >&2
test -n "$(ls $d/$n-*.bc)"
L=$(ls $d/*.bc | grep -vE "derive|/(syn|quote|proc_macro2|unicode_ident|proc_macro_error|thiserror_impl|enumflags2_derive)")
llvm-link $L -o $out.bc
}
# bitcode left over from an earlier state of the sources can clash with today's
( compile ) || { rm -rf "$CARGO_TARGET_DIR/release"; compile; }
api=$(nm -A --defined-only $d/lib$n-*.rlib 2>/dev/null | grep -oE " T hx_[A-Za-z0-9_]+$" | awk '{print $2}' | sort -u | paste -sd,)
opt -passes='internalize,globaldce,default<O1>' -internalize-public-api-list=$api $out.bc -o $out.o.bc
llvm-dis $out.o.bc -o $out
rm -f $out.bc $out.o.bc
