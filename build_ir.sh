#!/bin/bash
# build_ir.sh CRATE OUTDIR : compile CRATE (harness or cli) + /repo (current tree) + std to one optimised LLVM module
set -e
C=${1:-harness}; OUT=${2:-/verif/.build/ir-$C}; mkdir -p $OUT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=/verif/.build/target CARGO_NET_OFFLINE=true
LLVM=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
if [ $C = cli ]; then # the executable's sources, with an entry that sees its private main
 rm -rf /verif/.build/cli-src; mkdir -p /verif/.build; cp -r /repo/src /verif/.build/cli-src
 sed -i 's/\bcrate::/crate::cli::/g' /verif/.build/cli-src/main.rs
 echo 'pub mod symx_entry__ { pub fn run() -> i32 { let c: u8 = unsafe { std::mem::transmute(std::process::Termination::report(super::main())) }; c as i32 } }' >> /verif/.build/cli-src/main.rs
fi
cd /verif/$C
rm -f /verif/.build/target/symx/deps/$C*.lto.input.bc
cargo rustc --offline --profile symx --bin $C -q -- --cfg symx -C save-temps -C linker=true 1>&2
BC=$(ls -t /verif/.build/target/symx/deps/$C-*.lto.input.bc | head -1)
cd $OUT
$LLVM/llvm-dis $BC -o - | grep -oE '^define [^@]*@h_[a-zA-Z0-9_]+' | sed 's/.*@//' > entries.txt
API=$(paste -sd, entries.txt)
$LLVM/opt -passes='internalize,globaldce' -internalize-public-api-list=$API $BC -o a.bc
$LLVM/llvm-dis a.bc -o a.ll
python3 /verif/iredit.py a.ll b.ll
$LLVM/opt -strip-debug -O2 -vectorize-loops=false -vectorize-slp=false -unroll-threshold=0 b.ll -o c.bc
$LLVM/opt -passes="internalize,globaldce,function(scalarizer<load-store>,dce,instcombine,simplifycfg),globaldce" -internalize-public-api-list=$API c.bc -o d.bc
$LLVM/llvm-dis d.bc -o prog.ll
