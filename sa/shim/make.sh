#!/bin/bash
# writes shim.mir, the MIR of lib.rs, with the repository's pinned compiler
cd "$(dirname "$0")" && rustc +nightly-2023-11-04 --edition 2021 --crate-type lib --crate-name shim --emit=mir=shim.mir \
  -Zmir-opt-level=0 -Zmir-include-spans=yes -Ztrim-diagnostic-paths=no -Zspan-free-formats -Zalways-encode-mir lib.rs
