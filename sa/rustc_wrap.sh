#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: adds a textual MIR dump to the pinned compiler's normal `cargo check` invocation.
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
if [ -n "$name" ] && [ "$name" != "___" ] && [ "$name" != build_script_build ]; then
  exec "$@" --emit=mir="$MIR_OUT/$name.mir" -Zmir-opt-level=0 -Zmir-include-spans=yes -Ztrim-diagnostic-paths=no -Zspan-free-formats --cap-lints=allow
fi
exec "$@"
