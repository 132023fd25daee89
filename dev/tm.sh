#!/bin/bash
# typemap of $1 (repo dir) to $2
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
cd $1
rm -rf /verif/build/tmtarget/debug/build/mvdparser /verif/build/tmtarget/debug/incremental 
TYPEMAP_OUT=$2 RUSTC_WORKSPACE_WRAPPER=/verif/build/typemap/release/typemap cargo +nightly check --lib --offline --target-dir /verif/build/tmtarget 2>&1 | tail -1
