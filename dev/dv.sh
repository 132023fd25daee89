# the sources of the quake_* crates against the contracts assumed of them: extract + verus.  dv.sh DEPS_TSV_DIR
D=${1:-/verif/build/tmtarget/deps}; W=${2:-/tmp/v/w}
/verif/build/extract/release/extract $(for d in quake_text quake_infostring quake_clientinfo quake_serverinfo; do echo --dep $d=$D/$d.tsv; done) --contracts /verif/contracts --out $W/gd.rs --report $W/rd.json && verus $W/gd.rs --multiple-errors 6 --triggers-mode silent --rlimit 100 2>&1
