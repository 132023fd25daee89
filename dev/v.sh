#!/bin/bash
# extract + verus, args: extra verus args
bash /verif/dev/ex.sh && cd /tmp/v && verus w/gen.rs --multiple-errors 5 "$@" > w/out.txt 2>&1; grep -A6 ^error w/out.txt | head -${H:-80}; tail -1 w/out.txt
