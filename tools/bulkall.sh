#!/bin/bash
# bulkall.sh SEED RATE [what...]: every kind of bulk edit
mkdir -p /tmp/bulkout
S=$1; R=$2; shift 2
for m in ${MODES:-bindcond swapif matchbool letmatch andnest flag matchif armswap forwhile forloop foridx forrange foreach whileloop flipcmp demorgan boolif optneg optmatch chains qmark qopt swapstmt letswap bindarg letret retkw earlyret wrapfn tail}; do echo $m; done | xargs -P 4 -I{} sh -c "python3 /verif/tools/bulk.py {} $S $R $* > /tmp/bulkout/{} 2>&1; rm -rf /tmp/bulk/{}-$S"
for f in /tmp/bulkout/*; do echo $(basename $f) $(head -1 $f | cut -c1-100) $(tail -2 $f | tr '\n' ' '| cut -c1-200); done
