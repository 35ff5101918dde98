#!/bin/bash
# dev helper: h.sh ID.. ; SECS, TIER, SEED
for p in "$@"; do timeout 900 /verif/harness/target/debug/harness $p ${SEED:-1} ${TIER:-quick} ${SECS:-8} /tmp/h-$p.json; echo "$p rc=$?"; python3 -c "
import json;j=json.load(open('/tmp/h-$p.json'));print('  ',j['evaluations'],j['distinct_nontrivial'],j['failure'][:900],j['case'][:600])"; done
