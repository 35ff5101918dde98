#!/bin/bash
# dev helper: u.sh UNIT [extra verus args]
u=$1; shift
cd /verif/units && /verif/extract/target/release/extract ${REPO:-/repo} $u.rs.in ../build/$u.rs ../build/$u.json; python3 - <<P
import json; j=json.load(open('/verif/build/$u.json'))
print({k:v for k,v in j.items() if k in('problems','missing','uncontracted','external') and v})
P
cd ../build && verus --edition=2018 $u.rs "$@" 2>&1
