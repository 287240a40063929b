#!/bin/bash
# mkbug.sh ID PROPERTY "needs" "what it breaks"   (reads the edited scratch copy /tmp/mut/repo and /tmp/mut/main.rs)
set -e
D=/verif/seeded/$1; mkdir -p $D
(cd /tmp/mut/repo && git diff) > $D/patch.diff
cp /tmp/mut/main.rs $D/main.rs
cp /verif/tools/demo.sh $D/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
