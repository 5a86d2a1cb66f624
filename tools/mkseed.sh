#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS: record the edits made in /tmp/sw/repo as the planted bug ID
S=/verif/seeded/$1; mkdir -p $S
git -C /tmp/sw/repo diff > $S/patch.diff; git -C /tmp/sw/repo checkout -q -- .
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
wc -l $S/patch.diff
