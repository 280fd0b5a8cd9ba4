#!/bin/bash
# trybug.sh ID [PROPERTY]: apply a planted bug in a scratch copy and run the property's check against it
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
w=$(mktemp -d /tmp/trybug.XXXXXX); cp -a /repo $w/repo; git -C $w/repo apply /verif/seeded/$id/patch.diff || exit 9
s=$(date +%s); PV_REPO=$w/repo /verif/bin/check $p | tail -4; echo "$id $p rc=${PIPESTATUS[0]} $(( $(date +%s)-s ))s"; rm -rf $w
