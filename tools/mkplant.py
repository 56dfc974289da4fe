#!/usr/bin/env python3
"""mkplant.py DIFF ID PROPERTY PKG DEMO_GO NEEDS BREAKS: lays out seeded/ID."""
import sys, os, json, shutil
diff, id_, prop, pkg, demo, needs, breaks = sys.argv[1:]
d = '/verif/seeded/' + id_
os.makedirs(d, exist_ok=True)
shutil.copy(diff, d + '/patch.diff')
shutil.copy(demo, d + '/demo_test.go')
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# runs demo_test.go as a test of ./%(pkg)s through an overlay; cwd: the repository
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/verif_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
go test -vet=off -count=1 -overlay "$T/o.json" -run 'TestVerifDemo$' "./%(pkg)s"
''' % dict(pkg=pkg))
os.chmod(d + '/demo.sh', 0o755)
