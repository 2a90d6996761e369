#!/bin/bash
# seed.sh <id> [check...] : confirm a planted bug (builds, tests pass, demo) and run checks against it
# the change is applied to /repo and always undone
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
demo() { rm -rf /tmp/seed-demo; mkdir -p /tmp/seed-demo; cp "$d"/* /tmp/seed-demo/; rm -f /tmp/seed-demo/*.diff /tmp/seed-demo/meta.json; (cd /repo; timeout 300 bash /tmp/seed-demo/demo.sh >/tmp/seed-demo.log 2>&1); echo $?; rm -rf /tmp/seed-demo; }
if [ -z "$SKIPBASE" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; echo "demo on clean: $(demo)"; fi
git apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -- . ' EXIT
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/seed-build.log; exit 1; }
echo "demo with bug: $(demo)"
bash /opt/vp/test.sh /tmp/seed-out.json >/dev/null 2>&1
python3 -c "import json;d=json.load(open('/tmp/seed-out.json'));print('tests',len(d['passed']),len(d['failed']),d['failed'][:5])"
fi
for c in "$@"; do timeout 900 /verif/bin/check $c quick | cut -c1-300 | grep -v "^  (" ; done
