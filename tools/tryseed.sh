#!/bin/bash
# tryseed.sh ID...   confirms planted bugs in a scratch copy of /repo: the patch applies, builds, passes the
# stable tests, and the demonstration tells the two trees apart. (The build script only knows /repo, so
# the copy takes its place for a moment; /repo's tree is put back in all cases.)
cd /verif/seeded || exit 2
for id in "$@"; do
    d=/verif/seeded/$id
    [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
    (cd /repo && bash $d/demo.sh > /tmp/seed.$id.clean 2>&1); clean=$?
    git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh > /tmp/seed.$id.build 2>&1; build=$?
    bash /opt/vp/test.sh /tmp/seed.$id.json > /tmp/seed.$id.test 2>&1; tests=$?
    (cd /repo && bash $d/demo.sh > /tmp/seed.$id.bad 2>&1); bad=$?
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    out=$(VERIF_SEED=1 bash /verif/check.sh $p 2>&1); check=$?
    git -C /repo checkout -q -- .
    echo "$id ($p): demo clean=$clean patched=$bad build=$build tests=$tests check=$check $(echo "$out" | grep -v '^VIOLATION' | tail -1 | cut -c1-200)"
done
bash /opt/vp/build.sh > /dev/null 2>&1
