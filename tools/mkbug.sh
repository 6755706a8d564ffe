#!/bin/bash
# mkbug.sh ID: takes the diff of /repo's working tree and /tmp/demo.cpp as seeded/ID (meta.json is written by hand), and tries the demo with and without it
set -e
cd ${V:-/verif};V=$PWD; R=${SIM_REPO:-/repo}; B=seeded/$1; mkdir -p $B
[ -n "$(git -C $R diff)" ] && git -C $R diff > $B/patch.diff
[ -e /tmp/demo.cpp ] && mv /tmp/demo.cpp $B/demo.cpp
cp tools/demo/fakebus.h tools/demo/curl_stub.cpp tools/demo/demo.sh $B/; rm -rf $V/$B/stub; cp -r stub $B/stub
git -C $R checkout -q -- .
cd $R; set +e; echo -n "clean: "; bash $V/$B/demo.sh; rc0=$?
git apply $V/$B/patch.diff; echo -n "patched: "; set +e; bash $V/$B/demo.sh; rc1=$?; git checkout -q -- .
echo "rc clean $rc0 patched $rc1"
