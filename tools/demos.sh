#!/bin/bash
# runs every demo on the unchanged, built tree
for d in /verif/seeded/*/; do (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo.log 2>&1) || { echo "FAILS: $d"; tail -4 /tmp/demo.log; }; done
