#!/bin/bash
# builds nothing: every check builds its driver from /repo's current tree.  Only looks whether the tools are there.
set -e
for t in g++ java python3; do command -v $t >/dev/null; done
test -f /opt/veriftools/tla/tla2tools.jar
