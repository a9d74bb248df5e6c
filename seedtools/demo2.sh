#!/bin/bash
# runs what the build left in _build (command line tool, python module, R package) and compares what it shows with what it must show
D=$(cd "$(dirname "$0")" && pwd)
exec python3 "$D/demo.py" "$D" "$PWD"
