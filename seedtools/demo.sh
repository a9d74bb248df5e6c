#!/bin/bash
# builds the library from the current tree with a small program and compares what it shows with what it must show
D=$(cd "$(dirname "$0")" && pwd)
exec python3 "$D/demo.py" "$D" "$PWD"
