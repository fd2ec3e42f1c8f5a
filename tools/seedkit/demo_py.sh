#!/bin/bash
# run in the repository's root, after the build
exec timeout 200 python3 "$(dirname "$0")/demo.py"
