#!/bin/bash
# one.sh areas module  : verify one module
/tmp/w/ver.sh $1 --verify-only-module $2 --multiple-errors 10 "${@:3}" 2>&1 | grep -v "^warning" | head -${LINES_MAX:-80}
