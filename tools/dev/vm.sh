#!/bin/bash
# vm.sh area module [args]
A=$1; M=$2; shift 2
/tmp/w/ver.sh $A --verify-only-module $M "$@"
