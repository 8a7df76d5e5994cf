#!/bin/bash
# dev helper: run.sh IRDIR JOBS OUT [args]
L=$(ls $1/release/deps/*.ll | grep -v -e autocfg -e matrixmultiply | sed 's/^/--ll /'); D=$1; J=$2; O=$3; shift 3
/verif/engine/target/release/symex run $L --jobs $J --out $O "$@"
