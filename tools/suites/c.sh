#!/bin/bash
# usage: c.sh PROP [repo]
mkdir -p /tmp/ev
VERIF_DEBUG=${D-1} VERIF_EVIDENCE=/tmp/ev timeout ${T-300} /tmp/an -prop $1 -repo ${2-/repo} -verif /verif
