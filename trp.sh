#!/bin/bash
# dev: trp.sh bc time "engine opts" "params1" "params2" ... (8 in parallel)
bc=$1; tm=$2; o=$3; shift 3
for p in "$@"; do printf '%s\0' "$p"; done | xargs -0 -P8 -I{} bash -c "/verif/tr.sh $bc $tm '{}' $o"
