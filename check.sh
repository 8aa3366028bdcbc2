#!/bin/bash
# usage: check.sh ID [quick|thorough]; seed from VERIF_SEED
cd "$(dirname "$0")" || exit 2
ID=$1 TIER=${2:-${VERIF_TIER:-quick}}
export TGX_VERIF=$PWD VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
case $ID in
C10|C26|C27|C30|C31)
    bash build.sh python || exit 2
    exec /usr/bin/env python3-vt -B py/check.py run "$ID" "$TIER" ;;
*)
    bash build.sh rust || exit 2
    exec harness/target/debug/tgx run "$ID" "$TIER" ;;
esac
