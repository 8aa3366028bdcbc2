#!/bin/bash
# usage: replay.sh FILE: runs one saved failing case against /repo's current tree
F=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
export TGX_VERIF=$PWD
case $(basename "$F") in
C10*|C26*|C27*|C30*|C31*) bash build.sh python || exit 2; exec python3-vt -B py/check.py replay "$F" ;;
*) bash build.sh rust || exit 2; exec harness/target/debug/tgx replay "$F" ;;
esac
