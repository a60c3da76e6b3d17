#!/bin/bash
# usage: check.sh PROPERTY   (quick or thorough, by VERIF_TIER)
# Builds the analyser if needed and decides one property on /repo's current
# source. Exit 0: holds; exit 1 with a VIOLATION line: broken.
cd "$(dirname "$0")" || exit 2
V=$PWD
. ./build.sh || exit 2
exec "$V/bin/sawlint" -property "$1" -repo /repo -verif "$V"
