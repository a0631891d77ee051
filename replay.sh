#!/bin/bash
# usage: replay.sh FILE   exit 1 if the recorded violation happens again, 0 if it does not
f=$(realpath "$1") || exit 2
exec "$(dirname "$0")/check.sh" "$f" replay
