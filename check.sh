#!/bin/bash
# check.sh ID: decides property ID on /repo's current tree.
cd "$(dirname "$0")" || exit 2
bash ./build.sh || exit 2
exec ./bin/gov check -prop "$1"
