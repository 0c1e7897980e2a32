#!/bin/bash
# check.sh <property> [quick|thorough]: builds the engine if needed and decides
# one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
./setup.sh || exit 2
exec ./bin/gose -prop "$1" -tier "${2:-quick}"
