#!/bin/bash
# check.sh <property>: decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
exec python3 analysis/check.py "$1"
