#!/bin/bash
# tools/fix.sh C04 "fix: message" "what failed": commit /repo's working tree and record it
set -e
git -C /repo commit -qam "$2"
sha=$(git -C /repo rev-parse --short=12 HEAD)
for p in ${1//,/ }; do echo "fixed: property=$p $sha $3" >> /verif/known_findings.txt; done
git -C /repo log --oneline -1
