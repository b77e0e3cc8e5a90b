#!/bin/bash
# parse one module: tools/sany.sh Attitude
cd "$(dirname "$0")/../specs"
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$1.tla" 2>&1 | grep -v '^Parsing\|^Semantic\|^Lint\|^\*\*\*\*\*\|^$\|^SANY'
