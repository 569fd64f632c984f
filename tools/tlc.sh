#!/bin/sh
# tlc.sh MODULE CFG : run TLC from specs/
cd "$(dirname "$0")/../specs" && timeout 120 java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -Xss64m tlc2.TLC -noGenerateSpecTE -metadir /tmp/md$$ -workers 4 -config $2.cfg $1.tla 2>&1 | grep -v "^Parsing\|^Semantic\|^Starting\|^Running"; rm -rf /tmp/md$$
