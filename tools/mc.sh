#!/bin/bash
# mc.sh MODULE CFG...: model checks spec/MODULE.tla under each configuration.
cd /verif/spec; M=$1; shift
for c in "$@"; do echo "== $c"; D=$(mktemp -d); timeout 900 java -Xss16m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -config $c.cfg -metadir $D -workers 4 -noGenerateSpecTE $M.tla 2>&1 | grep -v "^TLC2\|^Warning: Please\|^(Use\|^Running\|^Parsing\|^Semantic\|^Progress\|^Linting\|^Computed\|^Finished comp" | head -${L:-25} | cut -c1-400; rm -rf $D; done
