#!/bin/bash
cd "$(dirname "$0")/../spec"
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in "$@"; do java -cp $CP tla2sany.SANY $m.tla 2>&1 | grep -v '^Parsing\|^Semantic\|^$\|^\*\*\*' ; done
