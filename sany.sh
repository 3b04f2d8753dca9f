#!/bin/bash
cd "$(dirname "$0")/spec"; for f in "$@"; do java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $f.tla 2>&1 | grep -v -E '^(Parsing|Semantic|Linting|$|\*\*\*\*)' ; done
