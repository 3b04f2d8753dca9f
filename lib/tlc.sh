#!/bin/bash
# runs TLC: tlc.sh MODULE CFG [options]; the spec directory is ../spec
here="$(cd "$(dirname "$0")/.." && pwd)"
mod="$1"; cfg="$2"; shift 2
exec java -Xss64m -Xmx${TLC_MEM:-6g} -XX:+UseParallelGC -XX:ParallelGCThreads=4 -DTLA-Library="$here/spec" \
  -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC \
  -config "$here/spec/$cfg" -deadlock -noGenerateSpecTE "$@" "$here/spec/$mod.tla"
