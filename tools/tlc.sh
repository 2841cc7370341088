#!/bin/bash
# Usage: tlc.sh Module [Config]   -- runs TLC on a specification by hand
cd "$(dirname "$0")/.."
bash tools/setup.sh
m=$(mktemp -d /tmp/vp-tlc-XXXXXX)
cd spec
java -XX:+UseParallelGC -Xss64m -Xmx4g -DTLA-Library=lib:. -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:dspbig.Overrides \
  -cp ../build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC \
  -workers ${WORKERS:-4} -metadir "$m" -noGenerateSpecTE -config ${2:-$1}.cfg $1.tla
rc=$?
rm -rf "$m"
exit $rc
