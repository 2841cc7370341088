#!/bin/bash
# Compiles TLC's operator overrides.  The checks do the same when this was not run.
set -e
cd "$(dirname "$0")/.."
mkdir -p build/classes
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d build/classes java/dspbig/*.java
