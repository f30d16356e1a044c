#!/bin/bash
# Builds the TLC override and checks it against the definitions in MC_Rat.tla.
set -e
cd "$(dirname "$0")/.."
mkdir -p build/classes evidence
javac -cp /opt/veriftools/tla/tla2tools.jar -d build/classes java/Rat.java
md=$(mktemp -d)
cd specs
java -XX:+UseParallelGC -Djava.io.tmpdir="$md" -cp ../build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
  tlc2.TLC -metadir "$md" -noGenerateSpecTE MC_Rat | grep -E "No error|Error" 
rm -rf "$md"
