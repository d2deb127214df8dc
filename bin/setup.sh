#!/bin/bash
# Compile the TLC override and self-test it. Offline; run in /verif.
set -e
cd "$(dirname "$0")/.."
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
rm -rf build/classes; mkdir -p build/classes
javac -nowarn -cp $J -d build/classes java/*.java
printf %s "$(cat $(ls java/*.java | LC_ALL=C sort) | sha256sum | cut -d' ' -f1)" > build/classes/stamp
md=$(mktemp -d /tmp/verif-setup-XXXX); trap 'rm -rf "$md"' EXIT
cd spec
java -XX:+UseParallelGC -cp ../build/classes:$J tlc2.TLC -workers 1 -metadir "$md" -config NumSelf.cfg NumSelf.tla > "$md/out" 2>&1 || { grep -v Loading "$md/out"; exit 1; }
grep -q FAIL "$md/out" && { grep FAIL "$md/out"; exit 1; }
grep -c CLAUSE "$md/out"
