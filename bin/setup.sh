#!/bin/bash
# setup_cmd: nothing is kept between runs; this only proves that the toolchain works offline and
# that the wide-integer overrides agree with the TLA+ definitions they stand for.
set -e
cd "$(dirname "$0")/.."
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
TLA=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
javac -cp $TLA -d $T spec/java/*.java
java -XX:+UseParallelGC -cp $T:$TLA tlc2.TLC -metadir $T/meta -noGenerateSpecTE -workers 1 -config spec/FixMathTest.cfg spec/FixMathTest.tla > $T/out || { tail -20 $T/out; exit 1; }
grep -q "No error has been found" $T/out
g++ -std=c++17 -w -fsyntax-only -x c++ harness/harness.hpp
echo "setup ok"
