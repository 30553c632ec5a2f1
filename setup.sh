#!/bin/bash
# Builds the symbolic engine, its runtime and the library models into /verif/build (offline, JDK 17).
set -e
cd "$(dirname "$0")"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
LIB=/opt/veriftools/java
CP=$(ls $LIB/z3/*.jar $LIB/bytecode/asm-*.jar | tr '\n' ':')
STAMP=$(find engine setup.sh -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ -f build/stamp ] && [ "$(cat build/stamp)" = "$STAMP" ]; then exit 0; fi
T=$(mktemp -d "$PWD/.build.XXXXXX")
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/engine" "$T/rt" "$T/lib" "$T/models"
javac -nowarn -Xlint:none -d "$T/engine" -cp "$CP" $(find engine/src -name '*.java')
javac -nowarn -Xlint:none --release 17 -d "$T/rt" $(find engine/rt -name '*.java')
javac -nowarn -Xlint:none --release 17 -d "$T/lib" $(find engine/lib -name '*.java')
javac -nowarn -Xlint:none -XDignore.symbol.file --patch-module java.base=engine/models -d "$T/models" $(find engine/models -name '*.java') 2>&1 | grep -v '^Note:' || true
test -f "$T/models/java/util/HashMap.class"
mkdir -p build
rm -rf build/engine build/rt build/lib build/models
mv "$T/engine" "$T/rt" "$T/lib" "$T/models" build/
echo "$STAMP" > build/stamp
