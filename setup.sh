#!/bin/bash
# Builds the model checking harness (Java) from /verif/mc/src into /verif/build (ignored by git).
set -e
cd "$(dirname "$0")"
. ./env.sh
rm -rf "$VERIF_HOME/build/mc.tmp"
mkdir -p "$VERIF_HOME/build/mc.tmp"
"$JDK/bin/javac" -nowarn -Xlint:none -encoding UTF-8 -d "$VERIF_HOME/build/mc.tmp" -cp "$NETTY:$ASM" mc/src/mc/*.java
sum=$(cat mc/src/mc/*.java | sha256sum | cut -c1-16)
rm -rf "$VERIF_HOME/build/mc"
mv "$VERIF_HOME/build/mc.tmp" "$VERIF_HOME/build/mc"
echo "$sum" > "$VERIF_HOME/build/mc/SUM"
