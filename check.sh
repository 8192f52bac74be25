#!/bin/bash
# check.sh <property> [--replay FILE | --key KEY]: compiles /repo's current main sources and model checks them.
cd "$(dirname "$0")" || exit 2
. ./env.sh
P=$1; shift
mkdir -p build
exec 9> build/lock; flock 9
if [ ! -f build/mc/SUM ] || [ "$(cat build/mc/SUM)" != "$(cat mc/src/mc/*.java | sha256sum | cut -c1-16)" ]; then
  ./setup.sh || { echo "harness build failed"; exit 2; }
fi
flock -u 9; exec 9>&-
OUT=$(mktemp -d "$VERIF_HOME/build/repo.XXXXXX") || exit 2
trap 'rm -rf "$OUT"' EXIT
find "$REPO" -path '*/src/main/java/*' -name '*.java' > "$OUT/sources"
mkdir "$OUT/classes"
if ! "$JDK11/bin/javac" -source 8 -target 8 -g -encoding UTF-8 -nowarn -Xlint:none -d "$OUT/classes" -cp "$NETTY" @"$OUT/sources" 2> "$OUT/javac.log"; then
  cat "$OUT/javac.log"; echo "the code under test does not compile"; exit 2
fi
# class directory content must not depend on a scratch name
X=; case "$P" in C15|C16) X="-XX:+UnlockDiagnosticVMOptions -XX:-BytecodeVerificationRemote -XX:MetaspaceSize=1g -XX:TieredStopAtLevel=1";; esac
case "$P" in C11) MC_HEAP=${MC_HEAP:-1g};; esac   # hostile lengths must not be able to take much
"$JDK/bin/java" $MC_OPTS $X -Xmx${MC_HEAP:-12g} -Xss8m -XX:+UseParallelGC -Dio.netty.leakDetection.level=disabled -Dio.netty.noUnsafe=false \
  --add-exports java.base/jdk.internal.util=ALL-UNNAMED --add-exports java.base/jdk.internal.access=ALL-UNNAMED \
  --add-exports java.base/jdk.internal.misc=ALL-UNNAMED --add-opens java.base/java.util=ALL-UNNAMED --add-opens java.base/java.lang=ALL-UNNAMED --add-opens java.base/java.util.concurrent.locks=ALL-UNNAMED \
  -Dmc.classes="$OUT/classes" -Dmc.verif="$VERIF_HOME" -cp "build/mc:$NETTY:$ASM" mc.Main "$P" "$@"
rc=$?
exit $rc
