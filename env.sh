# Tool locations, all inside the sandbox image.
VERIF_HOME="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${MC_REPO:-/repo}"
JDK=/usr/lib/jvm/java-17-openjdk-amd64
JDK11=/usr/lib/jvm/java-11-openjdk-amd64
find_jar() { find /root/.gradle /root/.m2 /opt -name "$1" 2>/dev/null | head -1; }
N1=/root/.gradle/caches/modules-2/files-2.1/io.netty/netty-buffer/4.1.100.Final/39b05d2d4027971bf99111a9be1d7035a116bb55/netty-buffer-4.1.100.Final.jar
N2=/root/.gradle/caches/modules-2/files-2.1/io.netty/netty-common/4.1.100.Final/847f942381145de23f21c836d05b0677474271d3/netty-common-4.1.100.Final.jar
[ -f "$N1" ] || N1=$(find_jar 'netty-buffer-4*.Final.jar')
[ -f "$N2" ] || N2=$(find_jar 'netty-common-4*.Final.jar')
NETTY="$N1:$N2"
A=/opt/veriftools/java/lincheck
ASM="$A/asm-9.6.jar:$A/asm-tree-9.6.jar:$A/asm-commons-9.6.jar:$A/asm-analysis-9.6.jar"
