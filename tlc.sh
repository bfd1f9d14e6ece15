#!/bin/sh
# TLC with the module overrides and the specification directory on its paths.
here=$(cd "$(dirname "$0")" && pwd)
exec java -XX:+UseParallelGC -Xss64m -Xmx${TLC_XMX:-4g} -cp "$here/build/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" -DTLA-Library="$here/spec" tlc2.TLC -noGenerateSpecTE "$@"
