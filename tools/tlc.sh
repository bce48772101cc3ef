#!/bin/sh
# usage: tlc.sh ARGS...   TLC with the Fx override, on the specifications of
# build/spec (see tools/setup.sh).
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V/build/spec" || exit 2
exec java -Xss32m -Xmx${TLC_HEAP:-6g} -XX:+UseParallelGC ${TLC_JAVA:-} \
  -cp "$V/build/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tlc2.TLC "$@"
