#!/bin/bash
# tlc.sh SPEC.tla CFG [args]
V=$(cd "$(dirname "$0")/.." && pwd)
export PAPYRI_SPEC=$V/spec JAVA_TOOL_OPTIONS="-Dfile.encoding=UTF-8"
exec java -XX:+UseParallelGC -Xss512m -DTLA-Library=$V/spec -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir $(mktemp -d) -config $2 $1 "${@:3}"
