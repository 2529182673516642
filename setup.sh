#!/bin/bash
# Nothing to compile: TLC, Jython and python3 are part of the sandbox. Check that they answer.
cd "$(dirname "$0")" || exit 1
java -version >/dev/null 2>&1 || exit 1
[ -f /opt/veriftools/tla/tla2tools.jar ] || exit 1
[ -x /opt/jy/bin/jython2 ] || exit 1
mkdir -p evidence
exit 0
