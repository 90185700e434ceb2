#!/bin/sh
# Nothing is prebuilt: every check compiles /repo's current sources itself. This only verifies the tools.
set -e
cd "$(dirname "$0")/.."
mkdir -p .build evidence replays
g++ --version | head -1
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -h >/dev/null 2>&1 || true
test -f /opt/veriftools/tla/tla2tools.jar
echo setup ok
