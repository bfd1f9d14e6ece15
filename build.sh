#!/bin/sh
# Compiles the TLC module overrides (offline).
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build/java"
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$here/build/java" "$here"/java/*.java
