#!/bin/bash
# compiles the TLC operator overrides
set -e
cd "$(dirname "$0")"
mkdir -p build/classes evidence
javac -cp /opt/veriftools/tla/tla2tools.jar -d build/classes java/*.java
