#!/bin/sh
# Prepare build/: specification copies (TLC works there), the Java override.
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build/spec" "$V/build/java"
cp "$V"/spec/*.tla "$V"/spec/*.cfg "$V/build/spec/" || exit 2
sed 's/MODULE Fx /MODULE FxPure /; s/MODULE Fx-/MODULE FxPure-/' "$V/spec/Fx.tla" > "$V/build/spec/FxPure.tla"
if [ ! -f "$V/build/java/Fx.class" ] || [ "$V/java/Fx.java" -nt "$V/build/java/Fx.class" ]; then
  javac -d "$V/build/java" -cp /opt/veriftools/tla/tla2tools.jar "$V/java/Fx.java" || exit 2
fi
