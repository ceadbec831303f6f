#!/bin/bash
# usage: build_java.sh OUTDIR   (from /verif)
set -e
mkdir -p "$1"
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$1" java/dspsnum/*.java
touch "$1/.done"
