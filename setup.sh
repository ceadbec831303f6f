#!/bin/bash
# compiles the TLC operator overrides of module Num into build/classes
cd "$(dirname "$0")" || exit 2
exec /bin/bash harness/build_java.sh build/classes
