#!/bin/bash
# usage: build.sh            (re)build the driver when its source is newer
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/facts-driver ] || [ driver/main.rs -nt build/facts-driver ]; then
  rustc +nightly -O --edition 2024 -A warnings -o build/facts-driver.tmp$$ driver/main.rs && mv build/facts-driver.tmp$$ build/facts-driver
fi
