#!/bin/bash
# Builds the framework from the committed files (offline).
cd "$(dirname "$0")" || exit 1
mkdir -p evidence build
if [ -f mc/crashfs.c ]; then
  gcc -O1 -w -shared -fPIC -o build/crashfs.so mc/crashfs.c -ldl -lpthread || exit 1
fi
exit 0
