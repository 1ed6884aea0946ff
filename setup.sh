#!/bin/bash
# Builds the rustc driver and the dependency metadata, and warms the dump of the current tree.
cd "$(dirname "$0")" || exit 1
exec python3 engine/dump.py
