#!/bin/bash
# Builds the code under test and the simulator from /repo's working tree.
cd "$(dirname "$0")" && exec python3 -B dst/build.py
