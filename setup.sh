#!/bin/bash
# builds the engine, the IR of /repo and the native harness (every check does the same when something is missing)
cd "$(dirname "$0")" && exec python3 check.py --build
