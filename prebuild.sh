#!/bin/sh
# Builds the drivers once, so that the checks only rebuild what changed.
exec python3 "$(dirname "$0")/check.py" prebuild
