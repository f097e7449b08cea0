#!/bin/bash
# Builds the framework from the committed files (each check does the same, incrementally).
cd "$(dirname "$0")" && exec python3 -c 'import check; check.build(); print("ready")'
