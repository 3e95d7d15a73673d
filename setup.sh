#!/bin/bash
# Builds the fact extractor and analyses /repo once, so that the checks find their facts ready. Every check does this itself when it is missing or stale.
cd "$(dirname "$0")" || exit 1
exec python3 rules/facts.py
