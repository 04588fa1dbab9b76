#!/bin/bash
# engine/replay.sh replays/X.json : rebuild the harness natively from /repo and rerun a recorded counterexample
cd "$(dirname "$0")/.." && exec python3 engine/check.py --replay "$1"
