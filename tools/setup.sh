#!/bin/bash
# Nothing is compiled: checks interpret /repo/src directly. Make sure the tools are there.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays
python3-vt -c 'import hypothesis, dateutil.rrule, jsonschema' || exit 1
command -v java >/dev/null && [ -f /usr/share/java/jython.jar ] || exit 1
echo setup ok
