#!/bin/bash
# nothing is built ahead of time: every check builds from /repo's current tree
for t in goto-cc goto-instrument cbmc gcc leg python3; do
    command -v "$t" >/dev/null || { echo "missing tool: $t"; exit 1; }
done
