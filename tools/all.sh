#!/bin/bash
# runs every claimed check (quick), 4 at a time, and prints the last line of each
cd "$(dirname "$0")/.."
ls checks/c*.py | sed 's/.*\/c\(.*\).py/C\1/' | xargs -P 4 -I{} sh -c './check.sh {} '"$*"' > /tmp/all_{}.log 2>&1; echo "{} rc=$? $(grep -c UNDECIDED /tmp/all_{}.log) undecided: $(tail -1 /tmp/all_{}.log | cut -c1-120)"' | sort
