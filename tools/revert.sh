#!/bin/bash
# tools/revert.sh COMMIT PROP [args]: the check on a tree without this repair
cd /repo && git show "$1" | git apply -R --3way 2>/dev/null || git show "$1" | git apply -R || exit 9
git -C /repo reset -q
cd /verif && python3 run.py "${@:2}" --no-evidence
git -C /repo checkout -q -- .
