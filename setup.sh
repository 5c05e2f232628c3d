#!/bin/sh
# Builds the harness once so that the checks only rebuild what changed in /repo.
cd "$(dirname "$0")" || exit 1
exec python3 -c "import check; print(check.build(True))"
