#!/bin/bash
# run.sh <property> <quick|thorough>: rebuild the harness from /repo's working tree and run one check.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/setup.sh" || exit 2
exec "$here/harness/target/debug/check" "$1" "${2:-quick}"
