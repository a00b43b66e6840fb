#!/bin/bash
# usage: check.sh <property> <quick|thorough> [--only CASE] [--stats]
# Builds the model checker against /repo's working tree and runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/build.sh" || exit 3
export VMC_ROOT="$here"
exec "$here/harness/target/release/vmc" "$@"
