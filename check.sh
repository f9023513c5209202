#!/bin/sh
# check.sh PROPERTY [quick|thorough]: build and search for violations
cd "$(dirname "$0")" || exit 2
./build.sh || { echo "check.sh: the simulator could not be built" >&2; exit 2; }
FSIM_ROOT="$PWD" exec sim/target/release/fsim check "$1" "${2:-quick}"
