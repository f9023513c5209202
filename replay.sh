#!/bin/sh
# replay.sh FILE: build and execute exactly the history of a replay file
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
./build.sh || { echo "replay.sh: the simulator could not be built" >&2; exit 2; }
FSIM_ROOT="$PWD" exec sim/target/release/fsim replay "$f"
