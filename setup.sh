#!/bin/bash
# Builds the simulator with prometrics, its dependencies and std compiled from source.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec ./build-sim.sh
