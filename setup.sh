#!/bin/bash
# Builds the engine and warms the build cache used for native replays.
cd "$(dirname "$0")" || exit 1
exec bash build.sh
