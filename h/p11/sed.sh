#!/bin/bash
# Makes cases2.go (AsyncAPI v2) from cases3.go (v3).
cd "$(dirname "$0")" && sed -E 's/enc3/enc2/g; s/\b(trip|scalars|structured|headers|foreign|controllers)3/\12/g; s/SendTo(\w+)Operation/Publish\1/g; s/SubscribeTo(\w+)Operation/Subscribe\1/g; s/^\/\/ Cases.*/\/\/ Made by sed.sh from cases3.go./' cases3.go > cases2.go
