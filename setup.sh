#!/bin/bash
# Builds the analyser from the committed sources (offline).
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
cd "$here/checker" && exec go build -o "$here/bin/checker" .
