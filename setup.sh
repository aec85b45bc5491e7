#!/bin/bash
# Builds the monitors and their sanitizer variants from the committed files (offline).
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
build_harness || exit 1
BUILD_ONLY=1 bash "$here/sanitize.sh" quick
exit 0
