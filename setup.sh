#!/bin/bash
# builds the harnesses once, so that the checks only rebuild what changed
here=$(cd "$(dirname "$0")" && pwd)
. "$here/mc/build.sh"
build_harness hpart llamapun_part || exit 1
build_harness hfull llamapun || exit 1
build_harness hex llamapun llamapun_examples || exit 1
exit 0
