#!/bin/bash
# nothing to build ahead: checks that need the fault-injection shim compile it themselves
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
