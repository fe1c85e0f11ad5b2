#!/bin/bash
# run.sh ID [quick|thorough]: decides property ID on /repo's working tree
cd "$(dirname "$0")" && exec node --no-warnings harness/main.mjs "$@"
