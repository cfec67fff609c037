#!/bin/bash
# builds the harness and tests its oracles on published vectors; offline
exec "$(dirname "$0")/check.sh" build
