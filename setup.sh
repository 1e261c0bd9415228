#!/bin/bash
# builds the harness once, so that the checks have its dependencies compiled
exec "$(dirname "$(readlink -f "$0")")/check.sh" build
