#!/bin/bash
# Builds the engine, the IR and the native replay binary from the committed files and /repo.
exec bash "$(dirname "$0")/build.sh" all
