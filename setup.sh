#!/bin/bash
# Nothing is installed: every check builds its monitor from /repo's working tree itself.
cd "$(dirname "$0")" && cargo --version && cargo +nightly --version && chmod +x check.sh
