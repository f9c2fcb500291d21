#!/bin/bash
# nothing has to be built ahead: the checks are Python, and those that need the C or Go
# libraries compile them from /repo's working tree themselves.
cd "$(dirname "$0")" && test -x /opt/venv/bin/python && mkdir -p evidence
