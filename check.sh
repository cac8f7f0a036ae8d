#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")/prover" && exec /opt/veriftools/pyvenv/bin/python3 runner.py "$@"
