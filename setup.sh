#!/bin/bash
# Nothing to build: check that the interpreter and Hypothesis are there.
cd "$(dirname "$0")" && exec ./run.py --help > /dev/null
