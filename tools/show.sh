#!/bin/bash
# run one check and show its violations shortly
cd /verif; VERIF_SHOW=${N:-40} /opt/venv/bin/python -W ignore run.py "$@" 2>&1 | grep -v "^VIOL\|SyntaxW\|^  \"\"\"" | cut -c 1-${W:-320}
