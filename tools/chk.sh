#!/bin/bash
# short summary of a check: everything except proved units
python3 /verif/tools/vp.py check "$@" 2>&1 | cut -c1-${W:-230} | grep -v "^proved\|not in call graph\|^[0-9 ]*|\|^ *|" 
