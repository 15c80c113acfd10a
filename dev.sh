#!/bin/bash
# dev.sh C08 [tier] [glob]: run a check showing all violations, slow and undecided scenarios
VERIF_ALL=1 VERIF_DEBUG=1 timeout 890 python3 "$(dirname "$0")/check.py" $1 ${2:-quick} ${3:+"$3"} 2>&1 | grep -Ev "^\S+ [0-9]\.[0-9]s complete .*\{\} \{\} \{\}$" | cut -c1-${W:-420}
