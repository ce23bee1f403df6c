#!/bin/bash
# developer helper: both.sh CONTRACT...  symbolic then sampled native run
cd /verif
tools/run1.sh sym "$@" | grep -v "^rc=0" | cut -c1-${W:-420}
S=${S:-60} tools/run1.sh native "$@" | grep -v "^Panic\|^rc=0" | cut -c1-${W:-420}
