#!/bin/bash
# development helper: run one property with several seeds, short output
p=$1; shift
for s in "$@"; do VERIF_SEED=$s /opt/venv/bin/python -m pbt.run $p --no-evidence 2>&1 | grep -v "^KNOWN" | cut -c1-${W:-420} | head -${L:-14}; done
