#!/bin/bash
# tools/m.sh MODULE FAM DEPTH: run one model by hand
mkdir -p /tmp/m; printf 'CONSTANTS Fam = "%s" Depth = %s\nSPECIFICATION Spec\nVIEW View\nINVARIANT TypeOK\nPROPERTY Laws\nCHECK_DEADLOCK FALSE\n' $2 $3 > /tmp/m/$2.cfg
cd "$(dirname "$0")/../spec"; time JAVA_TOOL_OPTIONS="-Xss64m" tlc -noTE -nowarning -metadir /tmp/m/md$2 -config /tmp/m/$2.cfg -workers 4 $1.tla > /tmp/m/$2.out 2>&1; grep -v '^"S' /tmp/m/$2.out | tail -${4:-25}; echo scripts $(grep -c '^"S' /tmp/m/$2.out)
