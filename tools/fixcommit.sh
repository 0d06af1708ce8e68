#!/bin/bash
# fixcommit.sh PROPERTY "message" files... : commits a repair in /repo and records it
p=$1; m=$2; shift 2
git -C /repo commit -q -m "fix: $m" -- "$@" && echo "fixed: property=$p $(git -C /repo rev-parse --short HEAD) $m" >> /verif/known_findings.txt
