#!/bin/bash
# grab.sh ID NAME: run the check; save the replay of its failure as corpus/ID/NAME.json
cd /verif; out=$(target/debug/${BIN:-harness} check $1); echo "$out" | cut -c1-600
r=$(echo "$out" | sed -n 's/^VIOLATION.*replay=//p'); [ -n "$r" ] && mkdir -p corpus/$1 && mv "$r" corpus/$1/$2.json
