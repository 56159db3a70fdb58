#!/bin/bash
for i in "$@"; do echo "== $i"; /verif/tools/seedtest.sh $i; done
