#!/bin/bash
# mkdemo.sh ID  (body on stdin): writes seeded/<ID>/demo.sh with the common preamble
V=$(dirname "$(dirname "$(realpath "$0")")"); cat $V/tools/pre.sh - > $V/seeded/$1/demo.sh
