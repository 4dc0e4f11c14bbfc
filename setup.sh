#!/bin/bash
# builds the IR translator and the bitcode of the current tree
cd /verif/engine && python3 -c "
import build
build.irx(); build.link()
"
