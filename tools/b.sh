#!/bin/bash
/verif/build.sh mozilla 2>&1 | grep -E "^(error|warning: unused)|-->|= note|help" | head -80
