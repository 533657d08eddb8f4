#!/bin/bash
# exit 0: the property holds for this demonstration; nonzero: it does not
exec python3 "$(dirname "$0")/demo.py"
