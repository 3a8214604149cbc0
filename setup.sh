#!/bin/bash
# builds the MIR dump driver and exports the MIR of the current tree once
cd "$(dirname "$0")" || exit 2
exec python3 analysis/dump.py
