#!/bin/bash
# regenerates every derived committed file
cd "$(dirname "$0")/.." && python3 tools/sync_findings.py && python3 tools/gen_meta.py && python3 tools/gen_design.py
