#!/bin/bash
# Regenerates properties.jsonl, MANIFEST.json, known_findings.json and DESIGN.md.
cd "$(dirname "$0")/.." && for t in mkprops mkmanifest mkfindings mkdesign; do python3 tools/$t.py || exit 1; done
