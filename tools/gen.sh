#!/bin/sh
# Writes properties.jsonl, MANIFEST.json and DESIGN.md from their sources.
cd "$(dirname "$0")" && python3 mkprops.py && python3 mknotes.py && python3 mkmanifest.py && python3 mkdp.py && python3 catches.py && python3 mktail.py && python3 mkdesign.py
