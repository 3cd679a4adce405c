#!/bin/bash
# development helper: refresh the generated files and commit
cd /verif && python3 tools/mkfixed.py && python3 tools/mkmanifest.py && PYTHONPATH=/repo /opt/venv/bin/python -B tools/mkdesign.py && git add -A && git commit -qm "${1:-update}" && git log --oneline | head -1
