#!/usr/bin/env python3
"""Builds the extractor and the replay programs once, to show that they build offline."""
import check, os, sys
os.makedirs(check.WORK, exist_ok=True)
check.build_extractor()
for c in sorted({c for p in check.PROPS.values() for c in p['replay'].split()}):
    check.build_replay(c)
print('built')
