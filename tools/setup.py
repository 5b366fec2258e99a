#!/usr/bin/env python3
"""builds the harness once, to show that it builds"""
import check
try:
    check.build()
except check.Undecided as e:
    print(e)
    raise SystemExit(1)
