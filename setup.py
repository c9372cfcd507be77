#!/usr/bin/env python3
"""Prepares build/: header shims, the AST extractor. Checks do the same on demand."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import astq, common

common.ensure_shims()
astq.tool()
