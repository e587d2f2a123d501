#!/usr/bin/env python3
"""builds the IR dumper"""
import os, sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"engine"))
import build
print(build.tool())
