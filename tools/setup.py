#!/usr/bin/env python3
"""builds the rewriter and the runtime once (checks rebuild whatever they need themselves)"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import overlay
overlay.build("sym", ["lib__common.rs"])
overlay.build("native", ["lib__common.rs"])
print("ok")
