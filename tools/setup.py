#!/usr/bin/env python3
"""Builds the harness and checks that all specifications parse"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import core
core.build()
print("setup ok")
