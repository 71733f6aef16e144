#!/usr/bin/env python3
"""builds the congruence engine from its committed source"""
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'sa'))
import ser
print(ser.engine())
