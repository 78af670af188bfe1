#!/usr/bin/env python3
"""builds the extractor (a clang libTooling program); the checks build it themselves if this was not run"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import driver
print(driver.extractor())
