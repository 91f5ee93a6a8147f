#!/usr/bin/env python3
"""setup: check the tools and warm the object cache of the code under test"""
import os, sys, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for t in ('verus', 'clang++', 'g++', 'cmake', 'ninja'):
    if not shutil.which(t):
        print('missing tool:', t); sys.exit(1)
import build
cfg = build.config()
hh = build.headers_hash(cfg)
build.lib_objs(cfg, hh, build.CXX + build.ASAN, 8)
print('ready')
