#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there (the checks build everything themselves)."""
import shutil,sys
miss=[t for t in("g++","python3","mpicxx") if not shutil.which(t)]
if miss: print("missing:",miss); sys.exit(1)
print("ok")
