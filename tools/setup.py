#!/usr/bin/env python3
"""Checks that the tools the checks need are here (each check builds what it needs itself)."""
import os, shutil, subprocess, sys
need = ["g++", "java", "ar"]
missing = [x for x in need if not shutil.which(x)]
jar = "/opt/veriftools/tla/tla2tools.jar"
if not os.path.exists(jar): missing.append(jar)
if missing: print("missing:", missing); sys.exit(1)
print("ready")
