#!/usr/bin/env python3
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.exit(subprocess.call([sys.executable, "-B", os.path.join(V, "tools", "vb.py"), "build", "all"], cwd=V))
