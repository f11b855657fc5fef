#!/usr/bin/env python3
"""Checks that the tools the checks need are there and warms the compiler caches."""
import os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
for t in (["clang++", "--version"], ["go", "version"]):
    subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly")
r = subprocess.run(["go", "build", "./ref", "./evmgen", "./rep"], cwd=os.path.join(V, "go"), env=env)
sys.exit(r.returncode)
