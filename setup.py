#!/usr/bin/env python3
"""Check that what the framework needs is there; the checks build what they need themselves."""
import os, subprocess, sys
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), CARGO_NET_OFFLINE="true")
env.setdefault("HOME", "/root")
here = os.path.dirname(os.path.abspath(__file__))
r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--release", "--bin", "mc"],
                   cwd=os.path.join(here, "mc"), env=dict(env, CARGO_TARGET_DIR=os.path.join(here, "target", "mc-relsub")))
sys.exit(r.returncode)
