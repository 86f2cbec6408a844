#!/usr/bin/env python3
"""Compile and run the program of a replay file against /repo. usage: replay.py <file>"""
import json, os, subprocess, sys, tempfile, shutil
rec = json.load(open(sys.argv[1]))
print(rec["violation"], "-", rec["what"])
d = tempfile.mkdtemp(prefix="replay")
try:
    os.mkdir(d + "/src")
    open(d + "/src/main.rs", "w").write(rec["program"])
    open(d + "/Cargo.toml", "w").write('[package]\nname="replay"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[dependencies]\narraystring={path="/repo"}\n')
    env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true")
    prof = [] if rec["configuration"].startswith(("chk", "dev")) else ["--release"]
    sys.exit(subprocess.run(["cargo", "run", "-q", "--offline"] + prof, cwd=d, env=env).returncode)
finally:
    shutil.rmtree(d)
