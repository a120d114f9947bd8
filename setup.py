#!/usr/bin/env python3
"""Prepare a fresh sandbox: check the tools and warm the shared build cache."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pslib import build, decl, tlc


def main():
    for tool in ("cargo", "java"):
        if shutil.which(tool) is None:
            print("missing:", tool)
            return 1
    if not os.path.exists(tlc.JARS.split(":")[0]):
        print("missing: TLC")
        return 1
    ws = build.Workspace("setup")
    ws.add("0", "fn main() {}\n")
    ws.finish()
    ws.cargo(["build"], check=False)
    return 0


if __name__ == "__main__":
    sys.exit(main())
