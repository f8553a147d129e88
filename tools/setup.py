#!/usr/bin/env python3
"""Nothing needs to be built in advance: every check builds from /repo's working tree. Verifies that the tools are there."""
import os, shutil, sys
missing = [t for t in ("java", "g++", "protoc") if not shutil.which(t)]
missing += [p for p in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/repo/venv/bin/python") if not os.path.exists(p)]
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
print("ok")
