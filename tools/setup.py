"""setup_cmd: checks that the tools the checks need are there (nothing to build)."""
import os, subprocess, sys
for cmd in (["java", "-version"], ["/opt/venv/bin/python", "-c", "import asyncio"]):
    if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        sys.exit(f"cannot run {cmd}")
for jar in ("tla2tools.jar", "CommunityModules-deps.jar"):
    if not os.path.exists("/opt/veriftools/tla/" + jar):
        sys.exit(f"no {jar}")
os.makedirs("evidence/replay", exist_ok=True)
print("ok")
