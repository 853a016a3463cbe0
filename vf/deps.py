"""Unpack the Hypothesis wheels from the offline wheelhouse into a directory."""
import glob
import os
import sys
import tempfile
import zipfile

WHEELS = "/opt/veriftools/wheels"
NEEDED = ["hypothesis", "sortedcontainers", "attrs"]


def unpack(target):
    target = os.path.abspath(target)
    if os.path.isdir(os.path.join(target, "hypothesis")):
        return target
    os.makedirs(os.path.dirname(target), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.dirname(target), prefix=".deps_")
    for name in NEEDED:
        hits = sorted(glob.glob(os.path.join(WHEELS, name + "-*.whl")))
        own = [h for h in hits if f"-cp{sys.version_info[0]}{sys.version_info[1]}-" in h]
        hits = own or [h for h in hits if "-none-any" in h]
        if not hits:
            raise SystemExit(f"no wheel for {name} in {WHEELS}")
        with zipfile.ZipFile(hits[-1]) as z:
            z.extractall(tmp)
    try:
        os.rename(tmp, target)
    except OSError:
        if not os.path.isdir(os.path.join(target, "hypothesis")):
            raise
    return target


if __name__ == "__main__":
    print(unpack(sys.argv[1]))
