#!/usr/bin/env python3
"""Development aid: plant.py SPEC.py — confirm planted bugs in a scratch copy and keep them in seeded/.

SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].
A bug is kept when its demo passes on the unchanged copy and fails on the changed one and the stable tests pass.
"""
import concurrent.futures as cf, json, os, pathlib, runpy, shutil, subprocess, sys, tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
HEAD = """import asyncio, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from unittest.mock import *
import zigpy.types as t
import zigpy.device
from zigpy.zcl import foundation
from zigpy.zdo import types as zdo_t
import tests.conftest as cft


def mkapp(**config):
    app = cft.make_app(config)
    return app


async def dbapp(path):
    app = cft.make_app({"database_path": path, "startup_energy_scan": False, "topology_scan_enabled": False})
    app._dblistener = await __import__("zigpy.appdb").appdb.PersistingListener.new(path, app)
    app.add_listener(app._dblistener)
    app.groups.add_listener(app._dblistener)
    app.backups.add_listener(app._dblistener)
    app.topology.add_listener(app._dblistener)
    await app._load_db_() if hasattr(app, "_load_db_") else await app._dblistener.load()
    return app


def mkdev(app, n=1, nwk=0x1234, ins=(0, 3, 6), outs=(25,), init=True, epid=1):
    dev = app.add_device(cft.make_ieee(n), nwk)
    if init:
        dev.node_desc = cft.make_node_desc(logical_type=zdo_t.LogicalType.Router)
        ep = dev.add_endpoint(epid)
        ep.status = __import__("zigpy.endpoint").endpoint.Status.ZDO_INIT
        ep.profile_id = 260
        ep.device_type = 1
        for c in ins:
            ep.add_input_cluster(c)
        for c in outs:
            ep.add_output_cluster(c)
        dev.model = "m"
        dev.manufacturer = "f"
        dev.status = zigpy.device.Status.ENDPOINTS_INIT
    return dev


def packet(dev, data, cluster=6, src_ep=1, dst_ep=1, profile=260, **kw):
    return t.ZigbeePacket(src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=dev.nwk), src_ep=src_ep,
        dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=0), dst_ep=dst_ep, tsn=1, profile_id=profile,
        cluster_id=cluster, data=t.SerializableBytes(data), **kw)


"""
SH = '#!/bin/bash\n# Run with the repository as the working directory.\nexport PYTHONDONTWRITEBYTECODE=1 TZ=UTC\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, t=600):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)


def one(b):
    w = pathlib.Path(tempfile.mkdtemp(prefix="plant."))
    try:
        r = w / "repo"
        sh(["cp", "-a", "/repo", str(r)], "/")
        d = w / "seed"
        d.mkdir()
        (d / "demo.py").write_text(HEAD + b["demo"])
        (d / "demo.sh").write_text(SH)
        (d / "demo.sh").chmod(0o755)
        c = sh(["bash", str(d / "demo.sh")], r)
        if c.returncode:
            return b["id"], f"demo fails on the unchanged tree: {(c.stdout + c.stderr)[-800:]}"
        for f, old, new in b["edits"]:
            s = (r / f).read_text()
            if s.count(old) != 1:
                return b["id"], f"{f}: {s.count(old)} matches of {old[:60]!r}"
            (r / f).write_text(s.replace(old, new))
        c = sh(["bash", str(d / "demo.sh")], r)
        if not c.returncode:
            return b["id"], "demo passes with the change"
        why = (c.stdout + c.stderr).strip().splitlines()[-1:]
        import re
        own, other, path, ln = 0, 0, None, 0
        for x in sh(["git", "diff", "-U0"], r).stdout.splitlines():
            if x.startswith("--- a/"):
                path = x[6:]
            elif x.startswith("@@"):
                ln = int(re.match(r"@@ -(\d+)", x).group(1))
            elif x.startswith("-") and not x.startswith("---"):
                h = sh(["git", "blame", "-l", "-s", "-L", f"{ln},{ln}", "HEAD", "--", path], r).stdout.split(" ")[0].lstrip("^")
                base = sh(["git", "merge-base", "--is-ancestor", h, "561f035"], r).returncode == 0 if h else False
                own, other, ln = own + (not base), other + base, ln + 1
        if own and not other:
            return b["id"], "changes only lines that a fix added"
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC", LANG="C.UTF-8")
        sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", f"--basetemp={w}/t", "--ignore=tests/ota/test_ota_providers.py", "-o", "junit_family=xunit2", f"--junitxml={w}/junit.xml", "tests"], r, env)
        sh([sys.executable, "/opt/vp/results.py", str(w / "o.json"), f"junit:{w}/junit.xml"], r)
        o = json.load(open(w / "o.json"))
        miss = sorted(set(BASE) - set(o["passed"]))
        if miss:
            return b["id"], f"{len(miss)} stable tests fail: {miss[:4]}"
        (d / "patch.diff").write_text(sh(["git", "diff"], r).stdout)
        (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        out = VERIF / "seeded" / b["id"]
        if out.exists():
            shutil.rmtree(out)
        shutil.copytree(d, out)
        c = sh([sys.executable, str(VERIF / "check.py"), b["property"]], r, dict(os.environ, ZCHECK_REPO=str(r), ZCHECK_EVIDENCE=str(w / "ev")))
        v = [x for x in c.stdout.splitlines() if ": rule" in x][:2]
        return b["id"], f"KEPT; demo: {why}; check rc {c.returncode} {'CAUGHT' if c.returncode == 1 else 'MISSED'} {v}"
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    bugs = [b for s in sys.argv[1:] for b in runpy.run_path(s)["BUGS"]]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, bugs):
            print(i, m[:900], flush=True)
