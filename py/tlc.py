"""Running TLC."""
import os, re, subprocess, shutil, tempfile, time
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(Exception):
    pass

def tlc(module, cfg=None, env=None, workers=8, timeout=800, args=(), mem="6g", dfs=False):
    """-> (exit code, output, stats); a timeout or a crash of the tool raises"""
    meta = tempfile.mkdtemp(prefix="tlc", dir="/dev/shm")
    e = dict(os.environ)
    e.update(env or {})
    jopts = ["-Xmx" + mem, "-XX:+UseParallelGC", "-Xss64m"]
    if dfs: jopts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd = ["java", "-Djava.io.tmpdir=" + meta] + jopts + ["-cp", JARS, "tlc2.TLC", "-config", cfg or module + ".cfg", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TlcError("timeout of TLC: " + " ".join(cmd) + "\n" + (x.stdout or b"").decode(errors="replace")[-3000:])
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode(errors="replace")
    st = {"wall": time.time() - t, "states": 0, "distinct": 0}
    for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
        st["states"], st["distinct"] = (int(x.replace(",", "")) for x in m.groups())
    return p.returncode, out, st
