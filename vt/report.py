"""Result collection shared by all checks."""
import json, os, re, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Broken(Exception):
    """the check lost an anchor it needs: no verdict"""


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.viol = []          # (key, message)
        self.keys = set()
        self.cov = {"explanation": ""}
        self.samples = []
        self.assume = []
        self.counts = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, x, limit=12):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, key, msg):
        key = re.sub(r"\s+", "_", key)
        """key identifies the construct and the way it fails, independent of line numbers"""
        if key not in self.keys:
            self.keys.add(key)
            self.viol.append((key, msg))

    def need(self, name, at_least):
        """instance floor: fewer instances than confirmed by reading is a broken analysis"""
        n = self.counts.get(name, 0)
        if n < at_least and not self.viol:
            raise Broken("only %d %s analysed, expected at least %d" % (n, name, at_least))


def known(pid):
    r = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            f = l.strip().split(None, 3)
            if len(f) >= 3 and f[0] == "KNOWN" and f[1] == "property=" + pid:
                assert f[2].startswith("key=")
                r[f[2][4:]] = f[3] if len(f) > 3 else ""
    return r


def finish(cx):
    kn = known(cx.pid)
    new, old = [], []
    for k, m in cx.viol:
        (old if k in kn else new).append((k, m))
    ev = dict(property=cx.pid, tier=cx.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
              coverage=dict(cx.cov, counts=cx.counts, samples=cx.samples,
                            known_findings_seen=[k for k, _ in old]),
              assumptions=cx.assume, wall_s=round(time.time() - cx.t0, 2), violations=len(new))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", cx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for k, m in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (cx.pid, k, kn[k] or m.split("\n")[0]))
    rp = os.path.join(V, "evidence", cx.pid + ".violations.txt")
    if new:
        with open(rp, "w") as f:
            for k, m in new:
                f.write("%s\n  %s\n\n" % (k, m.replace("\n", "\n  ")))
        for k, m in new:
            print("%s: %s" % (k, m))
        print("VIOLATION property=%s replay=%s" % (cx.pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print("%s: held; %s" % (cx.pid, ", ".join("%s=%s" % x for x in sorted(cx.counts.items()))))
    return 0
