#!/usr/bin/env python3
"""check.py PROPERTY  --  decides one property of /repo's current source.

1. The extractor copies the functions under contract out of /repo's current
   source into Verus units (units/*.rs.in hold contracts, invariants, lemmas).
2. Verus discharges every obligation; a canary copy of each unit (every body
   starts with a false assertion) has to be rejected function by function.
3. The real code runs on generated inputs (harness/): this replays what a
   failed obligation says and stands in, bounded, for what is out of reach.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Nothing else.
"""
import fcntl, json, os, re, subprocess, sys, time, threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
EVID = os.path.join(V, "evidence")
START = time.time()
LIMIT = 840  # of the 900 s a check gets
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")

CFG = json.load(open(os.path.join(V, "checks.json")))


def log(*a):
    print(*a, flush=True)


def left():
    return LIMIT - (time.time() - START)


def sh(cmd, timeout, cwd=V, out=None):
    """run; returns (rc, stdout, stderr); rc None on timeout"""
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, timeout=max(5, timeout), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda b: b.decode("utf-8", "replace") if isinstance(b, bytes) else (b or "")
        return None, d(e.stdout), d(e.stderr)


class Lock:
    def __init__(self, n):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, n + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_extractor():
    with Lock("extract"):
        rc, o, e = sh(["cargo", "build", "--release", "--offline", "-q"], 300, os.path.join(V, "extract"))
    if rc != 0:
        return "extractor did not build: " + e[-800:]
    return None


def build_harness():
    with Lock("harness"):
        rc, o, e = sh(["cargo", "build", "--offline", "-q"], min(600, left() - 60), os.path.join(V, "harness"))
    if rc != 0:
        errs = [l for l in e.splitlines() if l.startswith("error")]
        return "harness did not build against the current source: " + "; ".join(errs[:6] or [e[-400:]])
    return None


# ---------------------------------------------------------------- verifier

OPEN = json.load(open(os.path.join(V, "units/open_closures.json")))

PROOF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed",
              "invariant not satisfied", "possible arithmetic", "possible division", "decreases not satisfied",
              "loop invariant", "possible bit shift", "unreachable", "constructed value may fail",
              "requires not satisfied", "recommendation not met", "cannot show", "Cannot show", "might not",
              "possible", "ensures", "unable to prove")


class Unit:
    def __init__(self, name, tag):
        self.name, self.tag = name, tag
        self.rs = os.path.join(BUILD, "%s_%s.rs" % (name, tag))
        self.rep = os.path.join(BUILD, "%s_%s.json" % (name, tag))
        self.demoted = {}       # fid -> reason
        self.undecided = None   # reason, if the whole unit is out of reach
        self.failures = []      # dicts: fn, tags, msg, text
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.cmd = ""
        self.report = {}
        self.lemma_failures = []
        self.vacuous = []

    def extract(self, rs, canary=False):
        cmd = [os.path.join(V, "extract/target/release/extract"), REPO, self.name + ".rs.in", rs, self.rep]
        if canary:
            cmd.append("--canary")
            cmd[4] = self.rep + ".canary"
        if self.demoted:
            cmd.append("--external=" + ";".join(sorted(self.demoted)))
        rc, o, e = sh(cmd, 60, os.path.join(V, "units"))
        if rc not in (0, 3):
            return None, "extraction failed: " + (e or o)[-500:]
        return json.load(open(cmd[4])), None

    def verus(self, rs, rlimit=None, seed=None, multi=6, timeout=300):
        cmd = ["verus", "--edition=2018", os.path.basename(rs), "--output-json", "--time", "--multiple-errors", str(multi)]
        if rlimit:
            cmd += ["--rlimit", str(rlimit)]
        if seed is not None:
            cmd += ["--smt-option", "smt.random_seed=%d" % seed]
        cmd += ["--", "--error-format=json"]
        self.cmd = "cd build && " + " ".join(cmd)
        rc, o, e = sh(cmd, min(timeout, left()), BUILD)
        if rc is None:
            return None, "verifier timed out"
        try:
            j = json.loads(o[o.index("{"):])
        except ValueError:
            return None, "verifier crashed: " + (e[-600:] or o[-600:])
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        return (j, diags), None

    def regions(self, rs):
        """line -> function id; function id -> tags; line -> tags"""
        fn_at, tags_of, tags_at, cur = {}, {}, {}, None
        lines = open(rs).read().split("\n")
        for n, l in enumerate(lines, 1):
            m = re.match(r"// @FN (\S+)", l)
            if m:
                cur = m.group(1)
                tags_of.setdefault(cur, set())
            if cur:
                fn_at[n] = cur
            m = re.search(r"// \[(C\d\d(?:[ ,]+C\d\d)*)\]", l)
            if m:
                ts = set(re.findall(r"C\d\d", m.group(1)))
                tags_at[n] = ts
                if cur:
                    tags_of[cur] |= ts
            if l.startswith("// @ENDFN"):
                cur = None
        return fn_at, tags_of, tags_at, lines

    def spans(self, d):
        base = os.path.basename(self.rs)
        out = []
        for s in d.get("spans", []):
            if os.path.basename(s["file_name"]) == base:
                out.append((s["line_start"], s["is_primary"], s.get("label") or ""))
            # a macro or vstd span: look at where it was expanded
            x = s.get("expansion")
            while x:
                y = x["span"]
                if os.path.basename(y["file_name"]) == base:
                    out.append((y["line_start"], s["is_primary"], s.get("label") or ""))
                x = y.get("expansion")
        return out

    def run(self):
        rlimit = None
        for attempt in range(12):
            if left() < 30:
                self.undecided = "out of time"
                return
            rep, err = self.extract(self.rs)
            if err:
                self.undecided = err
                return
            self.report = rep
            # lost anchors inside functions: structure changed
            lost = {}
            for p in rep["problems"]:
                fid, _, msg = p.partition(": ")
                if fid not in self.demoted:
                    lost[fid] = msg
            if lost:
                self.demoted.update(lost)
                continue
            res, err = self.verus(self.rs, rlimit)
            if err:
                self.undecided = err
                return
            j, diags = res
            vr = j["verification-results"]
            self.verified, self.errors = vr.get("verified", 0), vr.get("errors", 0)
            t = j.get("times-ms", {}).get("smt", {})
            self.smt_ms = t.get("total", 0) if isinstance(t, dict) else 0
            fn_at, tags_of, tags_at, lines = self.regions(self.rs)
            self.fn_at, self.tags_of = fn_at, tags_of
            errs = [d for d in diags if d["level"] == "error" and not d["message"].startswith("aborting due to")]
            if vr.get("success"):
                self.failures = []
                return
            structural = [d for d in errs if not d["message"].startswith(PROOF_MSGS)
                          and "esource limit" not in d["message"] and "rlimit" not in d["message"]]
            if self.verified + self.errors == 0 or vr.get("encountered-vir-error") or structural:
                new = {}
                for d in structural or errs:
                    for (ln, prim, lab) in self.spans(d):
                        f = fn_at.get(ln)
                        if f and f not in self.demoted:
                            new[f] = d["message"][:160]
                # only functions under contract can be taken out of reach
                known = {f["id"]: f for f in rep["fns"]}
                for f in list(new):
                    if f in known and not known[f]["contracted"]:
                        # a helper outside the contracts: it and its callers go
                        name = f.rsplit("#", 1)[1]
                        why = new[f]
                        for g in rep["fns"]:
                            if g["contracted"] and name in g["calls"] and g["id"] not in self.demoted:
                                new[g["id"]] = "calls %s: %s" % (name, why)
                if not new:
                    self.undecided = "not accepted by the verifier's front end: " + "; ".join(
                        d["message"][:160] for d in (structural or errs)[:3])
                    return
                self.demoted.update(new)
                continue
            # proof failures
            limited = [d for d in errs if "esource limit" in d["message"] or "rlimit" in d["message"]]
            if limited and rlimit is None:
                rlimit = 60
                continue
            fails, lemmas, lim = [], [], {}
            for d in errs:
                sp = self.spans(d)
                fs = [(fn_at.get(ln), ln, prim, lab) for (ln, prim, lab) in sp]
                own = [x for x in fs if x[0] and "failed precondition" not in x[3]]
                if d in limited:
                    for x in fs:
                        if x[0]:
                            lim[x[0]] = "resource limit"
                    if not any(x[0] for x in fs):
                        lemmas.append(d["message"])
                    continue
                f = own[0][0] if own else None
                post = d["message"].startswith("postcondition")
                tags = set()
                if post:
                    for x in fs:
                        tags |= tags_at.get(x[1], set())
                if f is None:
                    lemmas.append("%s near line %s" % (d["message"], sp[:1]))
                    continue
                if not tags:
                    tags = tags_of.get(f, set())
                text = [lines[x[1] - 1].strip() for x in fs]
                fails.append({"fn": f, "tags": sorted(tags), "msg": d["message"], "at": text,
                              "rendered": (d.get("rendered") or "")[:1500]})
            if lim:
                self.demoted.update({k: v for k, v in lim.items() if k not in self.demoted})
                if any(k not in self.demoted for k in lim):
                    continue
            # a failing function that calls a helper without a contract: the
            # helper needs one before the failure means anything
            helper = {f["id"].rsplit("#", 1)[1] for f in rep["fns"] if not f["contracted"]}
            new = {}
            for x in fails:
                g = next((f for f in rep["fns"] if f["id"] == x["fn"]), None)
                if g and g["contracted"] and x["fn"] not in self.demoted:
                    h = helper & set(g["calls"])
                    if g["open"] > OPEN.get(x["fn"], 0):
                        # what a closure without a contract returns is unknown
                        new[x["fn"]] = "passes on a closure that has no contract"
                    elif h:
                        new[x["fn"]] = "calls %s, which has no contract" % ", ".join(sorted(h))
                elif g and not g["contracted"]:
                    # the failing obligation lies in the helper itself
                    name = x["fn"].rsplit("#", 1)[1]
                    for k in rep["fns"]:
                        if k["contracted"] and name in k["calls"] and k["id"] not in self.demoted:
                            new[k["id"]] = "calls %s, which has no contract" % name
            if new:
                self.demoted.update(new)
                continue
            self.failures, self.lemma_failures = fails, lemmas
            return
        self.undecided = "gave up after repeated demotions"

    def canary(self):
        """every body starting with `assert(false)` must be rejected"""
        if self.undecided or left() < 60:
            return
        rs = self.rs[:-3] + "_canary.rs"
        rep, err = self.extract(rs, canary=True)
        if err:
            return
        keep = self.rs, self.cmd
        self.rs = rs
        res, err = self.verus(rs, multi=0)
        if not err:
            j, diags = res
            lines = open(rs).read().split("\n")
            want = {n for n, l in enumerate(lines, 1) if "/*CANARY*/" in l}
            got = set()
            fn_at = self.regions(rs)[0]
            for d in diags:
                for (ln, prim, lab) in self.spans(d):
                    got.add(fn_at.get(ln))
            self.canaries = len(want)
            self.vacuous = sorted({fn_at[n] for n in want} - got)
        self.rs, self.cmd = keep


TRUST = re.compile(r"external_body|assume_specification|\baxiom\b|\baxiom_\w+|\badmit\(|\bassume\(|"
                   r"external_type_specification|uninterp spec fn")


def trusted_base(u):
    """mechanical scan of the unit for everything that is assumed"""
    out, lines = [], open(u.rs).read().split("\n")
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "#[verifier::external_body]" in s:
            for k in range(n, min(n + 6, len(lines))):
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", lines[k])
                if m:
                    out.append("%s: external_body %s %s" % (u.name, m.group(1), m.group(2)))
                    break
        elif "assume_specification" in s:
            m = re.search(r"\[\s*([^\]]+)\]", s)
            out.append("%s: assumed specification of %s" % (u.name, m.group(1).strip() if m else s[:80]))
        elif re.search(r"uninterp spec fn\s+\w+", s):
            out.append("%s: uninterpreted %s" % (u.name, re.search(r"uninterp spec fn\s+(\w+)", s).group(1)))
        elif re.search(r"\b(assume|admit)\(", s):
            out.append("%s: %s" % (u.name, s[:100]))
        elif re.search(r"axiom fn\s+\w+", s):
            out.append("%s: axiom %s" % (u.name, re.search(r"axiom fn\s+(\w+)", s).group(1)))
        elif "external_type_specification" in s:
            for k in range(n, min(n + 6, len(lines))):
                m = re.search(r"struct\s+\w+[^(]*\(([^;]*)\);", lines[k])
                if m:
                    out.append("%s: external type %s" % (u.name, m.group(1)))
                    break
    return sorted(set(out))


# ---------------------------------------------------------------- harness

def run_harness(pid, tier, seed, secs):
    out = os.path.join(BUILD, "harness.%s.json" % pid)
    if os.path.exists(out):
        os.unlink(out)
    b = os.path.join(V, "harness/target/debug/harness")
    rc, o, e = sh([b, pid, str(seed), tier, str(secs), out], min(secs * 3 + 240, left()))
    j = {}
    if os.path.exists(out):
        try:
            j = json.load(open(out))
        except ValueError:
            pass
    return rc, j, (o + e)[-1500:]


def said(cfg, head):
    """the part of the note that starts with `head`"""
    m = re.search(head + r"[^:.]*: (.*?)(?= (?:Proved|Assumed|Bounded|Known finding)\b[^:.]*:|$)", cfg["note"])
    return [m.group(1).strip()] if m else []


def main():
    pid = sys.argv[1]
    cfg = CFG[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    ev_path = os.path.join(EVID, pid + ".json")
    for p in (ev_path,):
        if os.path.exists(p):
            os.unlink(p)
    notes, hb = [], {}

    def hbuild():
        hb["err"] = build_harness()

    th = threading.Thread(target=hbuild)
    th.start()
    units = []
    err = build_extractor() if cfg["units"] else None
    if err:
        notes.append(err)
    else:
        for n in cfg["units"]:
            units.append(Unit(n, pid))
        ts = [threading.Thread(target=lambda u=u: (u.run(), u.canary())) for u in units]
        for i in range(0, len(ts), 3):
            for t in ts[i:i + 3]:
                t.start()
            for t in ts[i:i + 3]:
                t.join()
    th.join()

    mine = [dict(f, unit=u.name) for u in units for f in u.failures if pid in f["tags"]]
    lost = {}
    for u in units:
        if u.undecided:
            notes.append("unit %s undecided: %s" % (u.name, u.undecided))
        for f, why in u.demoted.items():
            if pid in getattr(u, "tags_of", {}).get(f, {pid}):
                lost[f] = why
        for l in u.lemma_failures:
            notes.append("unit %s: a lemma no longer holds over the extracted definitions: %s" % (u.name, l))
        for f in u.report.get("missing", []):
            notes.append("unit %s: %s not found in the current source" % (u.name, f))
        for f in u.vacuous:
            notes.append("unit %s: %s is vacuous (contradictory assumptions)" % (u.name, f))
    weak = bool(lost or notes or mine)

    secs = cfg.get("secs_" + tier, {"quick": 25, "thorough": 240}[tier])
    if weak and tier == "quick":
        secs = secs * 3
    secs = max(5, min(secs, left() - 150))
    hj, hout, hrc = {}, "", None
    if hb.get("err"):
        notes.append(hb["err"])
    else:
        hrc, hj, hout = run_harness(pid, tier, seed, secs)
        if hrc is None:
            notes.append("harness ran out of time")
        elif hrc not in (0, 1):
            notes.append("harness ended with %s: %s" % (hrc, hout[-300:]))
    failing = hrc == 1 and hj.get("failure")

    # ---- known findings
    known = []
    kf = os.path.join(V, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                known.append(m.group(2))
    for k in known:
        log("KNOWN-FINDING: property=%s %s" % (pid, k))

    # ---- evidence
    fns_mine, trusted = set(), []
    obligations = discharged = smt = canaries = 0
    per_unit = []
    for u in units:
        if u.undecided:
            continue
        obligations += u.verified + u.errors
        discharged += u.verified
        smt += u.smt_ms
        canaries += getattr(u, "canaries", 0)
        ids = {f["id"]: f for f in u.report.get("fns", [])}
        for f, tags in u.tags_of.items():
            if pid in tags and f in ids and ids[f]["contracted"] and not ids[f]["external"]:
                fns_mine.add(f)
        trusted += trusted_base(u)
        per_unit.append({"unit": u.name, "verified": u.verified, "errors": u.errors, "smt_ms": u.smt_ms,
                         "checker_cmd": u.cmd, "canaries_rejected": getattr(u, "canaries", 0) - len(u.vacuous),
                         "substitutions": u.report.get("substitutions", []),
                         "helpers_without_contract": u.report.get("uncontracted", [])})
    level = "proof" if obligations else "exploration"
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(x["checker_cmd"] for x in per_unit) or "none",
        "trusted_base": trusted or ["none"],
        "back_end": "Verus 0.2026.09.13 with Z3", "solver_ms": smt, "units": per_unit,
        "functions_under_contract": sorted(fns_mine),
        "canaries_rejected": canaries - sum(len(u.vacuous) for u in units),
        "not_proved_bounded_only": lost, "bounded_stand_ins": said(cfg, "Bounded"),
        "evaluations": hj.get("evaluations", 0), "distinct_nontrivial": hj.get("distinct_nontrivial", 0),
        "rule": hj.get("rule", "") or "no harness run", "samples": hj.get("samples", []) or ["none"],
        "harness_seconds": secs,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": said(cfg, "Assumed") + notes,
          "wall_s": round(time.time() - START, 1), "violations": 0}
    replay = os.path.join(EVID, pid + ".replay.txt")
    code = 0
    if failing:
        with open(replay, "w") as f:
            f.write("property %s\nreplay: %s %s %d %s %s OUT.json\n\nfailing input: %s\n\nwhat happened: %s\n" % (
                pid, "harness/target/debug/harness", pid, seed, tier, secs, hj.get("case", ""), hj["failure"]))
            for m in mine:
                f.write("\nfailed obligation: %s in %s (%s)\n%s\n" % (m["msg"], m["fn"], " | ".join(m["at"]), m["rendered"]))
        log("failing input: %s" % hj.get("case", "")[:1500])
        log("what happened: %s" % hj["failure"][:1500])
        log("VIOLATION property=%s replay=%s" % (pid, replay))
        ev["violations"], code = 1, 1
    elif mine:
        with open(replay, "w") as f:
            f.write("property %s: the verifier rejects these obligations, which it accepts on the unchanged source;\n"
                    "the real code was run on %s generated inputs without reproducing a failure\n" % (pid, hj.get("evaluations", 0)))
            for m in mine:
                f.write("\nfailed obligation: %s in %s\n  %s\n%s\n" % (m["msg"], m["fn"], "\n  ".join(m["at"]), m["rendered"]))
        for m in mine[:5]:
            log("failed obligation: %s in %s (%s)" % (m["msg"], m["fn"], " | ".join(m["at"])[:300]))
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        ev["violations"], code = 1, 1
    ev["wall_s"] = round(time.time() - START, 1)
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    for f, why in sorted(lost.items()):
        log("bounded only (not proved on this source): %s: %s" % (f, why))
    for n in notes:
        log("note: %s" % n)
    log("%s: %s; %d/%d obligations over %d functions, %d generated cases, %.0f s" % (
        pid, "VIOLATED" if code else "held", discharged, obligations, len(fns_mine), cov["evaluations"], time.time() - START))
    sys.exit(code)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # an error of the machinery is never an alarm
        import traceback
        traceback.print_exc()
        print("note: the check itself failed (%s); nothing was decided" % e, flush=True)
        sys.exit(2)
