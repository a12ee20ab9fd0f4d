"""What each check runs. A plan is a list of jobs (callables); jobs of a property run in parallel."""
from check import q, qs

PLANS, ASSUMPTIONS, PARALLEL, TECHNIQUE, NOTE, NA = {}, {}, {}, {}, {}, {}
COMMON_ASSUMPTIONS = [
    "kpango/fastime is replaced by a shim reading time.Now (real library: same value cached for up to 5 ms)",
    "kpango/gache is a copy of the pinned version with one added yield point in Get",
    "the server is an in-memory http.RoundTripper; TLS and net/http transport are not exercised",
    "bounds of the enumerated models are those in plans.py; beyond them only seeded random behaviours are replayed",
]

def plan(prop):
    def deco(f):
        PLANS[prop] = f
        return f
    return deco

def job(run, st):
    def j(): run.model_and_replay(st)
    j.__name__ = st.get("name", st["module"])
    return j

SPECIALS = qs(*"^$.|[]+(){}-/:,;=&#%@!~`'<>_ 0", "TAB", "BSL", "QUO")

@plan("C02")
def c02(run, tier):
    th = tier == "thorough"
    base = dict(module="GlobCases", driver="glob", invariants=["DesignOK", "Laws", "Out"])
    def st(name, plen, vlen, n, rlen, long=0):
        return dict(base, name=name, constants=dict(Specials=SPECIALS, PLen=plen, VLen=vlen, NRandom=n, RLen=rlen, NLong=long))
    if not th:
        return [job(run, st("glob", 3, 3, 600, 7)), job(run, st("glob-long", 1, 1, 1, 7, 250))]
    return [job(run, st("glob4", 4, 4, 3000, 9)), job(run, st("glob-rnd", 1, 1, 20000, 12)), job(run, st("glob-long", 1, 1, 1, 7, 5000))]

DELIMS = qs("", *",:|/.; -_=&+@#~")

@plan("C01")
def c01(run, tier):
    th = tier == "thorough"
    jobs = [job(run, dict(module="PolicyCases", name="decision", driver="decision", invariants=["Laws", "Out"],
                          constants=dict(Delims=DELIMS, NRandom=12000 if th else 1500, Pairs=True, Bigs=0))),
            job(run, dict(module="PolicyCases", name="decision-big", driver="decision", invariants=["Laws", "Out"], constants=dict(Delims="{}", NRandom=0, Pairs=False, Bigs=150 if th else 14))),
            job(run, dict(module="MergeCases", name="merge", driver="mergerace", invariants=["Out"], constants=dict(N=200 if th else 24))),
            job(run, dict(module="CheckConc", name="checkconc", driver="checkconc", spec="Spec", invariants=["GrantRight", "RejectRight", "EmitInit"], properties=["Answers"], dedup=True, constants=dict(MaxR=4))),
            job(run, dict(module="PolicyMerge", name="merge-model", spec="Spec", invariants=["Correct", "DenyFirst"], properties=["Terminates"],
                          constants=dict(NPol=3 if th else 2, Len1=2), workers=4))]
    return jobs

# ---------------------------------------------------------------- the policy daemon
def pd(name, cmp, emit="EmitAll", **kw):
    c = dict(ND=1, Attempts=1, Margin=1, MaxT=6, MaxV=2, Ttls={2, 4}, Tags=qs("y", ""), Bad=qs("neterr"), MaxGen=1, Uniform=False, Rnd=False, Cancels=False, MaxSteps=4)
    opt = {k: kw.pop(k) for k in ("sim", "depth", "workers", "max_cases", "timeout", "shards") if k in kw}
    tree = kw.pop("tree", False)
    if tree: emit = "EmitEnd"
    c.update(kw)
    return dict(module="PolicyDaemon", name=name, driver="policyd", invariants=["NeverExpired", "InstIsReceived", "AllOrNothing", "CondSafe"],
                properties=[] if "sim" in opt else ["FailNoEffect"], view=None if tree else "View", action_constraint=emit, constants=c, env={"VP_CMP": cmp}, **opt)

BADDOCS = ["neterr", "500", "404", "403", "204", "202", "401", "429", "503", "302", "garbage", "empty", "null", "{}", "array", "trunc", "cut", "nosigned",
           "ztssig", "ztsempty", "ztsunknown", "ztskeyempty", "ztsenv", "ztsswap", "zmssig", "zmsempty", "zmsunknown", "zmskeyempty", "zmsenv", "zmsswap",
           "zmstamper", "ztstamper", "exptamper", "expired", "expired-long", "noexpires", "badexpires", "oldgen", "futgen"]
def sim(n, th, k):
    return dict(sim=n * (k if th else 1), depth=9, emit="EmitEnd", Rnd=True)

@plan("C03")
def c03(run, tier):
    th = tier == "thorough"
    return [job(run, pd("docs", "decide,err", Bad=qs(*BADDOCS), MaxSteps=4 if th else 3, MaxT=4, Attempts=1, Uniform=not th, MaxGen=2, Tags=qs("y"), Ttls={5})),
            job(run, pd("tree", "decide,err", tree=True, Bad=qs("zmssig", "ztsenv"), MaxSteps=4, MaxT=5, MaxV=2, Margin=1, Ttls={5}, Tags=qs("y"), MaxGen=2, Attempts=1, Uniform=True, shards=2)),
            job(run, pd("docs-sim", "decide,err", Bad=qs(*BADDOCS), ND=2, Attempts=2, Uniform=True, MaxGen=3, MaxV=3, MaxT=9, MaxSteps=7, Ttls={3, 6}, **sim(80, th, 20)))]

@plan("C04")
def c04(run, tier):
    th = tier == "thorough"
    return [job(run, pd("expiry", "decide,instant", Bad=qs("neterr", "expired"), MaxSteps=5 if th else 4, MaxT=6, MaxV=2, Margin=1, Ttls={1, 2, 4}, Uniform=True)),
            job(run, pd("expiry-margin", "decide,instant", Bad=qs("500"), MaxSteps=5 if th else 4, MaxT=6, MaxV=2, Margin=0, Ttls={1, 3}, Uniform=True)),
            job(run, pd("tree", "decide,instant", tree=True, Bad=qs("expired"), MaxSteps=5 if th else 4, MaxT=6, MaxV=3, Margin=1, Ttls={1, 3}, Tags=qs("y"), Attempts=1, Uniform=True, shards=2)),
            job(run, pd("expiry-sim", "decide,instant", Bad=qs("neterr", "expired", "garbage"), ND=2, Attempts=2, MaxV=4, MaxT=12, MaxSteps=9, Ttls={1, 2, 3, 5}, Uniform=True, **sim(150, th, 20)))]

@plan("C06")
def c06(run, tier):
    th = tier == "thorough"
    B = qs("neterr", "500", "garbage", "zmssig")
    return [job(run, pd("fetch", "decide,err,req", Bad=B, MaxSteps=4, MaxT=6, MaxV=2, Margin=1, Ttls={1, 2, 4}, Attempts=1)),
            job(run, pd("fetch2", "decide,err,req", Bad=qs("neterr", "500"), MaxSteps=4 if th else 3, MaxT=6, MaxV=2, Margin=2, Ttls={1, 4}, Attempts=2)),
            job(run, pd("tree", "decide,err,req", tree=True, Bad=qs("neterr"), MaxSteps=5 if th else 4, MaxT=6, MaxV=3, Margin=1, Ttls={2}, Tags=qs("y"), Attempts=1, Uniform=True, shards=2)),
            job(run, pd("fetch-sim", "decide,err,req", Bad=B, ND=2, Attempts=3, MaxV=4, MaxT=12, MaxSteps=9, Ttls={1, 2, 4, 7}, Margin=2, Uniform=True, Cancels=True, **sim(150, th, 20)))]

@plan("C07")
def c07(run, tier):
    th = tier == "thorough"
    def st(name, emit, **kw):
        o = {k: kw.pop(k) for k in ("sim", "depth", "shards") if k in kw}
        tree = kw.pop("tree", False)
        c = dict(ND=1, MaxT=5, MaxV=3, Ttls={1, 2, 3}, Fails=qs("neterr", "500"), MaxSteps=6); c.update(kw)
        return dict(module="PolicyExpiry", name=name, driver="expiry", invariants=["NoneMixed"], properties=[] if "sim" in o else ["Progress"], view=None if tree else "View", action_constraint=emit, constants=c, **o)
    return [job(run, st("one", "EmitTick", MaxSteps=7 if th else 6)), job(run, st("tree", "EmitEnd", tree=True, MaxSteps=7 if th else 6, Fails=qs("neterr"), Ttls={1, 2}, shards=2)),
            job(run, st("two", "EmitTick", ND=2, Ttls={1, 3}, Fails=qs("zmssig"), MaxSteps=6 if th else 5, MaxV=2)),
            job(run, dict(st("init", "EmitTick", ND=2, Ttls={1, 3}, Fails=qs("zmssig"), MaxSteps=6 if th else 5, MaxV=2), env={"VP_VIA": "init"})),
            job(run, dict(st("init-sim", "EmitEnd", ND=2, MaxT=14, MaxV=6, Fails=qs("neterr", "garbage"), MaxSteps=20, sim=500 if th else 40, depth=22), env={"VP_VIA": "init"})),
            job(run, st("sim", "EmitEnd", ND=2, MaxT=14, MaxV=6, Fails=qs("neterr", "garbage"), MaxSteps=20, sim=2000 if th else 100, depth=22))]

def stress(run, stage, module, n, race=False):
    """Histories recorded from real concurrent executions, each validated by a trace specification."""
    name = stage + ("-race" if race else "")
    def j():
        for i in range(n):
            recs = run.drive(stage, None, "%s-%d" % (name, i), env={"VERIF_SEED": str(run.seed * 1000 + i)}, race=race)
            evs = [{k: v for k, v in r.items() if k != "t"} for r in recs if r.get("t") == "ev"]
            if run.violations: return
            run.validate(module, evs, "%s-trace-%d" % (name, i))
    j.__name__ = name
    return j

@plan("C05")
def c05(run, tier):
    th = tier == "thorough"
    def st(name, emit, **kw):
        o = {k: kw.pop(k) for k in ("sim", "depth", "shards") if k in kw}
        tree = kw.pop("tree", False)
        c = dict(ND=2, NChk=1, MaxV=2, MaxSteps=8, Kinds=qs("ok", "bad", "cancel")); c.update(kw)
        return dict(module="PolicySnapshot", name=name, driver="snapshot", invariants=["SeenInstalled"], properties=[] if "sim" in o else ["FailNoEffect"], view=None if tree else "View", action_constraint=emit, constants=c, **o)
    return [job(run, st("tree", "EmitEnd", tree=True, MaxSteps=8 if th else 7, MaxV=3, shards=2)), job(run, st("interleave", "EmitAll", MaxSteps=9 if th else 8, MaxV=2)),
            job(run, st("interleave-sim", "EmitEnd", ND=3, NChk=2, MaxV=5, MaxSteps=24, sim=3000 if th else 150, depth=26)),
            job(run, pd("failed", "decide,cache", Bad=qs("neterr"), MaxSteps=4, MaxT=5, Cancels=True, ND=2, MaxV=1, Tags=qs("y"), Ttls={2, 5}, Uniform=True)),
            job(run, interrupt(3, 3, 40 if th else 30, 1)), job(run, interrupt(2, 1, 16, 2)),
            stress(run, "snapstress", "SnapshotTrace", 12 if th else 2)] + ([stress(run, "snapstress", "SnapshotTrace", 6, True)] if th else [])

def interrupt(nd, np, nk, nu):
    return dict(module="Interrupt", name="interrupt-%d" % nu, driver="interrupt", spec="Spec", invariants=["Uniform", "EmitEnd"], properties=["AllOrNothing", "Ends"], dedup=True,
                constants=dict(MaxD=nd, MaxP=np, MaxK=nk, MaxU=nu))

# ---------------------------------------------------------------- the authorizer
def au(name, cmp, emit="EmitReq", **kw):
    o = {k: kw.pop(k) for k in ("sim", "depth", "max_cases", "workers") if k in kw}
    c = dict(Uni=q("small"), TTL=2, MaxT=5, MaxGen=2, MaxSteps=4, PolicyOn=True, Bind=True, Translate=False, Prefix=q(""), Pick=0)
    c.update(kw)
    return dict(module="Authorizer", name=name, driver="authorizer", invariants=["CacheBounded", "EmptyNeverCached", "BoundCert", "ForgedNever"],
                view="View", constraint="Lively", action_constraint=emit, constants=c, env={"VP_CMP": cmp}, **o)

def ausim(n, th, k, **kw):
    return dict(sim=n * (k if th else 1), depth=26, MaxSteps=24, MaxT=12, Uni=q("full"), Pick=4, emit="EmitEnd", **kw)

@plan("C13")
def c13(run, tier):
    th = tier == "thorough"
    return [job(run, au("cache", "accept,reject", MaxSteps=5 if th else 4)),
            job(run, au("hit", "accept,reject,prin", emit="EmitEnd", Uni=q("hit"), MaxSteps=8 if th else 7, MaxT=4)),
            job(run, au("hit3", "accept,reject,prin", emit="EmitEnd", Uni=q("hit"), TTL=3, MaxGen=1, MaxSteps=9 if th else 8, MaxT=6)),
            job(run, au("cache-sim", "accept,reject", **ausim(100, th, 20, TTL=3))),
            job(run, au("cache-tr", "accept,reject", **ausim(50, th, 20, Translate=True, Prefix=q("p:"))))]

def cacheconc(run, n):
    """The universes of CacheKeys, asked by concurrent callers."""
    return job(run, dict(module="CacheKeys", name="concurrent", driver="cachekeys", init="Init", next="Next", invariants=["Out"], env={"VP_CONC": "1"},
                         constants=dict(Delims=qs(":", "|", ""), Vals=qs("a", "b", "A", ":", "x"), MaxL=4, NRandom=n, Binds="{TRUE, FALSE}")))
KEYDELIMS = qs(*":|/,; .=&#%@-_", "", "%3A", "%253A", "::", "%", "%=")
@plan("C12")
def c12(run, tier):
    th = tier == "thorough"
    return [job(run, dict(module="CacheKeys", name="keys", driver="cachekeys", init="Init", next="Next", invariants=["Transparent", "Out"], workers=4,
                          constants=dict(Delims=KEYDELIMS, Vals=qs("a", "b", "A", "%3A", ":", "x"), MaxL=6 if th else 5, NRandom=30 if th else 5, Binds="{TRUE, FALSE}"))),
            cacheconc(run, 40 if th else 2), job(run, dict(module="CacheConc", name="cacheconc-model", spec="Spec", invariants=["Own", "CacheTrue"], properties=["Answered"], constants=dict(Callers=qs("c1", "c2", "c3") if th else qs("c1", "c2"), Reqs="{1, 2, 3}", Ok="{1, 2}", Shared=False, N=2))),
            job(run, au("seq", "accept,prin", **ausim(100, th, 20, TTL=4))),
            job(run, au("seq-tr", "accept,prin", **ausim(60, th, 20, TTL=4, Translate=True)))]

@plan("C14")
def c14(run, tier):
    th = tier == "thorough"
    return [job(run, au("prin", "prin", MaxSteps=5 if th else 4)),
            job(run, au("prin-sim", "prin", **ausim(100, th, 20, TTL=3))),
            job(run, au("prin-nopolicy", "prin", **ausim(60, th, 20, TTL=3, PolicyOn=False)))]

@plan("C15")
def c15(run, tier):
    return [job(run, dict(module="HttpCreds", name="http", driver="http", init="Init", next="Next", invariants=["OnlyEnabled", "WrongHeader", "AnySuffices", "Out"], workers=1, constants=dict(Binds="{TRUE, FALSE}")))]

@plan("C16")
def c16(run, tier):
    th = tier == "thorough"
    return [job(run, au("empty", "accept,reject", Uni=q("empty"), MaxSteps=4 if th else 3, MaxGen=1, MaxT=3)),
            job(run, au("nopolicy", "accept,reject", Uni=q("empty"), MaxSteps=4 if th else 3, MaxT=3, PolicyOn=False)),
            job(run, au("full-sim", "accept,reject", **ausim(80, th, 20, TTL=3, Translate=True, Prefix=q("p:")))),
            job(run, au("prefix-sim", "accept,reject", **ausim(60, th, 20, TTL=3, Prefix=q("/v1"), Bind=False))),
            job(run, au("nopolicy-sim", "accept,reject", **ausim(60, th, 20, TTL=3, PolicyOn=False, Translate=True)))]

@plan("C26")
def c26(run, tier):
    th = tier == "thorough"
    return [job(run, dict(module="ReportCases", name="report", driver="report", invariants=["ReportDecides", "NoEmptyRole", "OutR"], constants=dict(Delims=DELIMS, NRandom=20000 if th else 1500, Pairs=True, Bigs=0))),
            job(run, dict(module="ReportCases", name="report-big", driver="report", invariants=["NoEmptyRole", "OutR"], constants=dict(Delims="{}", NRandom=0, Pairs=False, Bigs=70 if th else 7))),
            job(run, pd("cache", "cache", Bad=qs("neterr", "zmssig"), MaxSteps=5 if th else 4, MaxT=6, MaxV=2, Ttls={1, 2, 4}, Uniform=True, Tags=qs("y"))),
            job(run, pd("cache-sim", "cache", Bad=qs("neterr", "garbage", "zmssig"), ND=2, Attempts=2, MaxV=4, MaxT=12, MaxSteps=9, Ttls={1, 2, 4, 7}, Margin=2, Uniform=True, Cancels=True, **sim(100, th, 20)))]

def roletok(name, cmp, n):
    return dict(module="RoleToken", name=name, driver="roletok", invariants=["Law1", "Law2", "Out"], constants=dict(NRandom=n), env={"VP_CMP": cmp})

def rotation(kind, n, **kw):
    """One processor while keys rotate and tokens expire."""
    o = {k: kw.pop(k) for k in ("sim", "depth", "shards") if k in kw}
    c = dict(Trusted=qs("a") if kind == "role" else qs("a", "b"), MaxSteps=n, MaxT=1, Exps={1, 99}, Rnd="sim" in o); c.update(kw)
    return dict(module="Rotation", name="rotation-" + kind + ("-sim" if "sim" in o else ""), driver="rotation", invariants=["Dead", "ByInstalled", "AtMostOne"], action_constraint="EmitEnd", constants=c, env={"VP_KIND": kind}, **o)

@plan("C08")
def c08(run, tier):
    th = tier == "thorough"
    return [job(run, roletok("roletok", "accept", 30000 if th else 1000)), job(run, rotation("role", 4 if th else 3, shards=8 if th else 4)), job(run, rotation("role", 12, sim=6000 if th else 300, depth=14, MaxT=4, Exps={1, 3, 99}))]

def access(fam, n):
    return dict(module="AccessToken", name="access-" + fam + ("-rnd" if n else ""), driver="access", invariants=["NeedsKey", "BindLaw", "CertIrrelevant", "NeverInstead", "Out"], constants=dict(Fam=q(fam), NRandom=n))
@plan("C09")
def c09(run, tier):
    th = tier == "thorough"
    return [job(run, access("C09", 0)), job(run, access("rnd", 60000 if th else 1500)), job(run, rotation("access", 4 if th else 3, shards=8 if th else 4)), job(run, rotation("access", 12, sim=6000 if th else 300, depth=14, MaxT=4, Exps={1, 3, 99}))]
@plan("C10")
def c10(run, tier):
    return [job(run, access("C10", 0)), job(run, access("rnd", 60000 if tier == "thorough" else 2500))]
@plan("C11")
def c11(run, tier):
    return [job(run, access("C11", 0)), job(run, access("rnd", 60000 if tier == "thorough" else 1500))]

def trans(fam, n, cmp=""):
    return dict(module="Translator", name="translate-" + fam, driver="translator", invariants=["Laws", "Out"], constants=dict(Fam=q(fam), NRandom=n), env={"VP_CMP": cmp})
@plan("C17")
def c17(run, tier):
    th = tier == "thorough"
    return [job(run, trans("pairs", 0)), job(run, trans("rnd", 40000 if th else 1500, "e2e")), job(run, trans("big", 60 if th else 25))]

def pk(name, cmp, emit="EmitAll", **kw):
    o = {k: kw.pop(k) for k in ("sim", "depth", "max_cases", "workers", "shards") if k in kw}
    tree = kw.pop("tree", False)
    if tree: emit = "EmitEnd"
    c = dict(Sets="{1, 2, 4}", Bad=qs("neterr"), Tags="{FALSE}", Life=2, MaxT=3, MaxSteps=3, Both=True, Rnd="sim" in o); c.update(kw)
    return dict(module="Pubkey", name=name, driver="pubkey", invariants=["TagInstalled"], properties=[] if "sim" in o else ["Fresh", "FailKeeps"], view=None if tree else "View", action_constraint=emit, constants=c, env={"VP_CMP": cmp}, **o)
PKBAD = qs("neterr", "500", "404", "202", "301", "garbage", "empty", "array", "string", "cut", "trunc", "badb64", "badpem", "badlast", "nullkey", "304x")
@plan("C18")
def c18(run, tier):
    th = tier == "thorough"
    return [job(run, pk("keys", "inst", Bad=qs("neterr", "badlast"), MaxT=0, MaxSteps=3 if th else 2)),
            job(run, pk("faults", "inst", Bad=PKBAD, Tags="{FALSE, TRUE}" if th else "{TRUE}", MaxT=1, MaxSteps=3, Both=False, Sets="{1, 4}")),
            job(run, pk("sim", "inst", emit="EmitEnd", Bad=PKBAD, Tags="{FALSE, TRUE}", Sets="{1, 2, 3, 4, 5, 6, 7}", MaxT=6, MaxSteps=9, sim=20000 if th else 600, depth=10)),
            job(run, pk("tree", "inst", tree=True, Bad=qs("neterr", "badlast") if th else qs("badlast"), Tags="{TRUE}", Sets="{1, 4}", MaxT=1, MaxSteps=5 if th else 4, Both=False, shards=2)),
            stress(run, "pkstress", "PubkeyTrace", 12 if th else 3)] + ([stress(run, "pkstress", "PubkeyTrace", 4, True)] if th else [])
@plan("C19")
def c19(run, tier):
    th = tier == "thorough"
    return [job(run, pk("etag", "inm", Bad=qs("neterr", "badlast") if th else qs("badlast"), Tags="{FALSE, TRUE}", Sets="{1, 4}", MaxT=3, MaxSteps=5 if th else 4, Both=False)),
            job(run, pk("tree", "inm", tree=True, Bad=qs("404"), Tags="{TRUE}", Sets="{1, 4}", MaxT=3, MaxSteps=5 if th else 4, Both=False, shards=2)),
            job(run, pk("life", "inm", Bad=qs("404"), Tags="{TRUE}", Sets="{1}", MaxT=4, Life=2, MaxSteps=8 if th else 7, Both=False)),
            job(run, pk("faults", "inm", Bad=PKBAD, Tags="{FALSE, TRUE}", MaxT=2, MaxSteps=3, Both=False, Sets="{1, 4}" if th else "{1}")),
            job(run, pk("sim", "inm", emit="EmitEnd", Bad=PKBAD, Tags="{FALSE, TRUE}", Sets="{1, 2, 3, 4, 5, 6, 7}", MaxT=6, Life=3, MaxSteps=10, sim=20000 if th else 600, depth=11))]

def jk(name, emit="EmitAll", **kw):
    o = {k: kw.pop(k) for k in ("sim", "depth", "max_cases", "workers", "shards") if k in kw}
    tree = kw.pop("tree", False)
    if tree: emit = "EmitEnd"
    c = dict(Cfgs="{1}", Bad=qs("neterr", "500"), SetIds="{1, 2, 3, 4}", MaxSteps=2, Rnd="sim" in o); c.update(kw)
    return dict(module="Jwk", name=name, driver="jwk", invariants=["UnconfiguredEmpty"], properties=[] if "sim" in o else ["Isolated"], view=None if tree else "View", action_constraint=emit, constants=c, **o)
JKBAD = qs("neterr", "500", "404", "403", "202", "204", "304", "301", "429", "garbage", "empty", "cut", "trunc", "badkey", "badlast", "keysnum", "html500")
JKCFGS = "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}"
@plan("C20")
def c20(run, tier):
    th = tier == "thorough"
    return [job(run, jk("sets", Bad=qs("neterr", "badkey"), MaxSteps=3 if th else 2, SetIds="{1, 2, 3}" if th else "{1, 8}")),
            job(run, jk("cfgs", Cfgs="{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}", Bad=qs("500"), SetIds="{2, 3}", MaxSteps=2 if th else 1)), job(run, jk("single", Cfgs="{2, 3}", Bad=qs("500"), SetIds="{1, 2, 3, 4, 5, 6, 8, 9, 10}", MaxSteps=2)),
            job(run, jk("sim", emit="EmitEnd", Cfgs=JKCFGS, Bad=JKBAD, SetIds="{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}", MaxSteps=6, sim=20000 if th else 1200, depth=7)),
            job(run, jk("tree", tree=True, Cfgs="{3}", Bad=qs("500"), SetIds="{2, 9}", MaxSteps=5 if th else 4)),
            stress(run, "jwkstress", "PubkeyTrace", 12 if th else 3)] + ([stress(run, "jwkstress", "PubkeyTrace", 4, True)] if th else [])

def upd(run, name, **kw):
    """Scripts from the model of the loop; the real updaters' histories are validated by UpdaterTrace."""
    o = {k: kw.pop(k) for k in ("sim", "depth", "max_cases", "workers") if k in kw}
    c = dict(P=2, Rd=1, Lats="{0, 1, 3}", MaxAtt=3, MaxT=8, Variant=q("pubkey"), Rnd="sim" in o, Lag=0, Rare=6); c.update(kw)
    def j():
        r = run.tlc(dict(module="Updater", name=name, invariants=["NotOverdue", "Reported", "NoSpin", "Room", "AllReported", "StopsInTime"], view="View", action_constraint="EmitDone", constants=c, dedup=True, **o), name)
        recs = run.drive("updater", r["cases"], name)
        evs = [{k: v for k, v in x.items() if k != "t"} for x in recs if x.get("t") == "ev"]
        if not run.violations: run.validate("UpdaterTrace", evs, name + "-trace")
    j.__name__ = name
    return j

@plan("C21")
def c21(run, tier):
    th = tier == "thorough"
    jobs = [upd(run, "upd", MaxAtt=4 if th else 3, MaxT=10 if th else 8), upd(run, "upd-jwk", Variant=q("jwk"), MaxAtt=4 if th else 3, MaxT=10 if th else 8),
            upd(run, "upd-long", P=6, Rd=1, Lats="{0, 1}", MaxAtt=5 if th else 4, MaxT=18 if th else 15),
            upd(run, "upd-slow", P=2, Rd=3, Lats="{0, 2}", MaxAtt=3, MaxT=12),
            upd(run, "upd-jwk-slow", P=2, Rd=3, Lats="{0, 2}", MaxAtt=3, MaxT=12, Variant=q("jwk"))]
    for v in ("pubkey", "jwk"):
        jobs.append(upd(run, "upd-sim-" + v, Variant=q(v), P=3, Rd=1, Lats="{0, 1, 2, 4, 7}", MaxAtt=9, MaxT=50, sim=3000 if th else 250, depth=130))
        jobs.append(upd(run, "upd-lag-" + v, Variant=q(v), P=3, Rd=1, Lats="{0, 1}", MaxAtt=60, MaxT=90, Lag=40, Rare=120, sim=600 if th else 60, depth=500))
        jobs.append(upd(run, "upd-down-" + v, Variant=q(v), P=3, Rd=1, Lats="{0}", MaxAtt=180, MaxT=190, Lag=70, Rare=700, sim=100 if th else 12, depth=1500))
    return jobs

def initjob(run, name, **kw):
    o = {k: kw.pop(k) for k in ("sim", "depth", "max_cases", "workers") if k in kw}
    c = dict(Domains=qs("d1"), Urls=qs("j1"), Rnd="sim" in o); c.update(kw)
    def j():
        r = run.tlc(dict(module="InitCases", name=name, spec=None if "sim" in o else "Spec", invariants=["AskOK", "PolicyAfterKeys", "ResultOK"], properties=[] if "sim" in o else ["Returns"], view="View", action_constraint="EmitRet", constants=c, dedup=True, **o), name)
        recs = run.drive("init", r["cases"], name)
        evs = [{k: v for k, v in x.items() if k != "t"} for x in recs if x.get("t") == "ev"]
        if not run.violations: run.validate("InitTrace", evs, name + "-trace")
    j.__name__ = name
    return j

@plan("C22")
def c22(run, tier):
    th = tier == "thorough"
    return [initjob(run, "init", Domains=qs("d1"), Urls=qs("j1") if th else "{}"),
            initjob(run, "init-sim", Domains=qs("d1", "d2"), sim=20000 if th else 600, depth=40)]

@plan("C23")
def c23(run, tier):
    th = tier == "thorough"
    return [job(run, dict(module="RoleCert", name="rolecert", driver="rolecert", invariants=["NoRoleNoAccess", "DenyBlocksDomain", "OrderIrrelevant", "Out"], constants=dict(NRandom=40000 if th else 1500, Full=th)))]

def hostile(fam, n, steps=8, **kw):
    s = dict(sim=n, depth=steps + 2) if fam == "seq" else {}
    return dict(module="Hostile", name="hostile-" + fam, driver="hostile", invariants=["Decided"], action_constraint="EmitEnd", dedup=True, shards=kw.get("shards", 1), constants=dict(Fam=q(fam), NRandom=n, MaxSteps=steps), **s)

@plan("C24")
def c24(run, tier):
    th = tier == "thorough"
    return [job(run, hostile("docs", 0, shards=4)), job(run, hostile("calls", 0, shards=2)), job(run, config("host", 20000 if th else 300)), job(run, hostile("seq", 12000 if th else 400, 14, shards=2 if not th else 4))]

def config(fam, n=0, mlen=3, **kw):
    return dict(module="Config", name="config-" + fam, driver="config", invariants=["Laws", "Out"], dedup=True, constants=dict(Fam=q(fam), NRandom=n, MaxLen=mlen), **kw)

@plan("C27")
def c27(run, tier):
    th = tier == "thorough"
    return [job(run, config("durs", 0, 3 if not th else 4, shards=2)), job(run, config("durrnd", 100000 if th else 2000, 4)), job(run, config("addr")), job(run, config("sched", shards=2)),
            job(run, config("cache")), job(run, config("defs")), job(run, trans("rules", 0, "valid")), job(run, trans("small", 0, "valid"))]

def retry(name, steps, **kw):
    o = {k: kw.pop(k) for k in ("sim", "depth") if k in kw}
    c = dict(Units={250, 1000}, Maxes={0, 2, 3, 4, 5}, Limits={0, 1000, 2900, 6200, 60000}, Lats={0, 700}, MaxSteps=steps, Rnd="sim" in o); c.update(kw)
    return dict(module="RetryTransport", name="retry-" + name, driver="retry", invariants=["Bounded", "OnlyRetryable", "Decides", "Waits", "InLimit", "OneOpen"], action_constraint="EmitDone", dedup=True, constants=c, **o)

@plan("C25")
def c25(run, tier):
    th = tier == "thorough"
    return [job(run, retry("all", 3, Lats={0, 700} if not th else {0, 10, 700})), job(run, retry("long", 12, sim=60000 if th else 3000, depth=26, Units={250, 1000, 4000}, Maxes={5, 8, 11}, Limits={1000, 6200, 61000, 901000}))]

def logging(name, n, **kw):
    o = {k: kw.pop(k) for k in ("sim", "depth") if k in kw}
    return dict(module="Logging", name="logging-" + name, driver="logging", invariants=["NoSignature", "OnlyValidSeen", "EmitEnd"], dedup=True, shards=2, constants=dict(Rnd="sim" in o, MaxReq=n), **o)

@plan("C28")
def c28(run, tier):
    th = tier == "thorough"
    return [job(run, logging("twice", 2)), job(run, logging("seq", 9, sim=60000 if th else 1500, depth=60))]

def release(name, n, emit=True, **kw):
    o = {k: kw.pop(k) for k in ("sim", "depth") if k in kw}
    return dict(module="Release", name="release-" + name, driver="release", spec=None if "sim" in o else "Spec", invariants=["Released", "EmitEnd"], properties=[] if "sim" in o else ["Ends"], dedup=True, shards=2, constants=dict(Rnd="sim" in o, MaxUpd=n), **o)

@plan("C29")
def c29(run, tier):
    th = tier == "thorough"
    return [job(run, release("one", 1)), job(run, release("seq", 6, sim=40000 if th else 600, depth=40))]

def activity(name, n, lasts=False, **kw):
    o = {k: kw.pop(k) for k in ("sim", "depth") if k in kw}
    return dict(module="Activity", name="activity-" + name, driver="activity", spec=None if "sim" in o else "Spec", invariants=["Bounded", "OnlyCurrent", "EmitEnd"], properties=[] if "sim" in o else ["Returns", "EndsAtAll"], dedup=True, shards=4, constants=dict(Rnd="sim" in o, MaxOps=n, Lasts=lasts, Doms='{"dom"}'), **o)

@plan("C30")
def c30(run, tier):
    th = tier == "thorough"
    return [job(run, activity("one", 1)), job(run, activity("end", 0, lasts=True)), job(run, activity("seq", 8, lasts=True, sim=2000 if th else 200, depth=120))]

def ownership(name, n, **kw):
    return dict(module="Ownership", name="ownership-" + name, driver="ownership", spec=None if "sim" in kw else "Spec", invariants=["Own", "Intact", "Emit"], dedup=True, constants=dict(Rnd="sim" in kw, MaxOps=n), **kw)

@plan("C31")
def c31(run, tier):
    th = tier == "thorough"
    return [job(run, ownership("all", 3)), job(run, ownership("seq", 14, sim=30000 if th else 1500, depth=20))]
