"""What each check runs: build configurations, and per property the explorations of each tier."""

FEW = {"ext": ["few"], "serdex": ["few"], "dieselx": ["few"]}
CONFIGS = {
    # optimized, default features, every capacity
    "rel": dict(profile="release", features={"mc": ["allcaps"]}),
    # optimized, a selection of capacities
    "relsub": dict(profile="release", features=FEW),
    # debug assertions and overflow checks, logging compiled in
    "chk": dict(profile="chk", features={"mc": ["logs"], "ext": ["logs"], "serdex": ["logs"], "dieselx": ["logs"]}),
    "chkall": dict(profile="chk", features={"mc": ["logs", "allcaps"], "ext": ["logs"]}),
    "nostd": dict(profile="release", no_default=True, features=FEW),
    "dev": dict(profile="dev", features=FEW),
    "small": dict(profile="small", features=FEW),
    "serde": dict(profile="release", features={"mc": ["serde"]}),
    "logs": dict(profile="release", features={"mc": ["logs"], "ext": ["logs", "few"]}),
    "chkfew": dict(profile="chk", features={"mc": ["logs"], "ext": ["logs", "few"], "serdex": ["logs", "few"], "dieselx": ["logs", "few"]}),
}
LOG = {"MC_LOG": "1"}

NOTES = {
    "direct": "every transition is executed on the real code and its result compared with the model, so each explored trace is validated against the implementation",
    "model": "histories found in the state graph are replayed from the start on a fresh object without snapshots",
}
ASSUMPTIONS = [
    "the oracle is std's String/str of the installed toolchain",
    "x86-64 Linux, rustc as installed; capacities, contents and arguments as listed under runs/bounds",
]


def mc(cfg, prop, *spaces, **kw):
    return dict(cfg=cfg, pkg="mc", bin="mc", args=[prop] + list(spaces), **kw)


def ext(cfg, bin, *args, **kw):
    return dict(cfg=cfg, pkg="ext", bin=bin, args=list(args), **kw)


def core(prop, big="large:some:large", small=8, graph=4, uni=True, tuples=None, extra=None, extra_t=None, expect=(), all_sparse=True, chk_small=6):
    u = ["unicode:lite"] if uni else []
    ut = ["unicode"] if uni else []
    tq = ["tuples:2"] if tuples else []
    tt = ["tuples:3"] if tuples else []
    return {
        "quick": [
            mc("rel", prop, "graph:1-%d" % graph, "small:1-%d:5" % small, *(["large:all:sparse"] if all_sparse else []), *([big] if big else []), "bump:quick" if prop == "C01" else "bump:all", *u, *(["tuples:3"] if tuples == 3 else tq)),
            mc("chk", prop, "graph:1-3", "small:1-%d:4" % chk_small, "large:few:sparse", "bump:quick", env=LOG),
        ]
        + (extra or []),
        "thorough": [
            mc("rel", prop, "graph:1-6:400000", "small:1-11:6", "large:all:large", "bump:all", *ut, *tt),
            mc("chkall", prop, "graph:1-4", "small:1-8:5", "large:all:sparse", "large:some:large", "bump:all", *ut, env=LOG),
            mc("relsub", prop, "graph:1-4", "small:1-8:5", "large:few:large"),
        ]
        + (extra_t or extra or []),
        "expect": list(expect),
    }


def ctors(prop, extra=None, extra_t=None, expect=()):
    return {
        "quick": [
            mc("rel", prop, "ctor:1-255:12", "bump:all", "unicode"),
            mc("chk", prop, "ctor:1-255:8", "bump:quick", env=LOG),
        ]
        + (extra or []),
        "thorough": [
            mc("rel", prop, "ctor:1-255:255", "bump:all", "unicode"),
            mc("chkall", prop, "ctor:1-255:64", "bump:all", "unicode", env=LOG),
        ]
        + (extra_t or extra or []),
        "expect": list(expect),
    }


def outcomes(*names, cls=(0, 1)):
    return [(n, c) for n in names for c in cls]


APP = ["try_push", "try_push_str", "write_str", "write_char", "write!", "try_insert", "try_insert_str"]

# bodies explored once per concrete type; useful for every property about all operations
VALID = ["inf", "native", "index", "drain", "adv"]
BODIES = ["drain", "native", "cmp", "index", "fmtx", "inf", "adv", "errors"]


def miri(pkg, bin, *args, **kw):
    kw.setdefault("procs", 8)
    return dict(cfg="miri", cmd="miri", pkg=pkg, bin=bin, args=list(args), **kw)


def bodies(cfg, prop, *args, only=BODIES, pkg="ext", **kw):
    return [dict(cfg=cfg, pkg=pkg, bin=b, args=[prop] + list(args), **kw) for b in only]


def with_bodies(base, prop, only=BODIES, cfgs=("rel", "chkfew"), deep=True):
    """Add the per-type explorations to both tiers."""
    base["quick"] += [j for c in cfgs for j in bodies(c, prop, only=only)]
    base["thorough"] += [j for c in ("rel", "chk") for j in bodies(c, prop, *(["deep"] if deep else []), only=only)]
    return base


def each(prop, only, cfgs=("rel", "chkfew"), **kw):
    return dict(quick=[j for c in cfgs for j in bodies(c, prop, only=only)],
                thorough=[j for c in ("rel", "chk", "nostd") for j in bodies(c, prop, "deep", only=only)], **kw)


def integrations(cfg, prop, *args, which=("serdex", "dieselx"), **kw):
    """The explorations of the serde and diesel traits."""
    return [dict(cfg=cfg, pkg=w, bin=w, args=[prop] + list(args), **kw) for w in which]


def everything(prop, env=None, uni=(), **kw):
    """All operations, constructors and traits: for the properties about every call."""
    return {
        "quick": [
            mc("rel", prop, "graph:1-4", "small:1-7:5", "large:all:sparse", "large:few:large", *uni, "tuples:2", "bump:all", "ctor:1-255:6"),
            mc("chk", prop, "graph:1-3", "small:1-6:4", "large:few:sparse", "bump:quick", "ctor:1-255:6", env=env or {}),
        ]
        + [j for c in ("rel", "chkfew") for j in bodies(c, prop, env=(env or {}) if c == "chkfew" else {})],
        "thorough": [
            mc("rel", prop, "graph:1-5:400000", "small:1-10:6", "large:all:large", "unicode", "tuples:3", "bump:all", "ctor:1-255:255"),
            mc("chkall", prop, "graph:1-4", "small:1-8:5", "large:all:sparse", "large:some:large", "bump:all", "unicode", "ctor:1-255:64", env=env or {}),
        ]
        + [j for c in ("rel", "chk") for j in bodies(c, prop, "deep", env=(env or {}) if c == "chk" else {})],
        **kw,
    }


def builds(cfgs, tier):
    """The same exploration in several builds, for comparison."""
    spaces = ["graph:1-3", "small:1-6:4", "large:few:sparse", "bump:quick", "ctor:1-255:6"]
    if tier == "thorough":
        spaces = ["graph:1-4", "small:1-8:5", "large:some:large", "ctor:1-255:64", "unicode:lite"]
    out = [dict(mc(c, "C21", *spaces, env=e), group="mc") for c, e in cfgs if c not in ("serdex", "dieselx")]
    for b in BODIES:
        for c, e in cfgs:
            pkg, cfg = (c, "relsub") if c in ("serdex", "dieselx") else ("ext", c)
            if c == "serde":
                continue
            out += bodies(cfg, "C21", *(["deep"] if tier == "thorough" else []), only=[b], pkg=pkg, env=e, group=b, skip_ops=["std error"])
    # and the integrations' own traits
    for w in ("serdex", "dieselx"):
        for c, e in [("relsub", {}), ("chkfew", LOG)] + ([("small", {}), ("dev", {})] if tier == "thorough" else []):
            out += integrations(c, "C21", *(["deep"] if tier == "thorough" else []), which=[w], env=e, group=w)
    return out


JOBS = {
    "C01": core("C01", big="large:some:sparse", small=5, uni=False, all_sparse=False, chk_small=4),
    "C02": with_bodies(core("C02", expect=outcomes(*APP) + [("try_insert", 2), ("try_insert_str", 2)]), "C02", ['native']),
    "C03": with_bodies(core("C03", expect=outcomes("insert_str_truncate") + [("insert_str_truncate", 2), ("+", 0), ("extend(strs)", 0), ("push_str_truncate", 0)]), "C03", ['native', 'inf']),
    "C04": with_bodies(core("C04", big="large:few:large", expect=[("replace_range", 0), ("replace_range", 1), ("replace_range", 2)]), "C04", ['native']),
    "C05": core("C05", tuples=3, expect=[("pop", 0), ("pop", 3), ("remove", 0), ("remove", 1), ("remove", 2), ("truncate", 0), ("truncate", 2), ("trim", 0), ("retain", 0), ("clear", 0)]),
    "C06": with_bodies(core("C06", tuples=2, expect=[("drain", 0), ("drain", 1), ("drain", 2), ("split_off", 0), ("split_off", 1), ("split_off", 2)]), "C06", ['native', 'drain']),
    "C07": core("C07", big=None, small=7, uni=False, expect=outcomes("try_push", "try_insert", "replace_range", "drain", "split_off", "remove")),
    "C08": with_bodies(ctors("C08", expect=outcomes("try_from_str", "try_from_chars", "try_from_iterator", "parse")), "C08", ['native', 'inf']),
    "C09": with_bodies(ctors("C09", expect=[("from_str_truncate", 0), ("collect(strs)", 0)]), "C09", ['native', 'inf']),
    "C10": ctors("C10", expect=[("try_from_utf16", 0), ("try_from_utf16", 1), ("try_from_utf16", 2), ("from_utf16_truncate", 0), ("from_utf16_truncate", 2), ("from_utf16_lossy_truncate", 0)]),
    "C11": everything("C11", env=LOG, uni=["unicode:lite"]),
    "C12": everything("C12", env=LOG),
    "C13": {},
    "C14": each("C14", ["cmp"]),
    "C15": each("C15", ["index"]),
    "C16": each("C16", ["fmtx"]),
    "C17": {
        "quick": [mc("rel", "C17", "pair:large", "bump:all", "convert"), mc("chk", "C17", "pair:large", "bump:all", "convert", env=LOG)] + bodies("rel", "C17"),
        "thorough": [mc("rel", "C17", "pair:large:deep", "pair:sparse:deep", "bump:all", "convert"), mc("chk", "C17", "pair:large:deep", "convert", env=LOG)] + bodies("rel", "C17", "deep") + bodies("chk", "C17", "deep"),
    },
    "C18": {
        "quick": [ext("rel", "layout", "C18"), ext("dev", "layout2", "C18")],
        "thorough": [ext("rel", "layout", "C18", "deep"), ext("chk", "layout", "C18", "deep"), ext("dev", "layout2", "C18"), ext("nostd", "layout2", "C18")],
    },
    "C19": {
        "quick": [dict(cfg="rel", pkg="serdex", bin="serdex", args=["C19"]), dict(cfg="chk", pkg="serdex", bin="serdex", args=["C19"])],
        "thorough": [dict(cfg=c, pkg="serdex", bin="serdex", args=["C19", "deep"]) for c in ("rel", "chk")],
    },
    "C20": {
        # memory that was given back does not keep its bytes
        "quick": [dict(cfg="rel", pkg="dieselx", bin="dieselx", args=["C20"], env={"MALLOC_PERTURB_": "165"})],
        "thorough": [dict(cfg=c, pkg="dieselx", bin="dieselx", args=["C20", "deep"]) for c in ("rel", "chk")],
    },
    "C21": {
        "compare": True,
        "quick": builds([("relsub", {}), ("nostd", {}), ("logs", LOG), ("chkfew", {}), ("dev", {}), ("small", {}), ("serde", {}), ("dieselx", {})], "quick"),
        "thorough": builds([("relsub", {}), ("nostd", {}), ("logs", LOG), ("logs", {}), ("chkfew", {}), ("chkfew", LOG), ("small", {}), ("serde", {}), ("serdex", {}), ("dieselx", {})], "thorough"),
    },
    "C22": each("C22", ["adv"]),
    "C23": {
        "quick": bodies("rel", "C23", only=["errors"]) + bodies("nostd", "C23", only=["errors"]) + bodies("chkfew", "C23", only=["errors"]),
        "thorough": bodies("rel", "C23", "deep", only=["errors"]) + bodies("nostd", "C23", "deep", only=["errors"]) + bodies("chk", "C23", "deep", only=["errors"]),
    },
    "C24": {
        "quick": [ext("rel", "steps", "C24", "every"), ext("rel", "steps", "C24", "each"), ext("rel", "nest", "C24"), ext("chk", "nest", "C24"), miri("ext", "race", "C24", procs=1)],
        "thorough": [ext("rel", "steps", "C24", "every", "deep"), ext("rel", "steps", "C24", "each", "deep"), ext("chk", "steps", "C24", "each"), ext("rel", "nest", "C24", "deep"), ext("chk", "nest", "C24", "deep"), miri("ext", "race", "C24", "deep", procs=1)],
    },
}
JOBS["C01"]["quick"] += [mc("rel", "C01", "ctor:1-255:6"), mc("chk", "C01", "ctor:1-255:6", env=LOG)] + bodies("rel", "C01", only=VALID) + integrations("rel", "C01")
JOBS["C01"]["thorough"] += [mc("rel", "C01", "ctor:1-255:64", "unicode")] + [j for c in ("rel", "chk") for j in bodies(c, "C01", "deep", only=VALID, env=LOG if c == "chk" else {}) + integrations(c, "C01", "deep")]
JOBS["C11"]["quick"] += integrations("rel", "C11") + integrations("chk", "C11", which=["serdex"])
JOBS["C11"]["thorough"] += integrations("rel", "C11", "deep") + integrations("chk", "C11", "deep")
JOBS["C12"]["quick"] += integrations("rel", "C12", which=["serdex"])
JOBS["C12"]["thorough"] += integrations("rel", "C12", "deep", which=["serdex"])
JOBS["C17"]["quick"] += integrations("rel", "C17")
JOBS["C17"]["thorough"] += integrations("rel", "C17", "deep")
JOBS["C13"] = everything("C13", env=LOG)
JOBS["C13"]["quick"] += [
    miri("mc", "mc", "C13", "tiny:1,2,256"),
] + [miri("ext", b, "C13", "mini", "keys=2,256") for b in ("drain", "cmp", "fmtx", "inf", "errors")] + [
    miri("ext", "native", "C13", "mini", "keys=2"), miri("ext", "adv", "C13", "mini", "keys=1"), miri("ext", "index", "C13", "mini", "keys=2"),
    miri("serdex", "serdex", "C13", "mini", "keys=2,256"), miri("dieselx", "dieselx", "C13", "mini", "keys=2,256")]
JOBS["C13"]["thorough"] += [
    miri("mc", "mc", "C13", "tiny:1,2,3,4,5,64,128,255,256"),
] + [miri("ext", b, "C13", "mini") for b in BODIES + ["nest"]] + [miri(w, w, "C13", "mini") for w in ("serdex", "dieselx")]
