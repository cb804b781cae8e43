"""Workload generation: scenarios, arrays and calls, all plain JSON data."""

MECH = ["SS", "NS", "RS"]

# class -> module, real name, kind, keys (required first), categories, typical ranges
C = {}


def _c(short, mod, name, kind, keys, cats=None, rng=None):
    C[short] = dict(mod=mod, name=name, kind=kind, keys=keys, cats=cats or {}, rng=rng or {})


_c("AGA16", "abrahamson_gregor_addo_2016", "AbrahamsonGregorAddo2016", "gmm",
   ["mag", "v_s30", "event_type", "dist_rup", "dist_hyp", "depth_hyp", "tectonic_region"],
   {"event_type": ["interface", "intraslab"], "tectonic_region": ["forearc", "backarc", "unknown"]})
_c("CoB14", "coppersmith_bommer_2014", "CoppersmithBommer2014", "gmm",
   ["mag", "v_s30", "event_type", "dist_rup"], {"event_type": ["interface", "intraslab"]})
_c("AS96", "abrahamson_silva_1996", "AbrahamsonSilva1996", "as96",
   ["mag", "dist_rup", "site_cond"], {"site_cond": ["soil", "rock"]})
_c("ASK14", "abrahamson_silva_kamai_2014", "AbrahamsonSilvaKamai2014", "gmm",
   ["dist_rup", "dist_jb", "mag", "v_s30", "dip", "mechanism", "dist_x", "dist_y0", "depth_1_0", "depth_tor",
    "dist_crjb", "width", "region", "vs_source", "is_aftershock", "on_hanging_wall"],
   {"mechanism": MECH, "region": ["global", "california", "china", "italy", "japan", "taiwan"],
    "vs_source": ["measured", "inferred"], "is_aftershock": [True, False], "on_hanging_wall": [True, False]})
_c("AS16", "afshari_stewart_2016", "AfshariStewart2016", "dur",
   ["mag", "dist_rup", "v_s30", "mechanism", "depth_1_0"], {"mechanism": MECH})
_c("ASB14", "akkar_sandikkaya_bommer_2014", "AkkarSandikkayaBommer2014", "gmm",
   ["mag", "v_s30", "mechanism", "dist_jb", "dist_epi", "dist_hyp"], {"mechanism": MECH})
_c("AB06", "atkinson_boore_2006", "AtkinsonBoore2006", "gmm", ["mag", "dist_rup", "v_s30"])
_c("BA19", "bayless_abrahamson_2019", "BaylessAbrahamson2019", "fas",
   ["dist_rup", "mag", "v_s30", "depth_tor", "depth_1_0", "mechanism"], {"mechanism": MECH})
_c("BSSA14", "boore_stewart_seyhan_atkinson_2014", "BooreStewartSeyhanAtkinson2014", "gmm",
   ["mag", "dist_jb", "v_s30", "depth_1_0", "mechanism", "region"],
   {"mechanism": ["U"] + MECH,
    "region": ["global", "california", "china", "italy", "japan", "new_zealand", "taiwan", "turkey"]})
_c("C03", "campbell_2003", "Campbell2003", "gmm", ["mag", "dist_rup"])
_c("CB14", "campbell_bozorgnia_2014", "CampbellBozorgnia2014", "gmm",
   ["dip", "dist_jb", "dist_rup", "dist_x", "mag", "v_s30", "mechanism", "depth_1_0", "depth_2_5", "depth_bor",
    "depth_bot", "depth_hyp", "depth_tor", "width", "region"],
   {"mechanism": MECH, "region": ["global", "california", "japan", "italy", "china"]},
   {"depth_bot": (15, 25), "depth_bor": (12, 20), "depth_tor": (0, 8)})
_c("CY14", "chiou_youngs_2014", "ChiouYoungs2014", "gmm",
   ["dist_rup", "dist_x", "dist_jb", "mag", "v_s30", "dip", "depth_tor", "depth_1_0", "dpp_centered", "mechanism",
    "on_hanging_wall", "region", "vs_source"],
   {"mechanism": ["U"] + MECH, "on_hanging_wall": [True, False],
    "region": ["california", "china", "italy", "japan"], "vs_source": ["measured", "inferred"]})
_c("DBC14", "derras_bard_cotton_2014", "DerrasBardCotton2014", "gmm",
   ["dist_jb", "mag", "v_s30", "depth_hyp", "mechanism"], {"mechanism": MECH})
_c("GA11", "gulerce_abrahamson_2011", "GulerceAbrahamson2011", "vh",
   ["dist_rup", "mag", "v_s30", "pga_ref", "mechanism"], {"mechanism": MECH})
_c("HKR14", "hermkes_kuehn_riggelsen_2014", "HermkesKuehnRiggelsen2014", "gmm",
   ["mag", "v_s30", "mechanism", "depth_hyp", "dist_jb"], {"mechanism": MECH})
_c("I14", "idriss_2014", "Idriss2014", "gmm", ["dist_rup", "mag", "v_s30", "mechanism"], {"mechanism": ["SS", "RS"]})
_c("KS06", "kempton_stewart_2006", "KemptonStewart2006", "dur", ["mag", "dist_rup", "v_s30"])
_c("PZT11", "pezeshk_zandieh_tavakoli_2011", "PezeshkZandiehTavakoli2011", "gmm", ["mag", "dist_rup"])
_c("PR23", "pinilla_ramos_et_al_2023", "PinillaRamosEtAl2023", "pr", ["mag", "dist_rup", "v_s30"])
_c("PR24", "pinilla_ramos_et_al_2024", "PinillaRamosEtAl2024", "pr24",
   ["mag", "dist_rup", "v_s30", "event_type", "region"],
   {"event_type": ["interface", "slab"], "region": ["Japan", "New Zealand", "South America", "Taiwan"]})
_c("TP05", "tavakoli_pezeshk_2005", "TavakoliPezeshk05", "gmm", ["dist_rup", "mag"])

# GA11 and PR24 are lighter; weights keep the heavy multi-branch models frequent
ALL = sorted(C)
REPORTING = ["BSSA14", "CB14", "CY14", "ASK14", "PR24", "AS16", "I14", "HKR14", "BA19", "AGA16", "DBC14"]

RANGE = {
    "mag": (4.6, 7.9), "dist_rup": (1, 190), "dist_jb": (1, 190), "dist_epi": (1, 190), "dist_hyp": (1, 190),
    "dist_x": (-60, 80), "dist_y0": (0, 40), "dist_crjb": (1, 20), "v_s30": (190, 1150), "depth_1_0": (0.01, 0.9),
    "depth_2_5": (0.2, 6), "depth_tor": (0, 15), "depth_bor": (10, 20), "depth_bot": (12, 22),
    "depth_hyp": (3, 18), "dip": (20, 90), "width": (5, 25), "dpp_centered": (-3, 3), "pga_ref": (0.01, 0.9),
}
EDGE = {
    "mag": [3, 3.0, 4, 5.0, 5.5, 6, 6.0, 6.5, 6.75, 7, 7.0, 7.5, 8.0, 8.2, 8.5, 8.6, 9.0, 2.5],
    "dist_rup": [0, 5, 10, 30.0, 50, 70, 80, 100, 130, 150, 200, 250, 301, 1001.0],
    "dist_jb": [0, 5, 10.0, 30, 80, 200, 201.0, 301], "dist_epi": [0, 200, 250], "dist_hyp": [0.1, 100, 201, 250],
    "dist_x": [0, -10.0, 5, 40, -1, -2, -1.0, -2.0, 0.0, -0.0], "dist_y0": [0, 10], "dist_crjb": [0, 5, 15],
    "v_s30": [100, 150, 180, 200, 250, 300, 450, 500, 760, 760.0, 1000, 1130, 1180, 1200, 1500, 1600.0],
    "depth_1_0": [0, 0.1, 2.5], "depth_2_5": [0.5, 1, 3, 3.5, 11.0], "depth_tor": [0, 1, 20, 21], "depth_bor": [10, 15],
    "depth_bot": [15, 15.0], "depth_hyp": [0, 5, 7, 10, 15, 21.0, 41], "dip": [10, 15, 30, 45, 75, 90],
    "width": [5, 10, 18], "dpp_centered": [0, 0.5], "pga_ref": [0.001, 0.1, 12.0],
}
BADCAT = ["XX", "sS", "unknown place", "U", 1]


def rnum(rng, key, cls=None):
    lo, hi = C[cls]["rng"].get(key, RANGE[key]) if cls else RANGE[key]
    v = rng.uniform(lo, hi)
    return round(v, rng.choice([1, 2, 3, 6]))


def base(rng, cls, focus_valid=True):
    """A valid scenario for a class."""
    d = C[cls]
    kw = {}
    for i, k in enumerate(d["keys"]):
        if k in d["cats"]:
            if k in ("mechanism", "event_type", "site_cond") or rng.random() < 0.6:
                kw[k] = rng.choice(d["cats"][k])
            continue
        need = k in ("mag", "v_s30", "dist_rup", "dist_jb", "dist_x", "dip", "pga_ref", "dist_hyp", "dist_epi")
        if need or k in ("dist_y0",) or (cls in ("DBC14", "BA19", "AGA16") and k in ("depth_hyp", "depth_tor")) \
                or rng.random() < 0.5:
            kw[k] = rng.choice(EDGE[k]) if rng.random() < 0.12 else rnum(rng, k, cls)
    if cls == "ASB14":
        n = rng.choice([1, 1, 2, 3])
        keep = rng.sample(["dist_jb", "dist_epi", "dist_hyp"], n)
        for k in ("dist_jb", "dist_epi", "dist_hyp"):
            if k not in keep:
                kw.pop(k, None)
    return kw


def shared(rng, classes):
    """One scenario that serves several classes."""
    kw = {}
    for c in classes:
        for k, v in base(rng, c).items():
            if k in ("region", "event_type") and k in kw:
                continue
            kw.setdefault(k, v)
    return kw


def tweak(rng, kw, cls, big=None):
    """A scenario that differs from kw in one entry."""
    d = C[cls]
    kw = dict(kw)
    keys = list(d["keys"])
    if "v_s30" in keys:
        keys += ["v_s30"]
    keys += ["mag", "mag"]
    k = rng.choice([x for x in keys if x in d["keys"]])
    kind = rng.random()
    if k in d["cats"]:
        opts = [o for o in d["cats"][k] if o != kw.get(k)]
        if True in d["cats"][k] and kind < 0.3:
            kw[k] = rng.choice([1, 0, 1.0])
        elif kind < 0.72 and opts:
            kw[k] = rng.choice(opts)
        elif kind < 0.84:
            kw.pop(k, None)
        elif kind < 0.9:
            kw[k] = None
        else:
            kw[k] = rng.choice(BADCAT)
        return kw
    v = kw.get(k)
    if rng.random() < 0.03:
        kw[k] = rng.choice([float("nan"), float("inf"), -0.0, 1e-12, {"t": "f64", "v": float("nan")}])
    elif v is None or isinstance(v, (str, dict)):
        kw[k] = rnum(rng, k, cls)
    elif v != v or abs(v) > 1e9:
        kw[k] = rnum(rng, k, cls)
    elif kind < 0.3:
        e = rng.choice([1e-2, 1e-3, 1e-4, 1e-5, 3e-6])
        kw[k] = v * (1 + e) if v else e
    elif kind < 0.5:
        kw[k] = rnum(rng, k, cls)
    elif kind < 0.75:
        kw[k] = rng.choice(EDGE[k])
    elif kind < 0.82:
        kw[k] = float(v) if isinstance(v, int) else (int(v) if v >= 1 else v + 0.5)
    elif kind < 0.88:
        kw[k] = {"t": rng.choice(["f64", "f32", "i64"]), "v": v}
    elif kind < 0.95:
        kw.pop(k, None)
    else:
        kw[k] = None
    return kw


def family(rng, cls, n, first=None):
    out = [first if first is not None else base(rng, cls)]
    while len(out) < n:
        if rng.random() < 0.12:
            b = base(rng, cls)
            if first is not None:
                for k, v in first.items():
                    b.setdefault(k, v)
            out.append(b)
        else:
            out.append(tweak(rng, rng.choice(out), cls))
    return out


# ------------------------------------------------------------------ arrays


def incr(rng, n, lo, hi):
    """Increasing, log-spaced with noise."""
    import math

    a, b = math.log(lo), math.log(hi)
    v = sorted(math.exp(rng.uniform(a, b)) for _ in range(n))
    out = []
    for x in v:
        x = round(x, 6)
        if out and x <= out[-1]:
            x = round(out[-1] * 1.01 + 1e-5, 6)
        out.append(x)
    return out


def odd(rng, v):
    """Make a list of numbers unusual, in place (the length stays)."""
    x = rng.random()
    i = rng.randrange(len(v))
    if x < 0.3:
        v[i] = float("nan")
    elif x < 0.4:
        v[i] = rng.choice([float("inf"), float("-inf")])
    elif x < 0.6:
        v[i] = rng.choice([0.0, -0.0, -1.0, 1e-300, 1e300, 1.0])
    elif x < 0.75:
        v[i] = v[0]
    elif x < 0.9:
        v.reverse()
    else:
        v[:] = [v[0]] * len(v)


ODD_ND = ("view", "ser2", "be", "neg", "sub")


def arr(rng, what, n=None, kinds=("nd", "nd", "nd", "list", "f32", "ro"), podd=0.1, pkind=0.2):
    k = rng.choice(kinds)
    if k == "nd" and rng.random() < pkind:
        k = rng.choice(["view", "view", "ser2", "ser2", "be", "neg", "sub"])
    n = n or rng.choice([1, 2, 3, 4, 5, 8])
    if what == "periods":
        v = incr(rng, n, 0.02, 9.0)
        if rng.random() < 0.3:
            v[-1] = 25.0
        if rng.random() < 0.2 and n > 1:
            v[0] = 0.001
    elif what == "freqs":
        v = incr(rng, n, 0.05, 60.0)
    elif what == "nias":
        v = [round(rng.uniform(0.05, 0.99), 3) for _ in range(n)]
        if rng.random() < 0.6:
            v[rng.randrange(n)] = rng.choice([0.05, 0.97, 0.0, 0.99, 0.1, 0.95])
    elif what == "stds":
        v = [round(rng.uniform(-2, 2), 3) for _ in range(n)]
    elif what == "sig":
        v = [round(rng.uniform(0.3, 0.9), 4) for _ in range(n)]
    elif what == "psa":
        v = [round(rng.uniform(-6, 0.5), 4) for _ in range(n)]
    elif what == "resp":
        v = [round(rng.uniform(0.005, 1.2), 4) for _ in range(n)]
    else:
        raise KeyError(what)
    if n > 1 and what in ("periods", "freqs", "nias", "resp") and rng.random() < 0.08:
        v.reverse()
    if rng.random() < podd:
        odd(rng, v)
        if k == "nd" and rng.random() < 0.3:
            k = "i64"
    return {"k": k, "v": v}


INTERP_KINDS = ["linear", "linear", "linear", "nearest", "zero", "cubic", "quadratic", "bogus"]
GMM_ATTRS = ["periods", "spec_accels", "ln_stds", "pga", "ln_std_pga", "pgv", "ln_std_pgv", "pgd", "ln_std_pgd", "scenario"]


HOT = []  # calls that the survey (probe.py) saw leave something behind
LIKE = {}  # how much a property cares about each kind of trace
WEIGHT = {"state": 1.0, "mid": 1.0, "lazy": 0.4, "input": 0.7, "setting": 0.4, "fsw": 1.0, "lock": 0.5, "stuck": 1.0, "alias": 0.15}


def hot_pick(rng, p=0.45, kind=None):
    """One of the calls of the survey, or None."""
    if not HOT:
        return None
    c = [h for h in HOT if kind is None or h["t"].startswith(kind)]
    ws = [max(LIKE.get(k, 1.0) * WEIGHT[k] for k in h["kinds"]) for h in c]
    if not ws or rng.random() >= p * min(1.0, sum(ws)):
        return None
    # first the target, then one of its calls
    per = {}
    for h, x in zip(c, ws):
        per[h["t"]] = max(x, per.get(h["t"], 0))
    t = rng.choices(list(per), list(per.values()))[0]
    i = rng.choices(range(len(c)), [x if h["t"] == t else 0 for h, x in zip(c, ws)])[0]
    return c[i]


def graft(w, h):
    """Bring a surveyed call and what it uses into this world."""
    world, op = h["world"], dict(h["op"])
    s0, a0, m0 = len(w.scn), len(w.arr), len(w.mdl)
    w.scn += [dict(x) for x in world["scn"]]
    w.arr += [dict(x) for x in world["arr"]]

    def mv(x):
        if isinstance(x, dict):
            if set(x) == {"a"} and isinstance(x["a"], int):
                return {"a": x["a"] + a0}
            return {k: mv(v) for k, v in x.items()}
        return [mv(v) for v in x] if isinstance(x, list) else x

    for m in world["mdl"]:
        m = mv(m)
        m["s"] += s0
        w.mdl.append(m)
    op = mv(op)
    if "s" in op:
        op["s"] += s0
    if "m" in op:
        op["m"] += m0
    if h.get("at"):
        op["at"] = w.rng.sample(h["at"], min(8, len(h["at"])))
    return op



class W:
    """Collects the shared world of a run."""

    def __init__(self, rng):
        self.rng = rng
        self.scn = []
        self.arr = []
        self.mdl = []
        self.past = []
        self.hot = []  # calls of this run that are known to leave something behind
        self.mode = None
        self.share = 0.6  # arrays used by several calls
        self.pkind = 0.2  # unusual kinds of arrays
        self.podd = 0.1  # unusual values in array arguments
        self.pbad = 0.1  # calls that must be rejected

    def add_arr(self, a, reuse=0.0, what=None):
        self.arr.append(dict(a, what=what))
        return {"a": len(self.arr) - 1}

    def arg(self, what, n=None, kinds=("nd", "nd", "nd", "list", "f32", "ro"), share=None):
        """An array argument: an existing shared one of the kind, or a new one."""
        r = self.rng
        c = [i for i, a in enumerate(self.arr) if a.get("what") == what and (n is None or len(a["v"]) == n)
             and ("nd" if a["k"] in ODD_ND else a["k"]) in kinds]
        if c and r.random() < (self.share if share is None else share):
            return {"a": r.choice(c)}
        return self.add_arr(arr(r, what, n, kinds, self.podd, self.pkind), what=what)

    def add_scn(self, kw, t="S"):
        if t == "dict":
            t = self.rng.choice(["dict", "dict", "dict", "dict", "od", "dd", "ud", "mp", "chain"])
        elif t == "S" and self.rng.random() < 0.05:
            t = "sub"
        self.scn.append({"kw": kw, "t": t})
        return len(self.scn) - 1

    def data(self):
        return {"scn": self.scn, "arr": self.arr, "mdl": self.mdl}


def ctor_kw(w, cls):
    r = w.rng
    if cls == "AGA16" and r.random() < 0.5:
        kw = {}
        c = r.random()
        if c < 0.3:
            kw["adjust_c1"] = round(r.uniform(-0.4, 0.4), 3)
        elif c < 0.7:
            kw["adjust_c1"] = w.add_arr({"k": r.choice(["nd", "nd", "list"]),
                                         "v": [round(r.uniform(-0.4, 0.4), 3) for _ in range(23)]}, what="c1")
        if r.random() < 0.3:
            kw["adjust_c4"] = round(r.uniform(-1, 1), 2)
        if r.random() < 0.4:
            kw["scale_atten"] = round(r.uniform(0.5, 1.5), 2)
        return kw
    if cls == "CoB14" and r.random() < 0.4:
        return {"scale_atten": round(r.uniform(0.5, 1.5), 2)}
    return {}


def long(w):
    """An array of so many periods that its printed form is abridged; usually one made from another."""
    r = w.rng
    c = [i for i, a in enumerate(w.arr) if a.get("what") == "long"]
    if c and r.random() < 0.25:
        return {"a": r.choice(c)}
    if c:
        v = list(w.arr[r.choice(c)]["v"])
        i = r.randrange(3, len(v) - 3)
        v[i] = round(v[i] + 0.004, 5)
    else:
        v = [round(0.02 + 0.008 * i, 5) for i in range(1004)]
    return w.add_arr({"k": "nd", "v": v}, what="long")


def reads(w, cls, n=None):
    """A list of things to read from a built model."""
    r = w.rng
    kind = C[cls]["kind"]
    out = []
    if kind == "gmm":
        out = r.sample(GMM_ATTRS, n or r.choice([2, 3, 4, 6]))
        if cls == "AGA16" and r.random() < 0.7:
            out.append(r.choice(["adjust_c1", "adjust_c4", "scale_atten"]))
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            m = r.choice(["interp_spec_accels", "interp_ln_spec_accels", "interp_ln_stds"])
            a = w.arg("periods")
            if r.random() < 0.15:
                a = r.choice([0.3, 2, 0.001, 30.0, w.add_arr({"k": "nd2", "v": incr(r, 4, 0.02, 9.0)}, what="grid"),
                              w.add_arr({"k": "ser", "v": incr(r, 3, 0.02, 9.0)}, what="series")])
            if r.random() < 0.02:
                a = long(w)
            out.append([m, a, r.choice(INTERP_KINDS)] if r.random() < 0.7 else [m, a])
    elif kind == "as96":
        out = r.sample(["duration", "std_err", "scenario"], 2)
        out.append(["interp", w.arg("nias")])
        if r.random() < 0.6:
            out.append(["interp", w.arg("nias"), w.arg("stds")])
        if r.random() < 0.6:
            out.append(["calc_ln_dur_incr", w.arg("nias")])
        if r.random() < 0.15:
            out.append(r.choice([["interp", 0.5], ["interp", 0.02], ["calc_ln_dur_incr", 0.97]]))
    elif kind == "dur":
        out = r.sample(["duration", "std_err", "scenario"], 2)
    elif kind == "fas":
        out = r.sample(["freqs", "ln_eas", "eas", "ln_std", "scenario"], r.choice([2, 3, 4]))
    elif kind == "vh":
        out = r.sample(["ratio", "ln_std", "scenario"], 2)
        out.append([r.choice(["interp_ratio", "interp_ln_std"]), w.arg("periods") if r.random() > 0.04 else long(w)])
    elif kind in ("pr", "pr24"):
        out = r.sample(["duration", "duration_plus_sigma", "duration_minus_sigma", "scenario"], 2)
        for _ in range(r.choice([1, 2])):
            out.append(["duration_for_energy", r.choice([0.10, 0.2, 0.45, 0.5, 0.75, 0.95, 0.33, 0.512, 0.09, 0.96])])
        if kind == "pr24":
            out.append(r.choice(["d575_median", "d575_sigma", ["d5x_median", r.choice(["D5-10", "D5-95", "D5-33"])],
                                 ["d5x_sigma", "D5-50"]]))
    return out


def clone(w, si=None):
    """A copy made by pickle or copy, of a model built before or of a scenario."""
    r = w.rng
    how = r.choice(["copy", "deepcopy", "deepcopy", 0, 2, 4, 5])
    if w.mdl and (si is None or r.random() < 0.75):
        j = r.randrange(len(w.mdl))
        return {"k": "clone", "m": j, "how": how, "reads": reads(w, w.mdl[j]["cls"])}
    if si is None:
        si = r.randrange(len(w.scn))
    return {"k": "clone", "s": si, "how": how}


def again(w):
    """A model built from the scenario that a model built before keeps."""
    j = w.rng.randrange(len(w.mdl))
    c = w.mdl[j]["cls"] if w.rng.random() < 0.6 else w.rng.choice(ALL)
    return {"k": "again", "m": j, "cls": c, "reads": reads(w, c)}


def build(w, cls, si, nreads=None):
    op = {"k": "build", "cls": cls, "s": si, "kw": ctor_kw(w, cls), "reads": reads(w, cls, nreads)}
    x = w.rng.random()
    if cls == "GA11" and x < 0.3:
        op["kwform"] = True  # GulerceAbrahamson2011(mag=..., ...)
    elif x < 0.15:
        op["fresh"] = True  # from a scenario that exists only during the call
    return op


def fn(w, focus=None):
    """A call of a module-level or static function."""
    r = w.rng
    name = focus or r.choice(FNS)
    f = lambda k: r.choice(EDGE[k]) if r.random() < 0.25 else rnum(r, k)
    if name in ("BA18.corr", "BA18.cov"):
        n = r.choice([1, 2, 3, 5])
        a = w.arg("freqs", n, ("nd", "nd", "f32", "ro"))
        if name == "BA18.corr":
            return {"k": "fn", "fn": name, "args": [a]}
        c = r.random()
        if c < 0.4:
            return {"k": "fn", "fn": name, "args": [a], "kw": {"std": w.arg("sig", n)}}
        if c < 0.9:
            return {"k": "fn", "fn": name, "args": [a], "kw": {"component": r.choice(["tau", "phi_s2s", "phi_s", "sigma"]) if r.random() >= w.pbad * 2 else "bogus"}}
        return {"k": "fn", "fn": name, "args": [a]}
    if name in ("S17.cov", "S17.cor"):
        n = r.choice([1, 2, 3])
        kw = {"mag": f("mag")} if r.random() < 0.6 else {}
        if r.random() < 0.5:
            kw.update(sigma_E=w.arg("sig", n), sigma_S=w.arg("sig", n), sigma_A=w.arg("sig", n if r.random() >= w.pbad else n + 1))
        return {"k": "fn", "fn": name, "args": [w.arg("freqs", n)], "kw": kw}
    if name == "S17.compute_variances":
        return {"k": "fn", "fn": name, "args": [w.arg("freqs")]}
    if name.startswith("S17.compute_"):
        x = round(r.uniform(0.1, 30), 3)
        return {"k": "fn", "fn": name, "args": {"S17.compute_corner_frequency": [f("mag")], "S17.compute_gamma_E": [x, f("mag")]}.get(name, [
            x if r.random() < 0.5 else w.arg("freqs")])}
    if name == "S17.between_event_correlation":
        return {"k": "fn", "fn": name, "args": [round(r.uniform(0.1, 30), 3), round(r.uniform(0.1, 30), 3), f("mag")]}
    if name in ("S17.within_event_correlation", "S17.between_site_correlation"):
        a = round(r.uniform(0.1, 30), 3)
        return {"k": "fn", "fn": name, "args": [a, a if r.random() < 0.2 else round(r.uniform(0.1, 30), 3)]}
    if name == "BJ08.calc_correls":
        return {"k": "fn", "fn": name, "args": [w.arg("periods"), r.choice([0.05, 0.1, 0.15, 0.2, 0.5, 1.0, 3.0])]}
    if name == "BJ08.calc_cond_mean_spectrum":
        n = r.choice([2, 3, 5])
        p, y, s = w.arg("periods", n), w.arg("psa", n), w.arg("sig", n)
        if r.random() < 0.35:
            # conditioned at one of the periods, and then often on the value itself
            i = r.randrange(n)
            t, c = w.arr[p["a"]]["v"][i], w.arr[y["a"]]["v"][i]
            return {"k": "fn", "fn": name, "args": [p, y, s, t, c if r.random() < 0.7 else round(c + r.uniform(-1, 1), 3)]}
        return {"k": "fn", "fn": name, "args": [p, y, s, r.choice([0.1, 0.2, 0.5, 1.0]), round(r.uniform(-4, 0), 3)]}
    if name == "K17.cmsv":
        n = r.choice([3, 4, 5])
        a = {"k": "ma", "v": [round(r.uniform(-4, 0), 3) for _ in range(n)], "mask": [r.random() < 0.5 for _ in range(n)]}
        if all(a["mask"]):
            a["mask"][0] = False
        if not any(a["mask"]) and r.random() < 0.7:
            a["mask"][-1] = True
        if r.random() < 0.35:
            odd(r, a["v"])
        if r.random() < 0.07:
            a["k"] = "ma0"  # no mask at all
        p = w.arg("periods", n)
        if r.random() < w.pbad:
            p = w.add_arr({"k": "nd", "v": [1.0, 0.5] + [2.0] * (n - 2)}, what="badperiods")
        return {"k": "fn", "fn": name, "args": [p, w.arg("psa", n), w.arg("sig", n), w.add_arr(a, what="ma")]}
    if name in ("ASK14.calc_depth_1_0", "CY14.calc_depth_1_0", "AS16.calc_depth_1_0"):
        return {"k": "fn", "fn": name, "args": [f("v_s30"), r.choice(["california", "japan", "global"])]}
    if name == "BA19.calc_depth_1_0":
        return {"k": "fn", "fn": name, "args": [f("v_s30")]}
    if name == "ASK14.calc_width":
        return {"k": "fn", "fn": name, "args": [f("mag"), f("dip")]}
    if name == "ASK14.calc_depth_tor":
        return {"k": "fn", "fn": name, "args": [f("mag")]}
    if name == "CY14.calc_depth_tor":
        return {"k": "fn", "fn": name, "args": [f("mag"), r.choice(["U", "SS", "NS", "RS"])]}
    if name == "CB14.calc_depth_2_5":
        c = r.random()
        if c < 0.6:
            return {"k": "fn", "fn": name, "args": [f("v_s30"), r.choice(["global", "california", "japan"])]}
        return {"k": "fn", "fn": name, "args": [None, r.choice(["global", "japan"]), f("depth_1_0") if c < 0.9 else None]}
    if name == "CB14.calc_depth_hyp":
        return {"k": "fn", "fn": name, "args": [f("mag"), f("dip"), round(r.uniform(0, 8), 2), round(r.uniform(9, 20), 2)]}
    if name == "CB14.calc_width":
        return {"k": "fn", "fn": name, "args": [f("mag"), f("dip"), round(r.uniform(0, 8), 2)]}
    if name == "CB14.calc_depth_bor":
        return {"k": "fn", "fn": name, "args": [round(r.uniform(0, 8), 2), f("dip"), f("width")]}
    if name == "AB20.ln_period_pgv":
        return {"k": "fn", "fn": name, "args": [f("mag")]}
    if name == "AS96.calc_ln_dur_incr":
        return {"k": "fn", "fn": name, "args": [w.arg("nias")]}
    if name == "ASK14.calc_site_term":
        return {"k": "fn", "fn": name, "args": [w.arg("resp", 24, ("nd", "ro")), f("v_s30"), r.choice([None, 0.1, 0.4]),
                                                r.choice(["california", "japan"])]}
    if name == "CY14.calc_site_term":
        return {"k": "fn", "fn": name, "args": [w.arg("resp", 26, ("nd", "ro")), f("v_s30"), round(r.uniform(0.01, 0.8), 3),
                                                r.choice(["california", "japan"])]}
    if name == "BSSA14.calc_site_term":
        return {"k": "fn", "fn": name, "args": [round(r.uniform(0.01, 0.5), 3), f("v_s30"), r.choice([None, 0.1, 0.4]),
                                                r.choice(["california", "japan"])]}
    if name == "CB14.calc_site_term":
        return {"k": "fn", "fn": name, "args": [round(r.uniform(0.01, 0.5), 3), f("v_s30"), round(r.uniform(0.2, 5), 2),
                                                r.choice(["california", "japan"])]}
    if name == "PR24.duration_model":
        return {"k": "fn", "fn": name, "args": [f("mag"), f("dist_rup"), f("v_s30"),
                                                r.choice(["Japan", "Taiwan", "New Zealand", "Mars"]),
                                                r.choice(["interface", "slab"]), r.choice([0.75, 0.5, 0.33, 0.95])]}
    raise KeyError(name)


FNS = ["S17.compute_corner_frequency", "S17.compute_gamma_E", "S17.compute_eta_A", "S17.compute_gamma_A", "S17.compute_eta_S",
       "S17.compute_gamma_S", "BA18.corr", "BA18.cov", "BA18.cov", "S17.cov", "S17.cor", "S17.compute_variances", "S17.between_event_correlation",
       "S17.within_event_correlation", "S17.between_site_correlation", "BJ08.calc_correls", "BJ08.calc_cond_mean_spectrum",
       "K17.cmsv", "K17.cmsv", "ASK14.calc_depth_1_0", "CY14.calc_depth_1_0", "AS16.calc_depth_1_0", "BA19.calc_depth_1_0",
       "ASK14.calc_width", "ASK14.calc_depth_tor", "CY14.calc_depth_tor", "CB14.calc_depth_2_5", "CB14.calc_depth_hyp",
       "CB14.calc_width", "CB14.calc_depth_bor", "AB20.ln_period_pgv", "AS96.calc_ln_dur_incr", "ASK14.calc_site_term",
       "CY14.calc_site_term", "BSSA14.calc_site_term", "CB14.calc_site_term", "PR24.duration_model"]
GROUPS = {  # functions that could share state with one another
    "BA18": ["BA18.corr", "BA18.cov"], "S17": ["S17.cov", "S17.cor", "S17.compute_variances", "S17.between_event_correlation",
                                               "S17.compute_gamma_E", "S17.compute_eta_A", "S17.compute_gamma_A", "S17.compute_gamma_S", "S17.within_event_correlation", "S17.between_site_correlation"],
    "CMS": ["BJ08.calc_correls", "BJ08.calc_cond_mean_spectrum", "K17.cmsv"],
    "ASK14": ["ASK14.calc_depth_1_0", "ASK14.calc_width", "ASK14.calc_depth_tor", "ASK14.calc_site_term"],
    "CY14": ["CY14.calc_depth_1_0", "CY14.calc_depth_tor", "CY14.calc_site_term"],
    "CB14": ["CB14.calc_depth_2_5", "CB14.calc_depth_hyp", "CB14.calc_width", "CB14.calc_depth_bor", "CB14.calc_site_term"],
    "BSSA14": ["BSSA14.calc_site_term", "CY14.calc_depth_1_0"], "AS16": ["AS16.calc_depth_1_0"],
    "BA19": ["BA19.calc_depth_1_0"], "AS96": ["AS96.calc_ln_dur_incr"], "PR24": ["PR24.duration_model"],
    "AB20": ["AB20.ln_period_pgv"],
}


def copy_with(w, si, cls=None):
    r = w.rng
    kw = {}
    for _ in range(r.choice([1, 1, 2])):
        k = r.choice(["mag", "v_s30", "dist_rup", "dip", "mechanism", "region", "depth_1_0"])
        kw[k] = r.choice(MECH) if k == "mechanism" else r.choice(["japan", "global"]) if k == "region" else rnum(r, k)
    if r.random() < 0.12:
        kw["not_a_key"] = 1
    return {"k": "copy_with", "s": si, "kw": kw}


DATA = ["abrahamson_gregor_addo_2016.csv", "akkar-sandikkaya-bommer-2014-dist_jb.csv", "atkinson_boore_2006-site.csv", "campbell_2003.csv",
        "coppersmith_bommer_2014.csv", "gulerce_abrahamson_2011-correl-within.csv", "idriss_2014-small.csv", "tavakoli_pezeshk_2005.csv",
        "boore_stewart_seyhan_atkinson-2014.csv"]


def misc(w, si):
    """Smaller parts of the public interface."""
    r = w.rng
    x = r.random()
    cls = r.choice(ALL)
    if x < 0.2:
        return {"k": "misc", "what": "repr", "s": si}
    if x < 0.45:
        d = C[cls]
        if r.random() < 0.5 and d["cats"]:
            p = r.choice(sorted(d["cats"]))
            v = r.choice([None, "bogus", 3, True, ""] + list(d["cats"][p]))
        else:
            p = r.choice([k for k in sorted(d["keys"]) if k not in d["cats"]])
            v = r.choice([None, -1, 1e9, rnum(r, p), rnum(r, p)])
        return {"k": "misc", "what": "param", "cls": cls, "p": p, "v": v}
    if x < 0.6:
        return {"k": "misc", "what": "load", "name": r.choice(DATA), "skip": r.choice([0, 1, 1, 2]), "scribble": r.choice([0, 1])}
    if x < 0.8:
        return {"k": "misc", "what": "tables", "cls": cls}
    op = copy_with(w, si)
    return {"k": "misc", "what": "scnops", "s": si, "kw": op["kw"]}


def scn_op(w, si):
    r = w.rng
    if r.random() < 0.25:
        return misc(w, si)
    c = r.random()
    if c < 0.45:
        return copy_with(w, si)
    if c < 0.6:
        return {"k": "new", "kw": dict(w.scn[si]["kw"], **({"not_a_key": 2} if r.random() < 0.3 else {}))}
    if c < 0.8:
        return {"k": "items", "s": si}
    return {"k": "get", "s": si, "keys": r.sample(["mag", "dist_rup", "v_s30", "mechanism", "region", "dist_jb", "dip"], 3)}


def other_value(rng, k, v, cls):
    d = C[cls]
    if k in d["cats"]:
        return rng.choice(d["cats"][k])
    return rnum(rng, k)


def mutation(w, classes, fams, state):
    """An in-place change of a scenario or array that the caller owns; state: what the inputs are now."""
    r = w.rng
    if r.random() < 0.65:
        c = r.choice(classes)
        si = r.choice(fams[c])
        s = state["scn"].get(si) or w.scn[si]
        if s["t"] in ("mp", "chain"):
            return None
        x = r.random()
        ks = [k for k in s["kw"] if k in C[c]["keys"]]
        if x < 0.1 or not ks:
            ks = [r.choice(C[c]["keys"])]
        kw = {k: other_value(r, k, s["kw"].get(k), c) for k in r.sample(ks, min(len(ks), r.choice([1, 2])))}
        op = {"k": "mutate", "s": si, "kw": kw}
        if r.random() < 0.1:
            op["drop"] = [r.choice([k for k in ks if k in s["kw"]] or [None])]
            op["drop"] = [k for k in op["drop"] if k]
            op["kw"] = {}
    else:
        cand = [i for i, a in enumerate(w.arr) if a["k"] in ("nd", "list") and a.get("what") in (
            "periods", "nias", "freqs", "c1", "sig", "stds", "psa")]
        if not cand:
            return None
        frozen = [i for i in cand if i in frozen_arrays(w.mdl)]
        i = r.choice(frozen if frozen and r.random() < 0.5 else cand)
        a = state["arr"].get(i) or w.arr[i]
        what = w.arr[i]["what"]
        if r.random() < 0.5 and len(a["v"]) > 1:
            new = list(a["v"])
            j = r.randrange(len(new))
            new[j] = round(new[j] * 1.07 + 0.001, 6)
        else:
            new = ([round(r.uniform(-0.4, 0.4), 3) for _ in a["v"]] if what == "c1" else arr(r, what, len(a["v"]), ("nd",))["v"])
        op = {"k": "mutarr", "a": {"a": i}, "v": new}
    apply_mutation(op, w.scn, w.arr, state)
    return op


def apply_mutation(op, scn, arrs, state):
    if op["k"] == "mutate":
        s = state["scn"].get(op["s"]) or scn[op["s"]]
        kw = {k: v for k, v in s["kw"].items() if k not in op.get("drop", ())}
        state["scn"][op["s"]] = {"kw": dict(kw, **op["kw"]), "t": s["t"]}
    elif op["k"] == "mutarr":
        i = op["a"]["a"]
        state["arr"][i] = dict(state["arr"].get(i) or arrs[i], v=op["v"])


def frozen_arrays(mdl):
    return {m["kw"]["adjust_c1"]["a"] for m in mdl if isinstance(m["kw"].get("adjust_c1"), dict)}


def tracked(spec):
    """Call id -> what the inputs were when the call ran, for a serial history with in-place changes."""
    w = spec["world"]
    state = {"scn": {}, "arr": {}}
    froz = frozen_arrays(w["mdl"])
    out = {}
    for th in spec["threads"]:
        for op in th:
            if op["k"] in ("mutate", "mutarr"):
                apply_mutation(op, w["scn"], w["arr"], state)
                continue
            p = {}
            if op["k"] in ("build", "copy_with", "items", "get", "clone", "misc") and op.get("s") in state["scn"]:
                p["scn"] = {op["s"]: state["scn"][op["s"]]}
            if state["arr"] and op["k"] in ("build", "fn", "read", "clone", "again"):
                # a model built earlier keeps the array it was built from, whatever the array is now
                a = {i: x for i, x in state["arr"].items() if not (op["k"] in ("read", "clone", "again") and i in froz)}
                if a:
                    p["arr"] = a
            if p:
                out[op["id"]] = p
    return out


def pick_classes(rng, n=None):
    if n is None and rng.random() < 0.06:
        return ["HKR14"]  # the one that is built on demand
    n = n or rng.choice([1, 1, 1, 2, 2, 3])
    groups = [["CB14", "CY14", "BSSA14"], ["AGA16", "CoB14"], ["GA11", "ASK14"], ["PR23", "PR24"], ["BSSA14", "CY14"],
              ["HKR14"], ["BA19"], ["AS96"], ["AS16", "KS06"]]
    if n > 1 and rng.random() < 0.35:
        g = rng.choice([x for x in groups if len(x) > 1])
        return rng.sample(g, min(n, len(g)))
    return rng.sample(ALL, n)


def vary(w, op):
    """Nearly the same call: one number, one element of an array, or the kind of an array is different."""
    r = w.rng
    op = dict(op)
    for k in ("alts", "keep", "id"):
        op.pop(k, None)
    if op["k"] == "build" and r.random() < 0.4:
        s = w.scn[op["s"]]
        op["s"] = w.add_scn(tweak(r, s["kw"], op["cls"]), s["t"])
        return op

    def other(x):
        if isinstance(x, dict) and set(x) == {"a"}:
            a = dict(w.arr[x["a"]])
            v = a["v"] = list(a["v"])
            y = r.random()
            i = r.randrange(1, len(v) - 1) if len(v) > 2 and r.random() < 0.7 else r.randrange(len(v))
            if y < 0.5:
                lo, hi = v[i - 1] if i else v[i] * 0.9, v[i + 1] if i + 1 < len(v) else v[i] * 1.1
                v[i] = lo + (hi - lo) * r.choice([0.31, 0.57, 0.8])
            elif y < 0.6:
                v[i] = v[i] * (1 + r.choice([1e-3, 1e-5, 1e-7, 1e-9]))
            elif y < 0.7:
                r.shuffle(v)
            elif y < 0.8 and a["k"] in ("nd", "list", "f32", "ro"):
                a["k"] = r.choice(["nd", "list", "f32", "ro", "view", "tuple", "ser2", "be", "neg", "sub"])
            elif y < 0.9 and a["k"] == "ma":
                a["mask"] = [not b if j == i else b for j, b in enumerate(a["mask"])]
            elif y < 0.9 and a["k"] not in ("nd2", "ma", "ma0") and len(v) > 1:
                del v[i]
            else:
                odd(r, v)
            w.arr.append(a)
            return {"a": len(w.arr) - 1}
        if isinstance(x, bool) or x is None:
            return x
        if isinstance(x, str):
            return r.choice(["california", "japan", "global"]) if x in ("california", "japan", "global") else x
        if isinstance(x, (int, float)):
            return x * (1 + r.choice([1e-2, 1e-4, 1e-6, 1e-9])) if r.random() < 0.7 else x + 1
        return x

    def one(xs):
        """Change one entry of a list of arguments."""
        c = [i for i, x in enumerate(xs) if not isinstance(x, (str, bool)) and x is not None]
        if not c:
            return xs
        i = r.choice(c)
        return [other(x) if j == i else x for j, x in enumerate(xs)]

    if op["k"] == "fn":
        kw = op.get("kw") or {}
        ks = [k for k in kw if not isinstance(kw[k], str)]
        if ks and (not op["args"] or r.random() < 0.5):
            k = r.choice(sorted(ks))
            op["kw"] = dict(kw, **{k: other(kw[k])})
        else:
            op["args"] = one(op["args"])
    elif op["k"] in ("build", "read"):
        rd = list(op["reads"])
        c = [i for i, x in enumerate(rd) if isinstance(x, list)]
        if c:
            i = r.choice(c)
            rd[i] = [rd[i][0]] + one(rd[i][1:])
        op["reads"] = rd
    return op


def mixed_op(w, classes, fams, fgroups, p_fn=0.25, p_scn=0.12, p_read=0.15):
    """One random call of the run's focus."""
    r = w.rng
    x = r.random()
    if w.hot and x < 0.62:
        op = r.choice(w.hot)
        op = dict(op) if x < 0.2 else vary(w, op)
        if r.random() < 0.4 and op["k"] in ("fn", "build", "read"):
            w.hot.append(op)
    elif w.past and r.random() < (0.3 if w.hot else 0.15):
        op = vary(w, r.choice(w.past))
    else:
        op = plain_op(w, classes, fams, fgroups, p_fn, p_scn, p_read)
    if op["k"] in ("fn", "build", "read"):
        w.past.append(op)
    return op


def burst(w, classes, fams, fgroups):
    """The same call (or nearly) many times over, for interrupting every one of them."""
    r = w.rng
    op = dict(r.choice(w.hot)) if w.hot and r.random() < 0.8 else plain_op(w, classes, fams, fgroups, 0.4, 0.1, 0.1)
    same = r.random() < 0.6
    return [dict(op) if same or r.random() < 0.5 else vary(w, op) for _ in range(r.choice([4, 6, 9, 13]))] + [dict(op)]


def plain_op(w, classes, fams, fgroups, p_fn, p_scn, p_read):
    r = w.rng
    if r.random() < 0.04 and w.mdl:
        return again(w)
    if r.random() < 0.05 and w.scn:
        return clone(w, r.choice(r.choice(list(fams.values()))))
    x = r.random()
    if w.mode == "fn":
        p_fn, p_scn = 0.88, p_scn * 0.3
    elif w.mode == "read":
        p_read, p_fn = 0.6, 0.05
    elif w.mode == "scn":
        p_scn, p_fn = 0.5, 0.05
    if x < p_fn:
        return fn(w, r.choice(fgroups) if fgroups else None)
    if x < p_fn + p_scn:
        return scn_op(w, r.choice(r.choice(list(fams.values()))))
    if x < p_fn + p_scn + p_read and w.mdl:
        j = r.randrange(len(w.mdl))
        return {"k": "read", "m": j, "reads": reads(w, w.mdl[j]["cls"])}
    cls = r.choice(classes)
    return build(w, cls, r.choice(fams[cls]))


def setup(rng, nfam=(2, 4), classes=None, prebuilt=0.4, dicts=0.15, cross=0.3):
    """World with near-identical scenarios for 1-3 classes."""
    w = W(rng)
    hot = hot_pick(rng)
    if hot is not None:
        own = hot["t"].split(":")[1]
        if hot["t"].startswith("cls:"):
            # the class, and at times another one that touches the same place
            also = sorted({h["t"][4:] for h in HOT if h["t"][:4] == "cls:" and h["t"] != hot["t"] and set(h["places"]) & set(hot["places"])})
            classes = [own] + ([rng.choice(also)] if also and rng.random() < 0.4 else [rng.choice(ALL)] if rng.random() < 0.2 else [])
            classes = list(dict.fromkeys(classes))
        elif classes is None:
            classes = pick_classes(rng, 1)
    classes = classes or pick_classes(rng)
    fams = {}
    first = shared(rng, classes) if len(classes) > 1 and rng.random() < 0.5 else None
    for c in classes:
        b = base(rng, c)
        if first is not None:
            for k, v in first.items():
                if k in C[c]["cats"] and v not in C[c]["cats"][k]:
                    continue
                b.setdefault(k, v)
        fams[c] = [w.add_scn(kw, "dict" if rng.random() < dicts else "S")
                   for kw in family(rng, c, rng.randint(*nfam), b)]
    if first is not None:
        i = w.add_scn(first)
        for c in classes:
            fams[c].append(i)
    fg = []
    for c in classes:
        fg += GROUPS.get(c, [])
    if not fg or rng.random() < 0.5:
        fg += GROUPS[rng.choice(sorted(GROUPS))]
    x = rng.random()
    if hot is not None:
        w.podd = rng.choice([0.05, 0.1, 0.4])
        w.pbad = rng.choice([0.1, 0.1, 0.5])
        op = graft(w, hot)
        w.hot.append(op)
        if hot["t"].startswith("fn:"):
            w.mode = "fn"
            g = [g for g in GROUPS.values() if own in g]
            fg = [own] + ([rng.choice(g[0])] if g and rng.random() < 0.5 else [])
        elif "s" in op and op["k"] == "build":
            # scenarios close to the one that did it
            kw = w.scn[op["s"]]["kw"]
            fams[own] = [op["s"]] + [w.add_scn(x) for x in family(rng, own, rng.choice([2, 3]), kw)[1:]] + fams[own][:1]
        if x < 0.3:
            rest = [h for h in HOT if h["t"] == hot["t"] or set(h["places"]) & set(hot["places"])]
            w.hot.append(graft(w, rng.choice(rest)))
    elif x < 0.16:
        # all about one or two functions
        w.mode = "fn"
        g = GROUPS[rng.choice(["S17", "S17", "CMS", "CMS", "BA18"] + sorted(GROUPS))]
        fg = rng.sample(g, min(len(g), rng.choice([1, 1, 2, 3])))
        w.podd = rng.choice([0.05, 0.3, 0.6])
        w.pbad = rng.choice([0.1, 0.5])
    elif x < 0.22:
        w.mode = "read"
        prebuilt = 1.0
    elif x < 0.25:
        w.mode = "scn"
    for c in classes:
        if rng.random() < prebuilt:
            w.mdl.append({"cls": c, "s": rng.choice(fams[c]), "kw": ctor_kw(w, c)})
    return w, classes, fams, fg


LIMITS = {
    "mag": [2.0, 2.9, 3.2, 4.1, 8.3, 8.7, 9.3, 9.9], "dist_rup": [-1.0, 0.0, 199.0, 201.0, 299.0, 305.0, 402.0, 999.0, 1002.0],
    "dist_jb": [-2.0, 199.5, 203.0, 305.0, 401.0], "dist_epi": [201.0, 210.0], "dist_hyp": [201.0, 305.0], "dist_x": [-400.0, 400.0],
    "v_s30": [90.0, 120.0, 149.0, 170.0, 1210.0, 1510.0, 1700.0, 2100.0, 3001.0], "depth_1_0": [-0.5, 3.5, 4.0], "depth_2_5": [-1.0, 11.0, 12.0],
    "depth_tor": [-0.5, 20.5, 22.0], "depth_bor": [-1.0, 30.0], "depth_bot": [-1.0, 40.0], "depth_hyp": [-1.0, 20.5, 41.0, 130.0],
    "dip": [5.0, 12.0, 91.0, 95.0], "width": [-1.0, 60.0], "dpp_centered": [-20.0, 20.0], "pga_ref": [-0.1, 15.0], "dist_y0": [-1.0, 500.0],
    "dist_crjb": [-1.0, 20.0],
}


def questionable(rng, kw, cls):
    """Make one entry out of range, unknown, missing or None."""
    d = C[cls]
    kw = dict(kw)
    k = rng.choice(d["keys"])
    x = rng.random()
    if k in d["cats"]:
        if x < 0.7:
            kw[k] = rng.choice(BADCAT)
        else:
            kw[k] = rng.choice(d["cats"][k])
        return kw
    if x < 0.82:
        kw[k] = rng.choice(LIMITS[k])
    elif x < 0.9:
        kw[k] = None
    elif x < 0.94:
        kw.pop(k, None)
    else:
        kw[k] = rnum(rng, k, cls)
    return kw


def badcat(rng, kw, cls):
    """One category that is not offered."""
    cats = sorted(k for k in C[cls]["cats"])
    return dict(kw, **{rng.choice(cats): rng.choice(BADCAT)}) if cats else questionable(rng, kw, cls)


def facts(rng):
    """What a machine tells about itself."""
    return {"cpu": rng.choice([None, 1, 2, 3, 7, 64, 192]), "host": rng.choice(["node-17", "localhost", "", "LAPTOP-\u00c4"]),
            "machine": rng.choice(["x86_64", "aarch64", "ppc64le", "i686"]), "pid": rng.choice([1, 2, 4242, 4194303]),
            "uid": rng.choice([0, 1000, 65534]), "login": rng.choice([None, "sim", "root"]), "load": rng.choice([0.0, 0.5, 250.0]),
            "tty": rng.choice([None, [80, 24], [1, 1], [400, 100]])}
