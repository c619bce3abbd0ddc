"""What every check explores, by property and tier."""

FAMS = ["", "a", "a,b", "http", "coap", "mqtt"]


BIG = {"many", "deepdata", "deeplimits", "deeptags", "fullthings", "latethings", "textmany", "textrefs", "textthings",
       "longsec", "longops", "longschemas", "longdup", "longlimits", "longuri", "longtags", "longlinks", "longall", "deepmore"}    # records that one write cannot hold


def mc(alphabet, depth, fam="", context="", workers=2, mem=2500):
    if alphabet in BIG:
        workers = 1
    wide = {"WIDE": 1} if workers > 2 and alphabet.startswith("fault") else {}     # the thorough tier
    return {"name": f"MC {alphabet} depth={depth} fam={fam or '-'} context={context or '-'}", "module": "MC", "workers": workers, "mem": mem,
            "env": {"ALPHABET": alphabet, "DEPTH": depth, "FAM": fam, "CONTEXT": context, **wide}}


def sim(focus, num, seed, fam="", alts=0, parts=1):
    """num random behaviours, in several processes"""
    per = -(-num // parts)
    return [{"name": f"MCSim focus={focus or '-'} fam={fam or '-'} alts={alts} seed={seed * 1000 + i}", "module": "MCSim", "num": per,
             "seed": seed * 1000 + i, "env": {"FOCUS": focus, "FAM": fam, "ALTS": alts}} for i in range(parts)]


def plain(module, **env):
    return {"name": module + "".join(f" {k}={v}" for k, v in env.items()), "module": module, "workers": 2, "mem": 4000, "env": env}


def near(bases, fam="", shards=1):
    """everything one call away from full elements"""
    return [{"name": f"MCNear bases={bases} fam={fam or '-'} part {i + 1}/{shards}", "module": "MCNear", "workers": 1, "mem": 2500,
             "env": {"BASES": bases, "FAM": fam, "SHARDS": shards, "SHARD": i}} for i in range(shards)]


def docs(bases, fam="", workers=2, mem=2500):
    return [{"name": f"MCDocs bases={bases} fam={fam or '-'}", "module": "MCDocs", "workers": workers, "mem": mem, "env": {"BASES": bases, "FAM": fam}}]


def dsim(num, seed, fam=""):
    return [{"name": f"MCDocsSim fam={fam or '-'} seed={seed}", "module": "MCDocsSim", "num": num, "seed": seed, "env": {"FAM": fam}}]


def jobs_for(p, tier, seed):
    t = tier == "thorough"
    k = 25 if t else 6          # more random behaviours
    s = lambda f, n, i, fam="", alts=0, parts=2: sim(f, n * k, seed * 100 + i, fam, alts, parts * (4 if t else 1))
    d = lambda a, q, th, fam="", ctx="": [mc(a, th if t else q, fam, ctx, workers=4 if t else 2, mem=8000 if t else 2500)]
    J = []
    if p == "C01":
        J += d("faultsec", 1, 1) + d("longsec", 1, 1) + d("textrefs", 1, 1) + d("textkeys", 1, 1) + d("oddkeys", 1, 1) + d("bulksec", 1, 1) + d("bulkmissing", 1, 1) + d("secrefs", 2, 2) + d("secrefs3", 3, 4) + d("combos", 1, 1) + d("secctx", 1, 1) + d("nearsecs", 1, 1) + d("faults", 2, 3) + s("security", 1000, 1) + s("", 400, 2, "a", parts=1)
    elif p == "C02":
        J += d("faultops", 1, 1) + d("longops", 1, 1) + d("bulkops", 1, 1) + d("ops", 1, 1) + d("ops2", 2, 3) + d("opsctx", 1, 1) + docs("places0") + d("faults", 2, 3) + s("ops", 1000, 1) + s("", 300, 2, "http", parts=1)
    elif p == "C03":
        J += d("faultschemas", 1, 1) + d("longschemas", 1, 1) + d("textrefs", 1, 1) + d("textkeys", 1, 1) + d("oddkeys", 1, 1) + d("bulkschemas", 1, 1) + d("bulkmissing", 1, 1) + d("fullaresp", 1, 1) + d("schemarefs", 2, 2) + d("schemactx", 1, 1) + d("nearschemas", 1, 1) + d("faults", 2, 3) + s("responses", 1000, 1) + s("responses", 400, 2, "a", parts=1)
    elif p == "C04":
        J += d("faultdup", 1, 1) + d("longdup", 1, 1) + d("longall", 1, 1) + d("textmany", 1, 1) + d("textkeys", 1, 1) + d("oddkeys", 1, 1) + d("bulkdup", 1, 1) + d("many", 1, 1) + d("names", 4, 5) + d("nearnames", 1, 1) + d("schemes2", 2, 2) + d("faults", 2, 3) + s("names", 1000, 1) + s("affordances", 400, 2, parts=1)
    elif p == "C05":
        J += d("faultlimits", 1, 1) + d("faultlimits2", 1, 1) + d("longlimits", 1, 1) + d("deepmore", 1, 1) + d("bulklimits", 1, 1) + d("deeplimits", 1, 1) + d("limits", 1, 1) + d("limitplaces", 1, 1) + d("limitplaces2", 1, 1) + d("limitctx", 1, 1) + d("faults", 2, 3) + s("limits", 800, 1) + s("limits", 300, 2, "a", parts=1)
    elif p == "C06":
        J += d("faulturi", 1, 1) + d("longuri", 1, 1) + d("textkeys", 1, 1) + d("oddkeys", 1, 1) + d("bulkuri", 1, 1) + d("urivars", 2 if t else 1, 2) + d("urictx", 1, 1) + d("faults", 2, 3) + d("schemaplaces", 1, 1) + s("urivars", 1000, 1)
    elif p == "C07":
        J += d("faulttags", 1, 1) + d("faulttags2", 1, 1) + d("longtags", 1, 1) + d("deepmore", 1, 1) + d("oddaffs", 1, 1) + d("bulktags", 1, 1) + d("deeptags", 1, 1) + d("tags", 1, 1) + d("tagpool", 1, 1) + d("tagctx", 1, 1) + d("faults", 2, 3) + s("tags", 1000, 1) + s("tags", 300, 2, "a", parts=1)
    elif p == "C08":
        J += d("faultlinks", 1, 1) + d("longlinks", 1, 1) + d("besidelinks", 1, 1) + d("textlinks", 1, 1) + d("oddlinks", 1, 1) + near("links") + d("bulklinks", 1, 1) + d("fulllinks", 1, 1) + d("links", 3, 3) + d("linkctx", 1, 1) + d("faults", 2, 3) + s("links", 1000, 1)
    elif p == "C09":
        J += d("faultdup", 1, 1) + d("faultsec", 1, 1) + d("longdup", 1, 1) + d("longops", 1, 1) + d("oddkeys", 1, 1) + d("bulkmissing", 1, 1) + d("bulkdup", 1, 1) + d("bulkops", 1, 1) + d("bulklimits", 1, 1) + d("bulktags", 1, 1) + d("bulklinks", 1, 1) + d("faults", 3, 4) + d("secrefs", 1, 2) + d("limits", 1, 1) + d("links", 1, 2) + s("", 1200, 1) + s("", 400, 2, "a,b", parts=1) + s("", 300, 3, "mqtt", parts=1)
    elif p == "C10":
        J += d("longall", 1, 1) + d("besidethings", 1, 1) + d("besidelinks", 1, 1) + d("textthings", 1, 1) + d("textmany", 1, 1) + d("oddthings", 1, 1) + near("thing") + d("fullthings", 1, 1) + d("many", 1, 1) + d("latethings", 1, 1, "a", "bare") + d("thing", 2, 3) + s("thing", 1200, 1) + s("thing", 300, 2, "a", parts=1)
    elif p == "C11":
        J += d("longall", 1, 1) + d("twoforms", 1, 1) + d("twoaffs", 1, 1) + d("besideforms", 1, 1) + d("besideforms2", 1, 1) + d("besideaffs", 1, 1) + d("textaffs", 1, 1) + d("textforms", 1, 1) + d("textmany", 1, 1) + d("oddaffs", 1, 1) + d("oddforms", 1, 1) + near("affs") + near("forms") + d("fullprops", 1, 1) + d("fullacts", 1, 1) + d("fullevs", 1, 1) + d("fullforms", 1, 1) + d("lateacts", 1, 1, "a") + d("lateevs", 1, 1, "a") + d("lateprops", 1, 1, "a") + d("lateforms1", 1, 1, "a") + d("prop", 1, 1, ctx="defs") + d("action", 1, 1, ctx="defs") + d("event", 1, 1, ctx="defs") + d("form", 1, 1, ctx="defs") + s("affordances", 1000, 1) + s("responses", 300, 2, parts=1)
    elif p == "C12":
        J += d("longall", 1, 1) + d("deepmore", 1, 1) + d("twoslots", 1, 1) + d("twoevents", 1, 1) + d("twoinside", 1, 1) + d("oneinone", 1, 1) + d("besideschemas", 1, 1) + (d("besideschemas2", 1, 1) if t else []) + d("textschemas", 1, 1) + d("textmany", 1, 1) + d("oddschemas", 1, 1) + near("schemas", "", 2) + near("holders") + near("nests") + d("fullschemas", 1, 1) + d("fullcommon", 1, 1) + d("deepdata", 1, 1) + d("schema", 1, 1) + d("schemaplaces", 1, 1) + d("schema3", 1, 1) + s("schemas", 900, 1) + s("schemas", 300, 2, "a", parts=1)
    elif p == "C13":
        J += d("longall", 1, 1) + d("longsec", 1, 1) + d("besidesecs", 1, 1) + d("textschemes", 1, 1) + d("oddschemes", 1, 1) + near("schemes") + d("fullschemes", 1, 1) + d("fullcombos", 1, 1) + d("schemes", 1, 1) + d("combos", 1, 1) + d("schemes2", 2, 2) + s("schemes", 1200, 1)
    elif p == "C14":
        J += d("longall", 1, 1) + d("deepmore", 1, 1) + d("besidethings", 1, 1) + d("twoinside", 1, 1) + d("twoforms", 1, 1) + d("oneinone", 1, 1) + d("textmany", 1, 1) + d("textlinks", 1, 1) + d("textschemes", 1, 1) + d("textforms", 1, 1) + d("textthings", 1, 1) + d("oddthings", 1, 1) + d("oddschemas", 1, 1) + d("oddschemes", 1, 1) + d("oddforms", 1, 1) + d("oddlinks", 1, 1) + d("fullcommon", 1, 1) + d("many", 1, 1) + d("deepdata", 1, 1) + d("fullthings", 1, 1) + d("schema3", 1, 1) + d("schemes", 1, 1) + d("thing", 2, 2) + d("form", 1, 1, ctx="defs") + s("", 900, 1) + s("", 300, 2, "a,b", parts=1) + s("", 200, 3, "http", parts=1)
    elif p == "C15":
        J += docs("texts") + docs("min") + docs("full") + docs("places" if t else "places0")
        for i, f in enumerate(FAMS):
            J += [j for x in range(4 if t else 1) for j in dsim(2500 if t else 90, seed * 1000 + 10 * i + x, f)]
        if t:
            J += [j for f in FAMS[1:] for b in ("min", "full") for j in docs(b, f)]
    elif p == "C16":
        J += docs("texts") + docs("min") + docs("full") + docs("places" if t else "places0")
        for i, f in enumerate(FAMS):
            J += [j for x in range(4 if t else 1) for j in dsim(2500 if t else 90, seed * 1000 + 500 + 10 * i + x, f)]
        if t:
            J += [j for f in FAMS[1:] for b in ("min", "full") for j in docs(b, f)]
    elif p == "C17":
        J += near("extthing", "a,b") + near("extaffs", "a,b") + near("extforms", "a,b") + near("extschemas", "a,b", 2) + (d("latethings", 1, 1, "a,b", "bare") if t else []) + (d("lateforms", 1, 1, "a,b") if t else []) + (d("lateacts", 1, 1, "a,b") + d("lateevs", 1, 1, "a,b") + d("lateprops", 1, 1, "a,b") if t else []) + d("latethings", 1, 1, "a", "bare") + d("latesplits", 1, 1, "a,b") + d("lateacts", 1, 1, "a") + d("lateevs", 1, 1, "a") + d("lateprops", 1, 1, "a") + d("lateforms1", 1, 1, "a") + d("lateschemas", 1, 1, "a") + d("exts", 1, 1, "a") + d("exts", 1, 1, "a,b") + docs("ext", "a,b" if t else "a", 3) + s("exts", 500, 1, "a") + s("exts", 500, 2, "a,b") + s("exts", 300, 3, "", parts=1)
    elif p == "C18":
        J += near("extforms", "http", 2) + near("extforms", "coap") + near("extforms", "mqtt") + d("lateforms1", 1, 1, "http") + d("lateforms1", 1, 1, "coap") + d("lateforms1", 1, 1, "mqtt") + d("exts", 1, 1, "http") + d("exts", 1, 1, "coap") + d("exts", 1, 1, "mqtt") + docs("ext", "http") + docs("ext", "coap") + docs("ext", "mqtt")
        J += [j for i, f in enumerate(["http", "coap", "mqtt"]) for j in s("protocols", 400, i, f, parts=1)]
    elif p == "C19":
        J += [plain("HLists", MAXLEN=6 if t else 5, DEPTH=8 if t else 6), plain("HUnion", MAXLEN=3)]
    elif p == "C20":
        J += [plain("Limits", TYPE=x) for x in ("f64", "f32", "i64", "u64", "u8")]
    elif p == "C21":
        J += [j for b, n in (("thing", 1), ("forms", 1), ("affs", 1), ("schemas", 2), ("holders", 1), ("nests", 1), ("schemes", 1), ("links", 1)) for j in near(b, "", n)] + (near("extaffs", "a,b") + near("extforms", "a,b") + near("extschemas", "a,b", 2) if t else []) + near("extforms", "a") + [j for i, f in enumerate(FAMS) for j in s("", 130, i, f, alts=1, parts=1)] + s("affordances", 130, 7, alts=1, parts=1) + s("schemas", 130, 8, alts=1, parts=1)
    elif p == "C22":
        J += [j for b, n in (("thing", 1), ("forms", 1), ("affs", 1), ("schemas", 2), ("holders", 1), ("nests", 1), ("schemes", 1), ("links", 1)) for j in near(b, "", n)] + [j for b, n in (("extthing", 1), ("extaffs", 1), ("extforms", 1), ("extschemas", 1)) for j in near(b, "a", n)] + near("extforms", "http", 2) + near("extforms", "coap") + near("extforms", "mqtt") + [j for i, f in enumerate(FAMS) for j in s("", 130, i, f, alts=1, parts=1)] + s("affordances", 130, 7, alts=1, parts=1) + s("schemas", 130, 8, alts=1, parts=1)
    return J
