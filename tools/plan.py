"""Which scenario families and model-checking runs decide which property."""
TOKEN_FAMS = ["code", "refresh", "password", "clientcred", "jwt", "cassert", "auth"]
AUTHZ_FAMS = ["avalid", "ainter", "anone", "ahint", "alogin", "adone", "acont"]
ALL_FAMS = TOKEN_FAMS + ["res"] + AUTHZ_FAMS

_F = {
    "C01": ["auth", "cassert", "code"],
    "C02": ["auth", "code", "refresh", "password", "clientcred", "jwt"],
    "C03": ["code", "adone"],
    "C04": ["code"],
    "C05": ["code", "acont"],
    "C06": ["code", "acont"],
    "C07": TOKEN_FAMS,
    "C08": ["refresh"],
    "C09": ["password", "clientcred", "jwt"],
    "C10": ["jwt", "cassert"],
    "C11": ["code", "refresh", "password", "clientcred", "jwt"],
    "C12": ["code", "adone", "acont"],
    "C13": ALL_FAMS,
    "C14": TOKEN_FAMS + ["res"],
    "C15": ["avalid", "adone", "acont", "ahint", "alogin"],
    "C16": ["avalid", "adone", "acont", "ahint", "alogin"],
    "C17": ["avalid", "adone", "acont", "anone", "ahint", "alogin", "ainter"],
    "C18": ["avalid", "adone", "acont"],
    "C19": ["avalid"],
    "C20": ["ainter", "anone", "ahint", "alogin"],
    "C21": ["ainter", "anone", "ahint", "alogin"],
    "C22": ["anone", "ahint", "alogin"],
    "C23": ["avalid", "ainter"],
    "C24": ["ainter", "adone", "acont"],
    "C25": ["res"],
    "C26": ["res"],
    "C27": ["res"],
    "C28": [],
    "C29": ["res"],
}


def race(n):
    return {"spec": "Race", "cfg": "Race", "name": "race%d" % n, "depth": n}


def exh(profile, depth, every):
    return {"spec": "Provider", "cfg": "ProviderExh", "name": profile, "profile": profile, "depth": depth, "every": every}


def sim(n, depth=16):
    return {"spec": "Provider", "cfg": "ProviderSim", "name": "histories", "depth": depth, "simulate": n}


# state machines: quick, thorough
_M = {
    "C03": ([sim(400)], [exh("code", 5, 40), sim(6000)]),
    "C04": ([race(1), race(2), sim(400), exh("code", 4, 6)], [race(1), race(2), race(3), exh("code", 5, 20), sim(8000, 24)]),
    "C05": ([sim(400)], [sim(6000)]),
    "C07": ([sim(300), race(4)], [sim(6000), race(1), race(3), race(4)]),
    "C08": ([race(4), sim(400)], [race(4), sim(8000, 24), exh("direct", 4, 100)]),
    "C09": ([sim(400)], [sim(6000), exh("direct", 4, 100)]),
    "C10": ([race(3)], [race(3), sim(4000)]),
    "C11": ([sim(300)], [sim(6000)]),
    "C12": ([sim(300)], [sim(6000)]),
    "C20": ([sim(300)], [sim(6000)]),
    "C21": ([sim(400)], [sim(6000), exh("front", 5, 40)]),
    "C24": ([sim(400)], [sim(6000), exh("code", 5, 40)]),
    "C25": ([sim(400)], [sim(6000), exh("front", 5, 40)]),
    "C29": ([exh("code", 4, 6), exh("front", 4, 6), exh("direct", 3, 1), sim(800)],
            [exh("code", 5, 10), exh("front", 5, 20), exh("direct", 4, 50), sim(12000, 24)]),
}
PLAN = {}
for _p, _l in _F.items():
    # thorough: K=2 in full and random departures of up to five dimensions
    PLAN[_p] = {"quick": {"fams": [f + ":2" for f in _l], "models": _M.get(_p, ([], []))[0]},
                "thorough": {"fams": [f + ":5" for f in _l], "cap": min(60000, 300000 // max(1, len(_l))), "models": _M.get(_p, ([], []))[1]}}
PLAN["C28"] = {"quick": {"fams": ["iso:4", "free:1"]}, "thorough": {"fams": ["iso:1", "free:9"]}}

# registrations, accounts and the issuer changing under the endpoints; endpoints without a clock of their own
for _p in ["C01", "C02", "C07", "C09", "C10", "C12", "C13", "C15", "C17", "C18", "C21", "C22", "C23", "C24", "C25", "C29"]:
    for _t in ("quick", "thorough"):
        PLAN[_p][_t]["fams"].append("change:2")
for _p in ["C05", "C08", "C10", "C12", "C20", "C21", "C22", "C25"]:
    for _t in ("quick", "thorough"):
        PLAN[_p][_t]["fams"].append("wall:2")

PLAN["C30"] = {"quick": {"models": [{"spec": "KeysGen", "cfg": "KeysGen", "name": "narrow", "profile": "narrow", "depth": 3},
                                   {"spec": "KeysGen", "cfg": "KeysGen", "name": "wide", "profile": "wide", "depth": 10, "simulate": 2000}]},
               "thorough": {"models": [{"spec": "KeysGen", "cfg": "KeysGen", "name": "narrow", "profile": "narrow", "depth": 3},
                                      {"spec": "KeysGen", "cfg": "KeysGen", "name": "wide", "profile": "wide", "depth": 16, "simulate": 20000}]}}

NOTES = {"C30": ("TLA+ specification; model checking, replay of its behaviours into the code and trace validation with TLC",
                 "github.com/lestrrat/go-jwx is not available offline: a stand-in (keys/jwx) with the encoding of RFC 7518 takes its place, so goidc's own part is decided, not the library's.")}
NOT_APPLICABLE = {}
