"""C02: what the device signs is exactly what its user confirmed, whatever the host sends afterwards"""
from sim import adversary, core, host, world
from sim.props import common

LEVEL = "exploration"
RUNS = {"quick": 480, "thorough": 12000}
CAP = {"quick": 150, "thorough": 800}
RULE = ("A run is one or two transactions offered to one real device by a scripted host which follows the protocol "
        "except for drawn tampering of the messages after the confirmation (fields, destinations, amounts shifted "
        "between outputs, sources, rings, permutations, range proofs, messages of other steps or of the other "
        "session, consistent lies about sources), and which never validates the answers. Non-trivial: at least one "
        "message was altered before the run ended; distinct by the digest of the exchange.")
SHAPE = "(step and kind of each alteration, position, protocol variant, inputs, outputs, point of refusal)"
REAL = ["device (TokenLite, TsxSigner, transaction builder)", "protobuf codec", "bulletproofs", "MLSAG", "EC library"]
STUB = ["host (scripted adversary)", "user at the device (scripted)", "blockchain (generated world)",
        "random source (seeded)"]
ASSUME = ["curve arithmetic and keccak of the installed trezor-crypto C library are correct (shared with the oracle)"]
shrink = core.shrink_with_spec(("ops", "lies", "forge"), ())


def scan(rng):
    """one transaction with many equal parts, tried again and again with another pair of them exchanged"""
    import copy
    kind = rng.choice(["dst", "dst", "dst", "vin"])
    n = rng.randint(4, 9) if kind == "dst" else rng.randint(3, 6)
    while True:
        s = world.gen_spec(rng, max_in=1 if kind == "dst" else n, max_out=n + 1 if kind == "dst" else 3)
        if s["kind"] != "sweep" and s["pid"] != "short" and len(s["dests"] if kind == "dst" else s["srcs"]) >= n - 1:
            break
    for j, d in enumerate(s["dests"]):
        d.update(w="r%d" % (j % 4), major=j // 4, minor=j // 4)
    common.equal_parts(s)
    m = len(s["dests"]) if kind == "dst" else len(s["srcs"])
    pairs = []
    for d in range(1, m):       # every distance
        a = rng.randrange(m - d)
        pairs.append(rng.choice([(a, a + d), (a + d, a)]))
    rng.shuffle(pairs)
    specs, forge, ops = [], [], []
    for a, b in pairs:
        f = {"s": len(specs), "i": a, "j": b, "r": rng.randint(0, 1 << 30), "auth": "origin", "x": False,
             "swap": rng.random() < 0.3, "k": kind, "pay": "dst" if kind == "dst" else "all", "at": ["vini", "sign"]}
        ops += [[len(specs), op, []] for op in host.canonical(world.WTx(s))]
        specs.append(copy.deepcopy(s))
        forge.append(f)
    return {"specs": specs, "ops": ops, "lies": [], "forge": forge}


def plan(rng, tier, i):
    if i % 16 == 5:
        return scan(rng)
    two = rng.random() < 0.3
    mx = rng.choice([2, 3, 3, 5])
    specs = [world.gen_spec(rng, max_in=3, max_out=mx)]
    if i % 30 == 29:
        specs = [world.gen_spec(rng, small=False, max_in=2, max_out=17, hfs=(10, 9))]
        two = False
    if two:
        o = world.gen_spec(rng, max_in=3, max_out=3)
        if rng.random() < 0.5:      # same transaction with another recipient / fee: donors fit
            import copy
            o = copy.deepcopy(specs[0])
            o["seed"] = rng.choice([o["seed"], rng.randint(0, 1 << 40)])
            for d in o["dests"]:
                d["w"] = "thief" if rng.random() < 0.5 else d["w"]
        specs.insert(0, o)
    main = len(specs) - 1
    ops = []
    if two:
        first = host.canonical(world.WTx(specs[0]))
        cut = rng.choice([len(first), len(first), rng.randint(1, len(first))])
        ops += [[0, op, []] for op in first[:cut]]
        ops[0:0] = []
    can = [[main, op, []] for op in host.canonical(world.WTx(specs[main]))]
    mode = rng.random()
    lies = []
    outs = [n for n, x in enumerate(can) if x[1][0] == "out"]
    forge = []
    if rng.random() < 0.35:
        mode = 2.0
        forge.append(common.forgery(rng, main, two))
        if rng.random() < 0.6:
            common.equal_parts(specs[main])
            if two and len(specs[0]["dests"]) == len(specs[main]["dests"]):
                common.equal_parts(specs[0])
    elif mode < 0.08:
        lies.append([main, rng.randrange(len(specs[main]["srcs"])), rng.randint(0, 1 << 30)])
    elif mode < 0.18 and len(outs) > 1:
        a, b = rng.sample(outs, 2)
        d = rng.choice([1, 7, 1000, specs[main]["fee"]])
        can[a][2].append({"k": "shift", "d": d, "r": 0})
        can[b][2].append({"k": "shift", "d": -d, "r": 0})
    elif mode < 0.22 and outs:
        d = rng.choice([-1, 1, specs[main]["fee"]])
        can[rng.choice(outs)][2].append({"k": "shift", "d": d, "r": 0})
    elif mode < 2:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            n = rng.randrange(1, len(can))
            if rng.random() < 0.25:
                n = len(can) - 2        # the last signature
            can[n][2].append(common.mutation(rng, can[n][1][0]))
    if rng.random() < 0.08:
        can.insert(rng.randrange(1, len(can)), [main, ["replay", rng.randrange(60)], []])
    ops += can
    return {"specs": specs, "ops": ops, "lies": lies, "forge": forge}


def execute(plan, st):
    a = adversary.Arena(plan, st)
    a.go()
    common.shape_of(a, st, plan)
