from checks.gpcommon import *


def run(ck):
    plans = ck.model("Numbers", mcfg(["ReadsBack", "Tidy", "Leading"], [], dict(Groups="MCGroups", MaxGroups=3 if ck.tier == "quick" else 4)).replace("Groups = MC", "Groups <- MC"), "Numbers", workers=8, tag="PLAN")
    full = ck.model("Numbers", mcfg(["ReadsBack", "Tidy", "Leading"], [], dict(Groups="MCFull", MaxGroups=1)).replace("Groups = MC", "Groups <- MC"), "Numbers below a thousand", workers=8, tag="PLAN")
    if ck.tier == "thorough":
        full += ck.model("Numbers", mcfg(["ReadsBack", "Tidy"], [], dict(Groups="MCMid", MaxGroups=2)).replace("Groups = MC", "Groups <- MC"), "Numbers below 320320", workers=8, tag="PLAN")
    nums = dict((p, [h["n"] for h in plans + full if h["pref"] == p]) for p in (True, False))
    rng = ck.rng
    nums[True] += [[k // 1000, k % 1000] for k in (range(1000, 10000) if ck.tier == "thorough" else rng.sample(range(1000, 10000), 2500))]
    for _ in range(ck.n(1500, 60000)):
        g = [rng.choice([0, 0, 1, rng.randint(0, 999), 100 * rng.randint(0, 9), rng.randint(0, 99)]) for _ in range(rng.randint(1, 8))]
        nums[rng.random() < .5].append(g)
    ops = []
    for p, q in nums.items():
        rng.shuffle(q)
        ops += [dict(op="spell", nums=q[k:k + 50], pref=p, kw=rng.random() < .5, long=rng.random() < .2) for k in range(0, len(q), 50)]
    out = [dict(run="n%d" % k, params={}, ops=ops[k:k + 10]) for k in range(0, len(ops), 10)]
    tr = ck.drive("number_driver.py", out)
    ck.judge("NumbersTrace", tr, tcfg())
