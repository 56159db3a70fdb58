import math
from fw import *

def hav(a, b):
    la, lb = math.radians(a[0]), math.radians(b[0])
    x = math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(math.radians(b[1] - a[1]) / 2) ** 2
    return 2 * math.atan2(math.sqrt(x), math.sqrt(1 - x))

class Interp(Part):
    name, driver, trace = "interp", "interp", "InterpTrace"
    mc_thorough = [("InterpMC", "InterpMC2.cfg")]

    def spec_cases(self, wd):
        st, text = model_check("InterpMC", "InterpMC.cfg", wd, workers=4)
        pats = printed_json(text)
        if self.quick:
            random.Random(self.seed).shuffle(pats)
            pats = pats[:2000]
        for k, p in enumerate(pats):
            # legs of 0, 1, 3 units of a thousandth of a degree along the equator
            # or a meridian, forwards and backwards
            unit = .001
            lat = lon = 0.0
            # along a meridian or the equator great-circle distance is proportional
            # to the difference in degrees
            merid = k % 2
            x, pos = 0, []
            rng = random.Random(k)
            for i in range(len(p["ts"])):
                pos.append([10 + x * unit, 20.0] if merid else [0.0, -5 + x * unit])
                if i < len(p["legs"]):
                    x += p["legs"][i] * rng.choice([1, 1, -1])
            p["pos"] = pos
            p["tol"] = 0
            p["dwell"] = [rng.choice([0, 0, 5]) for _ in pos]
            p["share"] = rng.random() < .3
        return [dict(pats=pats[i:i + 50]) for i in range(0, len(pats), 50)], [st]

    def gen(self, rng):
        cases = []
        for i in range(40 if self.quick else 800):
            pats = []
            for j in range(25):
                n = rng.randrange(2, 12)
                c = [rng.uniform(-75, 75), rng.uniform(-179, 179)]
                pos, ts, cur = [], [], rng.choice([0, 0, rng.randrange(0, 90000)])
                for k in range(n):
                    if pos and rng.random() < .1:
                        pos.append(list(rng.choice(pos)))
                    else:
                        pos.append([c[0] + rng.uniform(-.05, .05), c[1] + rng.uniform(-.1, .1)])
                    if (0 < k < n - 1 and rng.random() < .65) or rng.random() < .03:
                        ts.append(-1)
                    else:
                        ts.append(cur)
                        cur += rng.choice([0, 60, rng.randrange(0, 3000)])
                raw = [hav(pos[k], pos[k + 1]) for k in range(n - 1)]
                tot = sum(raw) or 1
                legs = [int(round(4000 * d / tot)) for d in raw]
                # rounding a leg moves a time by at most legs/D seconds of the interval
                tol, p = 0, None
                for k in range(n):
                    if ts[k] >= 0:
                        if p is not None and k > p + 1:
                            D = sum(legs[p:k])
                            if sum(raw[p:k]) == 0:
                                pass
                            elif D < 200:
                                ts[k - 1] = ts[p]; tol = max(tol, 100000)
                            else:
                                tol = max(tol, 1 + int(abs(ts[k] - ts[p]) * (k - p) / D))
                        p = k
                if tol >= 100000 or tol * 4000 > 1000000000:
                    continue
                pats.append(dict(ts=ts, pos=pos, legs=legs, tol=tol, dwell=[rng.choice([0, 30]) for _ in ts], share=rng.random() < .5))
            cases.append(dict(pats=pats))
        return cases

PARTS = [Interp]
ASSUMPTIONS = ["Great-circle distances of the generated stops are computed by the harness (independent of the code) and handed to the specification as integers; on the axes they are exact, elsewhere the clause allows the rounding of the legs."]
