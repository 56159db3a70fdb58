from fw import *

class Calendar(Part):
    name, driver, trace = "calendar", "calendar", "CalendarTrace"
    mc = [("CalendarMC", "CalendarMC.cfg")]
    mc_thorough = [("CalendarMC", "CalendarMC2.cfg")]

    def spec_cases(self, wd):
        n = 5 if self.quick else 120
        st, text = model_check("CalendarMC", "CalendarGen.cfg", wd, workers=1,
                               args=["-simulate", "num=%d" % n, "-depth", "9", "-seed", str(self.seed)])
        return [dict(ops=h, base=100 + (37 * i) % 30000, lo=-1, hi=24) for i, h in enumerate(printed_json(text))], [st]

    def gen(self, rng):
        cases = []
        for i in range(250 if self.quick else 6000):
            # bases around month and year ends, leap days and daylight-saving weeks
            base = rng.choice([59, 365, 366, 424, 1520, 3650, 7364, 9131, 36524 - 20, rng.randrange(100, 20000)])
            w = rng.choice([10, 30, 60])
            ops = []
            for j in range(rng.randrange(2, 11)):
                d = rng.randrange(0, w)
                k = rng.random()
                if k < .15: ops.append(dict(op="start", d=rng.choice([d, d, d // 3, -1])))
                elif k < .3: ops.append(dict(op="end", d=rng.choice([d, d, w - d // 3, -1])))
                elif k < .45: ops.append(dict(op="dow", i=rng.randrange(7), b=rng.random() < .7))
                elif k < .53: ops.append(dict(op=rng.choice(["weekday", "weekend"]), b=rng.random() < .8))
                elif k < .9:
                    old = [o["d"] for o in ops if o["op"] == "exc"]
                    dd = rng.choice(old) if old and rng.random() < .25 else d
                    ops.append(dict(op="exc", d=dd, b=rng.random() < .5))
                else:
                    old = [o["d"] for o in ops if o["op"] == "exc"]
                    ops.append(dict(op="reset", d=rng.choice(old) if old and rng.random() < .7 else d))
            cases.append(dict(ops=ops, base=base, lo=-2, hi=w + 2))
        return cases

    def nontrivial(self, log):
        return any(e["o"]["dates"] for e in log["ev"])

PARTS = [Calendar]
ASSUMPTIONS = ["Dates are observed in windows of up to 65 days around the edited dates."]
