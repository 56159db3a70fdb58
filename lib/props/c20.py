from fw import *
import viewcases

class Asked(Part):
    """Requests over HTTP to a viewer of a generated feed."""
    name, driver, trace = "asked", "viewer", "ViewerTrace"
    case_timeout = 120
    mc = [("ViewerMC", "ViewerMC.cfg")]
    mc_thorough = [("ViewerMC", "ViewerMC2.cfg")]

    def gen(self, rng):
        cases = []
        for _ in range(60 if self.quick else 1500):
            f, tab, base = viewcases.feed(rng)
            cases.append(dict(feed=f, tables=tab, gets=viewcases.requests(rng, f, base, 14 if self.quick else 30)))
        return cases

    def nontrivial(self, log):
        return any(e["op"] == "get" and e["o"]["status"] == 200 and e["o"]["ans"] for e in log["ev"])

PARTS = [Asked]
ASSUMPTIONS = ["the feed loads without errors; every trip has stop times", "the times of visits without given times are those of GetTimeInterpolatedStops (decided by C09)", "headways do not multiply the trips shown at a stop or in a pattern", "coordinates are whole thousandths of a degree; stops at exactly equal distances may come in either order"]
