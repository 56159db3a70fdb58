from fw import *
import feedgen

class Defects(Part):
    name, driver, trace = "defects", "robust", "FeedRobustTrace"
    canary_within = ("crash", "ents")
    case_timeout = 120
    mc = [("ReaderMC", "ReaderMC.cfg")]
    mc_thorough = [("ReaderMC", "ReaderMC2.cfg")]

    def spec_cases(self, wd):
        n = 30 if self.quick else 1500
        st, text = model_check("ReaderMC", "ReaderGen.cfg", wd, workers=1, args=["-simulate", "num=%d" % n, "-depth", "8", "-seed", str(self.seed)])
        rng = random.Random("spec%s" % self.seed)
        q = printed_json(text)
        q = q[::max(1, len(q) // (80 if self.quick else 4000))]
        return [feedgen.from_reader(rng, b[0], b[1], i) for i, b in enumerate(q)], [st]

    def gen(self, rng):
        return [feedgen.broken(rng, feedgen.feed(rng, rng.choice([0, 0, .05, .2]), size=rng.choice([3, 5, 8])), rng.choice([0, .1, .3, .3, .6, 1]), k)
                for k in range(160 if self.quick else 6000)]

    def nontrivial(self, log):
        return len(log["ev"]) == 4

class Bytes(Part):
    name, driver, trace = "bytes", "robust", "FeedRobustTrace"
    canary_within = ("crash",)
    canaries = 6
    case_timeout = 120

    def gen(self, rng):
        return [feedgen.wild(rng, k) for k in range(200 if self.quick else 8000)]

    def nontrivial(self, log):
        return len(log["ev"]) == 4

PARTS = [Defects, Bytes]
ASSUMPTIONS = ["Malformed UTF-16 with half a surrogate pair is left out: Jython's own decoder fails with a Java exception there."]
