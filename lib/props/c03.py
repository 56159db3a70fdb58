from fw import *
import feedgen

class Faults(Part):
    name, driver, trace = "faults", "feed", "FeedFaultTrace"
    mc = [("FeedMC", "FeedMC.cfg")]
    mc_thorough = [("FeedMC", "FeedMC2.cfg")]
    case_timeout = 120

    def spec_cases(self, wd):
        n = 40 if self.quick else 800
        st, text = model_check("FeedMC", "FeedGen.cfg", wd, workers=1, args=["-simulate", "num=%d" % n, "-depth", "13", "-seed", str(self.seed)])
        rng = random.Random("spec%s" % self.seed)
        return [self.case(rng, feedgen.from_rows(b, rng)) for b in self.some(printed_json(text))], [st]

    def some(self, q):
        return q[::max(1, len(q) // (120 if self.quick else 3000))]

    def case(self, rng, files):
        return feedgen.complete(dict(files=files, zip=rng.random() < .3, mem=rng.random() < .7, nl=rng.choice(["\n", "\n", "\r\n"])))

    def gen(self, rng):
        return [self.case(rng, feedgen.feed(rng, rng.choice([0, .03, .03, .1, .1, .3]), size=rng.choice([3, 5, 8]))) for _ in range(220 if self.quick else 5000)]

    def nontrivial(self, log):
        return len(log["ev"]) > 5

PARTS = [Faults]
ASSUMPTIONS = ["Cells hold no line breaks, and no two columns of a table have the same name (such tables are the subject of C04).",
               "Numbers are compared in thousandths."]
