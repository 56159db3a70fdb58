from fw import *
import mergecases

class Merged(Part):
    """Two or three feeds merged one after the other."""
    name, driver, trace = "merged", "merge", "MergeLinkTrace"
    case_timeout = 120
    canary_within = ("a0", "b0", "m", "back", "file", "ok")
    mc = [("MergeMC", "MergeMC.cfg")]
    mc_thorough = [("MergeMC", "MergeMC2.cfg")]

    def gen(self, rng):
        return [mergecases.case(rng) for _ in range(80 if self.quick else 3000)]

    def nontrivial(self, log):
        return any(e["op"] == "merge" for e in log["ev"])

PARTS = [Merged]
ASSUMPTIONS = ["the two feeds load without errors",
               "a feed has at most one transfer for a pair of stops",
               "stops and shape ends lie near the equator, where the distances are computed by plain trigonometry",
               "the feeds' agencies are in one time zone; feed_info.txt is not merged",
               "identifiers of the merged feed are ASCII"]
