from common import *
import math, StringIO
from transitfeed import shapelib
R = 6371010.0

class Line(object):
  """A great circle: a meridian, the equator, or one across both."""
  def __init__(self, kind):
    self.kind = kind
  def point(self, p):
    a = p / R
    k = self.kind
    if k == 'meridian':
      return shapelib.Point.FromLatLng(math.degrees(a), 8.0)
    if k == 'equator':
      return shapelib.Point.FromLatLng(0, math.degrees(a))
    if k == 'date':
      d = 180 + math.degrees(a)
      return shapelib.Point.FromLatLng(0, d - 360 if d > 180 else d)
    # inclined by 40 degrees
    t = math.radians(40)
    return shapelib.Point(math.cos(a), math.sin(a) * math.cos(t), math.sin(a) * math.sin(t)).Normalize()
  def pos(self, q):
    k = self.kind
    if k == 'meridian':
      a = math.radians(q.ToLatLng()[0])
    elif k == 'equator':
      a = math.radians(q.ToLatLng()[1])
    elif k == 'date':
      l = q.ToLatLng()[1]
      a = math.radians(l - 180 if l > 0 else l + 180)
    else:
      t = math.radians(40)
      a = math.atan2(q.y * math.cos(t) + q.z * math.sin(t), q.x)
    return int(round(a * R))

def run(case):
  line = Line(case['line'])
  cache = {}
  def pt(p):
    return cache.setdefault(p, line.point(p))
  def poly(pts, name=None):
    if case['adds']:
      q = shapelib.Poly([], name)
      for p in pts:
        q.AddPoint(pt(p))
      return q
    return shapelib.Poly([pt(p) for p in pts], name)
  def out(q):
    return [line.pos(p) for p in q.GetPoints()]
  g = shapelib.PolyGraph() if case['graph'] else shapelib.PolyCollection()
  known, keep, ev = {}, [], []
  quiet, sys.stdout = sys.stdout, StringIO.StringIO()
  try:
    for e in case['ops']:
      e = dict(e)
      k = e['op']
      if k == 'add':
        q = poly(e['pts'], e['name'])
        keep.append(q)
        known[id(q)] = e['k'] = len(keep)
        g.AddPoly(q)
        o = {'num': g.NumPolys(), 'len': int(round(q.LengthMeters())), 'rev': out(q.Reversed())}
      elif k == 'path':
        o = path(g.ShortestPath(pt(e['s']), pt(e['g'])), out)
      elif k == 'multi':
        o = path(g.FindShortestMultiPointPath([pt(p) for p in e['pts']], e['r'], keep_best_n=e['n'], verbosity=e['v']), out)
      elif k == 'match':
        o = {'found': [known.get(id(q), 0) for q in g.FindMatchingPolys(pt(e['s']), pt(e['g']), e['r'])]}
      elif k == 'closest':
        q = poly(e['pts'])
        p, i = q.GetClosestPoint(pt(e['x']))
        a, b = q.CutAtClosestPoint(pt(e['x']))
        o = {'pos': line.pos(p), 'i': i + 1, 'a': out(a), 'b': out(b)}
      elif k == 'greedy':
        o = {'max': int(round(poly(e['pts']).GreedyPolyMatchDist(poly(e['shape']))))}
      elif k == 'merge':
        m = shapelib.Poly.MergePolys([poly(p, n or None) for p, n in zip(e['polys'], e['names'])], merge_point_threshold=e['t'] + .5)
        o = {'pts': out(m), 'name': m.GetName()}
      e['o'] = o
      ev.append(e)
  finally:
    sys.stdout = quiet
  return {'ev': ev}

def path(q, out):
  if q is None:
    return {'none': True, 'names': [], 'pts': [], 'len': 0}
  return {'none': False, 'names': [n for n in q.GetName().split(';') if n], 'pts': out(q), 'len': int(round(q.LengthMeters())) if q.GetNumPoints() else 0}
