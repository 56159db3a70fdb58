# The shape importer run as a program, with a stand-in for the library that reads shapefiles.
from common import *
import math, imp, types, json, zipfile, csv, StringIO, hashlib
R = 6371010.0
REPO = os.environ.get('VERIF_REPO', '/repo')

def deg(p): return float('%.9f' % (8 + math.degrees(p / R)))
def pos(v): return int(round(math.radians(float(v) - 8) * R))

class Geometry(object):
  def __init__(self, pts): self.pts = pts
  def GetPointCount(self): return len(self.pts)
  def GetX(self, j): return deg(self.pts[j])
  def GetY(self, j): return 0.0
class Feature(object):
  def __init__(self, f): self.f = f
  def GetGeometryRef(self): return Geometry(self.f['pts'])
  def GetField(self, col): return self.f['cols'].get(col)     # None for unknown columns, as ogr
  def GetFieldAsString(self, j): return '%s' % sorted(self.f['cols'].items())[j][1]
class Layer(object):
  def __init__(self, fs): self.fs = fs
  def __len__(self): return len(self.fs)
  def GetFeature(self, i): return Feature(self.fs[i])
class Source(object):
  def __init__(self, fs): self.fs = fs
  def GetLayer(self, n): return Layer(self.fs)

def read(path):
  z = zipfile.ZipFile(path)
  out = {}
  for f in z.namelist():
    out[f] = [[x.decode('utf-8') for x in r] for r in csv.reader(StringIO.StringIO(z.read(f)))]
  z.close()
  return out

def rows(tab, f):
  t = tab.get(f, [[]])
  return [dict((k, v) for k, v in zip(t[0], r) if v != u'') for r in t[1:]]

def digest(tab):
  rest = []
  for f in tab:
    if f == 'shapes.txt':
      continue
    for d in rows(tab, f):
      d.pop(u'shape_id', None)
      rest.append(repr((f, sorted(d.items()))))
  return hashlib.md5('\n'.join(sorted(rest))).hexdigest()

def run(case):
  with Scratch() as d:
    src, a, b = os.path.join(d, 'src'), os.path.join(d, 'a.zip'), os.path.join(d, 'b.zip')
    os.mkdir(src)
    write_feed(src, case['tables'])
    r, rep = reporter()
    sched = transitfeed.Schedule(problem_reporter=rep, memory_db=True)
    sched.Load(src)
    sched.WriteGoogleTransitFeed(a)       # as the library writes it
    argv = ['shape_importer.py', '--source_gtfs', a, '--dest_gtfs', b, '--max_distance', '%d' % case['feed']['max'], '--verbosity', '%d' % case['verbosity']]
    if case['keys']:
      argv += ['--keycols', ','.join(case['keys'])]
    if case['extra']:
      write_feed(d, {'extra.txt': case['extra']})
      argv += ['--extra_shapes', os.path.join(d, 'extra.txt')]
    argv += sorted(case['files'])
    ogr = types.ModuleType('ogr')
    ogr.Open = lambda f: Source(case['files'][f])
    sys.modules['ogr'] = ogr
    keep = sys.argv, sys.stdout, sys.stderr
    sys.argv = argv
    sys.stdout = sys.stderr = open(os.devnull, 'w')
    ok = True
    try:
      try:
        execfile(os.path.join(REPO, 'shape_importer.py'), {'__name__': '__main__', '__file__': 'shape_importer.py'})
      except SystemExit:
        ok = False
      except Exception:
        ok = False
    finally:
      sys.stdout.close()
      sys.argv, sys.stdout, sys.stderr = keep
    o = {'ok': ok and os.path.exists(b), 'trips': [], 'shapes': [], 'rest': '', 'rest0': digest(read(a))}
    if o['ok']:
      tab = read(b)
      o['rest'] = digest(tab)
      o['trips'] = [[x.get('trip_id', ''), x.get('shape_id', '')] for x in rows(tab, 'trips.txt')]
      sh = {}
      for x in rows(tab, 'shapes.txt'):
        sh.setdefault(x['shape_id'], []).append((int(x['shape_pt_sequence']), pos(x['shape_pt_lon'])))
      o['shapes'] = [[k, [p for n, p in sorted(v)]] for k, v in sorted(sh.items())]
    return {'ev': [{'op': 'import', 'o': o}], 'feed': case['feed']}
