from common import *
from transitfeed.shapepoint import ShapePoint

def quarters(x):
  return -1 if x is None else int(round(x * 4))

def milli(x):
  return int(round(x * 1000))

def points(sh):
  return [{'seq': int(q), 'lat': milli(p[0]), 'lon': milli(p[1]), 'dist': quarters(p[2])} for q, p in zip(sh.sequence, sh.points)]

def problems(ps):
  rep, cols, odd = {'seq': 0, 'dist': 0}, [], 0
  for p in ps:
    reason = txt(p.__dict__.get('reason'))
    if ptype(p) in ('InvalidFloatValue', 'InvalidNonNegativeIntegerValue'): odd += 1
    elif ptype(p) == 'InvalidValue' and 'more than once' in reason: rep['seq'] += 1
    elif ptype(p) == 'InvalidValue' and pcol(p) == 'shape_dist_traveled' and 'Each subsequent' in reason: rep['dist'] += 1
    elif ptype(p) in ('InvalidValue', 'MissingValue'): cols.append(pcol(p))
    else: cols.append('other ' + ptype(p))
  return {'rep': rep, 'cols': cols, 'odd': odd}

def at(ev, sh, sid, ds):
  for d in ds:
    for v in ([d / 4.0] + ([d // 4] if d % 4 == 0 else [])):
      p = sh.GetPointWithDistanceTraveled(v)
      o = {'found': p is not None}
      if p is not None:
        o.update(lat=milli(p[0]), lon=milli(p[1]), dist=quarters(p[2]))
      ev.append({'op': 'at', 'id': sid, 'd': d, 'o': o})

def run(case):
  if case['mode'] == 'api':
    return api(case)
  with Scratch() as d:
    return load(case, d)

def num(v, how):
  """A thousandth/quarter integer as the native value wanted."""
  return v

def api(case):
  sh = transitfeed.Shape('S')
  ev = []
  for op in case['ops']:
    r, rep = reporter()
    if op['op'] == 'clear':
      sh.ClearPoints()
      o = {'points': points(sh), 'max': quarters(sh.max_distance)}
      ev.append({'op': 'clear', 'id': '', 'o': o})
    else:
      p, v = op['p'], op['v']
      if op['op'] == 'add':
        pt = ShapePoint('S' if op['bad'] != 'shape_id' else '', v['lat'], v['lon'], v['seq'], v['dist'])
        if pt.ParseAttributes(rep):
          sh.AddShapePointObjectUnsorted(pt, rep)
      else:
        sh.AddPoint(v['lat'], v['lon'], v['dist'], rep)
      o = problems(r.problems)
      o.update(points=points(sh), max=quarters(sh.max_distance))
      ev.append({'op': op['op'], 'id': '', 'p': p, 'bad': op['bad'], 'odd': op['odd'], 'o': o})
    at(ev, sh, '', op.get('at', []))
  return {'mode': 'api', 'ev': ev}

COLS = ['shape_id', 'shape_pt_lat', 'shape_pt_lon', 'shape_pt_sequence', 'shape_dist_traveled']

def load(case, d):
  tables = basic_tables(stops=[('s1', 36.5, -117.0), ('s2', 36.6, -117.0)])
  tables['trips.txt'] = [['route_id', 'service_id', 'trip_id', 'shape_id']] + [['R', 'FULLW', 'T%d' % i, u] for i, u in enumerate(case['used'])]
  for i, u in enumerate(case['used']):
    for j in (1, 2):
      tables['stop_times.txt'].append(['T%d' % i, hms(36000 + 600 * j), hms(36000 + 600 * j), 's%d' % j, j])
  tables['shapes.txt'] = [COLS] + [[op['id']] + [op['v'][k] for k in ('lat', 'lon', 'seq', 'dist')] for op in case['ops']]
  write_feed(d, tables)
  r, rep = reporter()
  sched = transitfeed.Loader(d, problems=rep, memory_db=True, extra_validation=True).Load()
  rows, unused = {}, []
  for p in r.problems:
    if pfile(p) == 'shapes.txt': rows.setdefault(prow(p), []).append(p)
    elif ptype(p) == 'OtherProblem' and 'shape' in txt(p.description):
      d = txt(p.description)
      unused += [x.strip() for x in d.split(':')[-1].split(',')]
  ev = []
  for i, op in enumerate(case['ops']):
    ev.append({'op': 'add', 'id': op['id'], 'p': op['p'], 'bad': op['bad'], 'odd': op['odd'], 'o': problems(rows.get(i + 2, []))})
  ev.append({'op': 'shapes', 'used': case['used'], 'o': {
    'shapes': [{'id': txt(x.shape_id), 'points': points(x), 'max': quarters(x.max_distance)} for x in sched.GetShapeList()],
    'unused': unused}})
  if not any(e['bad'] == '' and e['o']['rep']['seq'] for e in ev[:-1]):
    for x in sched.GetShapeList():
      at(ev, x, txt(x.shape_id), case['at'])
  return {'mode': 'load', 'ev': ev}
