# Feeds with what the Google extension adds: loaded, validated, edited, written and read again.
from common import *
import json
import extensions.googletransit as ext

COLS = ('stop_name', 'location_type', 'stop_timezone', 'parent_station', 'vehicle_type', 'co2_per_km', 'route_type', 'agency_id')

def rep3(p):
  m = ptype(p) == 'MissingValue'
  return [pcol(p), u'' if m else txt(pval(p)), u'missing' if m else plevel(p)]

def ours(r):
  return [p for p in r.problems if pcol(p) in COLS]

def load(path):
  r, rep = reporter()
  f = ext.GetGtfsFactory()
  s = f.Loader(path, problems=rep, extra_validation=False, memory_db=True, gtfs_factory=f).Load()
  return s, r

def num(v):
  return -1 if v is None or txt(v) == u'' else int(v)

def milli(v):
  try:
    return -1 if v is None or txt(v) == u'' else int(round(float(v) * 1000))
  except ValueError:
    return -2

def kept(s, w):
  g = lambda x, k: x.__dict__.get(k) if k in x.__dict__ else getattr(x, k, None)
  return {'stops': [[num(g(s.GetStop(x['id']), 'vehicle_type')), num(g(s.GetStop(x['id']), 'location_type')), txt(g(s.GetStop(x['id']), 'platform_code'))] for x in w['stops']],
          'routes': [[num(g(s.GetRoute(x['id']), 'route_type')), milli(g(s.GetRoute(x['id']), 'co2_per_km'))] for x in w['routes']],
          'fares': [txt(g(s.GetFareAttribute(x['id']), 'agency_id')) for x in w['fares']]}

def run(case):
  w = json.loads(json.dumps(case['w']))
  ev = []
  with Scratch() as d:
    fd = os.path.join(d, 'f')
    os.mkdir(fd)
    write_feed(fd, case['tables'])
    s, r = load(fd)
    o = {'stops': [[] for _ in w['stops']], 'routes': [[] for _ in w['routes']], 'fares': [[] for _ in w['fares']]}
    for p in ours(r):
      t = {'stops.txt': 'stops', 'routes.txt': 'routes', 'fare_attributes.txt': 'fares'}.get(pfile(p))
      i = prow(p) - 2
      if t and 0 <= i < len(o[t]):
        o[t][i].append(rep3(p))
      else:
        o['stops'].append([rep3(p)])
    o['kept'] = kept(s, w)
    ev.append({'op': 'load', 'o': o})
    for n, e in enumerate(case['edits']):
      if e['op'] == 'validate':
        r, rep = reporter()
        s.Validate(rep, validate_children=e['children'], today=datetime.date(2026, 6, 1))
        ev.append({'op': 'validate', 'children': e['children'], 'o': {'all': [rep3(p) for p in ours(r)],
            'unused': [txt(p.__dict__['stop_id']) for p in r.problems if ptype(p) == 'UnusedStop'],
            'fast': [txt(p.__dict__['trip_id'])[2:] for p in r.problems if ptype(p) == 'TooFastTravel' and txt(p.__dict__['trip_id']).startswith('t_')]}})
      elif e['op'] == 'reload':
        path = os.path.join(d, 'w%d.zip' % n)
        s.WriteGoogleTransitFeed(path)
        s2, r = load(path)
        ev.append({'op': 'reload', 'o': {'all': [rep3(p) for p in ours(r)], 'kept': kept(s2, w)}})
      else:
        k = {'stop': 'stops', 'route': 'routes'}[e['op']]
        i = e['at'] - 1
        x = s.GetStop(w[k][i]['id']) if e['op'] == 'stop' else s.GetRoute(w[k][i]['id'])
        for f, v in e['set']:
          setattr(x, str(f), v)
        w[k][i] = e['new']
        ev.append({'op': e['op'], 'at': e['at'], 'new': e['new'], 'o': {}})
  return {'w': case['w'], 'ev': ev}
