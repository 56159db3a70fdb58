# Loads a feed and records what was reported, row by row, and what the schedule holds.
import os, zipfile, warnings
import transitfeed
from common import *

COLS = {}

def value(v):
  """A value as (kind, text, thousandths): '0' blank, 's' text, 'n' number, 'x' anything else."""
  if v is None or (isinstance(v, basestring) and v == ''):
    return {'z': '0', 't': u'', 'n': 0}
  if isinstance(v, bool):
    return {'z': 'x', 't': txt(v), 'n': 0}
  if isinstance(v, (int, long, float)):
    m = v * 1000
    if m != m:
      return {'z': 'x', 't': txt(v), 'n': 0}
    m = max(-2000000000, min(2000000000, m))
    return {'z': 'n', 't': u'', 'n': int(round(m))}
  if isinstance(v, basestring):
    return {'z': 's', 't': txt(v), 'n': 0}
  return {'z': 'x', 't': txt(v), 'n': 0}

def text_cells(cols, vals):
  return dict((txt(c), txt(v)) for c, v in zip(cols, vals))

def problem(p):
  d = p.__dict__
  has = d.get('row') is not None and d.get('headers') is not None
  return {'cls': ptype(p), 'l': plevel(p), 'c': pcol(p), 'v': value(d.get('value')), 'file': pfile(p), 'row': prow(p),
          'has': has, 'cells': [[txt(c), txt(v)] for c, v in zip(d['headers'], d['row'])] if has else []}

def write(d, case):
  """The feed of the case as a directory or an archive; its path."""
  nl = case.get('nl', '\n').encode('ascii')
  data = {}
  for f, rows in case['files'].items():
    lines = []
    for r in rows:
      line = u','.join(csv_cell(x) for x in r).encode('utf-8')
      if r and not line:
        line = '""'
      lines.append(line + nl)
    data[f] = ''.join(lines)
  if case['zip']:
    path = os.path.join(d, 'feed.zip')
    z = zipfile.ZipFile(path, 'w')
    for f in sorted(data):
      z.writestr(f.encode('utf-8'), data[f])
    z.close()
    return path
  path = os.path.join(d, 'feed')
  os.mkdir(path)
  for f in data:
    h = open(os.path.join(path, f), 'wb')
    h.write(data[f])
    h.close()
  return path

def cells(pairs):
  out = {}
  for c, v in pairs:
    v = value(v)
    if v['z'] != '0':
      out[txt(c)] = v
  return out

REP = None

def entities(s):
  """Everything the schedule holds, in the columns of the tables."""
  res = []
  def add(f, pairs, key=None, ok=True):
    res.append({'f': f, 'c': cells(pairs), 'key': ident(key), 'ok': bool(ok)})
  def public(o, drop=()):
    return [(k, v) for k, v in o.iteritems() if k not in drop]
  for k, a in [(a.agency_id, a) for a in s.GetAgencyList()]:
    add('agency.txt', public(a), k, s.GetAgency(k) is a)
  for k, x in s.stops.items():
    add('stops.txt', public(x), k, s.GetStop(k) is x)
  for k, r in s.routes.items():
    add('routes.txt', public(r), k, s.GetRoute(k) is r)
  for k, t in s.trips.items():
    add('trips.txt', public(t), k, s.GetTrip(k) is t)
    for (a, b, h, e) in t.GetFrequencyTuples():
      add('frequencies.txt', [('trip_id', t.trip_id), ('start_time', a), ('end_time', b), ('headway_secs', h), ('exact_times', e)], k)
    for st in t.GetStopTimes(REP):
      add('stop_times.txt', [('trip_id', t.trip_id), ('arrival_time', st.arrival_secs), ('departure_time', st.departure_secs), ('stop_id', st.stop_id),
                             ('stop_sequence', st.stop_sequence), ('stop_headsign', st.stop_headsign), ('pickup_type', st.pickup_type),
                             ('drop_off_type', st.drop_off_type), ('shape_dist_traveled', st.shape_dist_traveled), ('timepoint', st.timepoint)],
          k, s.stops.get(st.stop_id) is st.stop)
  for k, f in s.fares.items():
    add('fare_attributes.txt', public(f, ('rules',)), k, s.GetFareAttribute(k) is f)
    for r in f.GetFareRuleList():
      add('fare_rules.txt', public(r), k)
  for t in s.GetTransferList():
    add('transfers.txt', public(t))
  for k, sh in [(x.shape_id, x) for x in s.GetShapeList()]:
    for q, p, d in zip(sh.sequence, sh.points, sh.distance):
      add('shapes.txt', [('shape_id', sh.shape_id), ('shape_pt_lat', p[0]), ('shape_pt_lon', p[1]), ('shape_pt_sequence', q), ('shape_dist_traveled', p[2])], k,
          p[2] == d and len(sh.sequence) == len(sh.points) == len(sh.distance))
  for k, p in s.service_periods.items():
    ps = [('service_id', p.service_id), ('start_date', p.start_date), ('end_date', p.end_date)]
    if p.start_date or p.end_date or p.original_day_values:
      add('calendar.txt', ps + [(d, '1' if on else '0') for d, on in zip(('monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday'), p.day_of_week)], k)
    for d, v in p.date_exceptions.items():
      add('calendar_dates.txt', [('service_id', p.service_id), ('date', d), ('exception_type', v[0])], k)
  if s.feed_info is not None:
    add('feed_info.txt', public(s.feed_info))
  return res

def ident(k):
  return u'<absent>' if k is None else txt(k)

def load(path, case, rep, rec=None):
  return transitfeed.Loader(path, problems=rep, extra_validation=False, memory_db=case['mem']).Load()

def run(case):
  global REP
  warnings.simplefilter('ignore')
  with Scratch() as d:
    path = write(d, case)
    rec, rep = reporter()
    s = load(path, case, rep)
    loaded = [problem(p) for p in rec.problems]
    del rec.problems[:]

    REP = rep
    ents = entities(s)
    links = dict((ident(k), [txt(t.trip_id) for t in r.trips]) for k, r in s.routes.items())
    services = sorted(ident(k) for k in s.service_periods)
    shapes = sorted(txt(x.shape_id) for x in s.GetShapeList())
    zones = sorted(txt(z) for z in s.fare_zones)
    del rec.problems[:]
    after, crashed = [], u''
    try:
      s.Validate(rep)
    except Exception as e:
      crashed = txt(e.__class__.__name__)
    after = [problem(p) for p in rec.problems]
  at = {}
  rest = []
  for p in loaded:
    at.setdefault((p['file'], p['row']), []).append(p)
  ev = []
  for x in case['rows']:
    ev.append({'op': 'row', 'x': x, 'o': {'probs': at.pop((x['f'], x['n']), [])}})
  for k in sorted(at):
    rest.extend(at[k])
  ev.append({'op': 'end', 'x': {}, 'o': {'ents': ents, 'links': links, 'services': services, 'shapes': shapes, 'zones': zones,
                                        'rest': rest, 'parents': sorted(set(p['v']['t'] for p in after if p['c'] == 'parent_station' and p['cls'] == 'InvalidValue' and p['row'] < 0)),
                                        'after': [p for p in after if p['row'] >= 0], 'crashed': crashed}})
  return {'ev': ev, 'lex': case['lex'], 'heads': case['heads'], 'odd': case['odd'], 'empty': case['empty']}
