from common import *
RAD = 6378135.0
def lat(m):
  return m / RAD * 57.29577951308232

def defect(p):
  k, col = ptype(p), pcol(p)
  if k == 'DuplicateID': return 'duplicate'
  if k == 'MinimumTransferTimeSetWithInvalidTransferType': return 'time without type 2'
  if k == 'TransferDistanceTooBig': return 'distance' if p.IsError() else 'long distance'
  if k == 'TransferWalkingSpeedTooFast': return 'too fast'
  if k == 'InvalidValue' and col == 'min_transfer_time' and p.IsWarning(): return 'large min_transfer_time'
  if k in ('MissingValue', 'InvalidValue'): return col
  return 'other ' + k

FARE = ['fare_id', 'price', 'currency_type', 'payment_method', 'transfers', 'transfer_duration']
RULE = ['fare_id', 'route_id', 'origin_id', 'destination_id', 'contains_id']
TRAN = ['from_stop_id', 'to_stop_id', 'transfer_type', 'min_transfer_time']
STOP = ['stop_id', 'stop_name', 'stop_lat', 'stop_lon', 'zone_id']

def state(sched, other):
  return {'op': 'state', 'o': {
    'zones': sorted(sched.GetFareZones()),
    'fares': sorted([{'id': txt(f.fare_id), 'tag': int(f.tag), 'rules': [int(r.tag) for r in f.GetFareRuleList()]} for f in sched.GetFareAttributeList()], key=lambda x: x['id']),
    'transfers': [int(t.tag) for t in sched.GetTransferIter()],
    'other': other}}

def run(case):
  with Scratch() as d:
    return load(case, d) if case['mode'] == 'load' else api(case)

def load(case, d):
  tables = basic_tables(routes=[(r, 3) for r in case['routes']] or [('zzz', 3)])
  tables['stops.txt'] = [STOP] + [[s['x']['id'], 'Stop', '' if s['x']['pos'][0] == 0 else '%.12f' % lat(s['x']['pos'][1]), '' if s['x']['pos'][0] == 0 else '33.0', s['x']['zone']] for s in case['stops']]
  for f, cols, key in (('fare_attributes.txt', FARE, 'fares'), ('fare_rules.txt', RULE, 'rules'), ('transfers.txt', TRAN, 'transfers')):
    if case[key]:
      tables[f] = [cols + ['tag']] + [[r['row'].get(c, '') for c in cols] + [r['x']['tag']] for r in case[key]]
  write_feed(d, tables)
  r, rep = reporter()
  sched = transitfeed.Loader(d, problems=rep, memory_db=True).Load()
  rows, other = {}, []
  for p in r.problems:
    if pfile(p) in ('fare_attributes.txt', 'fare_rules.txt', 'transfers.txt') and prow(p) >= 2:
      rows.setdefault((pfile(p), prow(p)), []).append(defect(p))
    elif ptype(p) in ('TransferDistanceTooBig', 'TransferWalkingSpeedTooFast', 'MinimumTransferTimeSetWithInvalidTransferType') or pcol(p) in ('fare_id', 'from_stop_id', 'to_stop_id', 'min_transfer_time'):
      other.append(ptype(p))
  ev = [{'op': 'route', 'x': i} for i in case['routes']] + [{'op': 'stop', 'x': s['x']} for s in case['stops']]
  for f, key, op in (('fare_attributes.txt', 'fares', 'fare'), ('fare_rules.txt', 'rules', 'rule'), ('transfers.txt', 'transfers', 'load')):
    for i, x in enumerate(case[key]):
      ev.append({'op': op, 'x': x['x'], 'o': {'rep': rows.get((f, i + 2), [])}})
  ev.append(state(sched, other))
  ev[-1]['o']['zones'] = [txt(z) for z in ev[-1]['o']['zones']]
  return {'ev': ev}

def val(x, cast=None):
  """A native value for the API."""
  if x['k'] == 'none': return None
  return x['v'] if x['k'] == 'int' else x['t']

def api(case):
  r0, rep0 = reporter()
  sched = transitfeed.Schedule(problem_reporter=rep0, memory_db=True)
  sched.AddAgency('Demo', 'http://example.com', 'America/Los_Angeles', agency_id='DTA')
  ev, added = [], {}
  for step in case['steps']:
    x, row = step['x'], step.get('row')
    r, rep = reporter()
    n0 = len(r0.problems)
    op = step['op']
    o = {}
    if op == 'route':
      sched.AddRouteObject(transitfeed.Route(short_name='N' + x, long_name='Long ' + x, route_type=3, route_id=x, agency_id='DTA'), rep)
    elif op == 'stop':
      s = transitfeed.Stop(stop_id=x['id'], name='Stop', lat=lat(x['pos'][1]) if x['pos'][0] else None, lng=33.0 if x['pos'][0] else None)
      if x['zone']: s.zone_id = x['zone']
      sched.AddStopObject(s, rep)
    elif op == 'fare':
      row = dict(row)
      f = transitfeed.FareAttribute(fare_id=row['fare_id'], price=row['price'], currency_type=row['currency_type'], payment_method=row['payment_method'],
                                    transfers=row['transfers'], transfer_duration=row['transfer_duration'])
      f.tag = x['tag']
      sched.AddFareAttributeObject(f, rep)
    elif op == 'rule':
      f = transitfeed.FareRule(**dict((str(k), v) for k, v in row.items()))
      f.tag = x['tag']
      sched.AddFareRuleObject(f, rep)
    elif op == 'add':
      t = transitfeed.Transfer(**dict((str(k), v) for k, v in row.items()))
      t.tag = x['tag']
      sched.AddTransferObject(t, rep)
      added[x['tag']] = t
    elif op == 'validate':
      added[x['tag']].Validate(rep)
    o['rep'] = [defect(p) for p in r.problems]
    o['stray'] = len(r0.problems) - n0
    ev.append({'op': op, 'x': x, 'o': o})
  ev.append(state(sched, [ptype(p) for p in r0.problems]))
  ev[-1]['o']['zones'] = [txt(z) for z in ev[-1]['o']['zones']]
  return {'ev': ev}
