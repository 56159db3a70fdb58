from common import *
import math
COLS = ['stop_id', 'stop_name', 'stop_desc', 'stop_lat', 'stop_lon', 'location_type', 'parent_station', 'stop_timezone', 'stop_url', 'wheelchair_boarding']

def defect(p):
  k, col = ptype(p), pcol(p)
  reason = txt(p.__dict__.get('reason'))
  if k == 'MissingValue':
    return 'missing ' + col
  if k == 'InvalidValue':
    if col == 'stop_lat' and 'close' in reason: return 'near origin'
    if col == 'stop_desc': return 'description repeats name'
    if col == 'parent_station' and 'must not' in reason: return 'station with parent'
    if col == 'stop_timezone' and 'parent' in reason: return 'child with time zone'
    return col
  return 'other ' + k

def no(sid):
  return int(txt(sid).split('_')[-1])

def run(case):
  with Scratch() as d:
    return run_in(case, d)

def run_in(case, d):
  tables = basic_tables(trips=[('T0', 'R'), ('T1', 'R')])
  stops = case['stops']
  order = case['order']
  tables['stops.txt'] = [COLS] + [[case['rows'][i].get(k, '') for k in COLS] for i in order]
  visits = []
  for i, s in enumerate(stops):
    visits += [i] * s['used']
  visits = [visits[k] for k in case['visits']]
  for j, i in enumerate(visits):
    t = 30000 + 40000 * (j // 2)
    tables['stop_times.txt'].append(['T%d' % (j % 2), hms(t), hms(t), case['rows'][i]['stop_id'], j])
  write_feed(d, tables)
  r, rep = reporter()
  sched = transitfeed.Loader(d, problems=rep, memory_db=True).Load()
  rows = [[] for _ in stops]
  for p in r.problems:
    if pfile(p) == 'stops.txt' and prow(p) >= 2:
      rows[order[prow(p) - 2]].append(defect(p))
  ev = [{'op': 'row', 'stop': i + 1, 'o': {'defects': x}} for i, x in enumerate(rows)]
  for children in (False, True):
    r, rep = reporter()
    sched.Validate(rep, validate_children=children, today=datetime.date(2026, 6, 1))
    o = dict((k, []) for k in ('unused', 'usedstations', 'noparent', 'nostation', 'far', 'close0', 'close1', 'foreign', 'other', 'rows'))
    for p in r.problems:
      k = ptype(p)
      reason = txt(p.__dict__.get('reason'))
      if k == 'UnusedStop': o['unused'].append(no(p.stop_id))
      elif k == 'UsedStation': o['usedstations'].append(no(p.stop_id))
      elif k == 'StopTooFarFromParentStation': o['far'].append([no(p.stop_id), plevel(p)])
      elif k == 'StopsTooClose': o['close0'].append([no(p.stop_id_a), no(p.stop_id_b)])
      elif k == 'StationsTooClose': o['close1'].append([no(p.stop_id_a), no(p.stop_id_b)])
      elif k == 'DifferentStationTooClose': o['foreign'].append([no(p.stop_id), no(p.station_stop_id)])
      elif k == 'InvalidValue' and pcol(p) == 'parent_station' and 'not found' in reason:
        o['noparent'].append([i + 1 for i, s in enumerate(stops) if ("'%s'" % case['rows'][i]['stop_id']) in reason.split('stop_id')[-1]][0])
      elif k == 'InvalidValue' and pcol(p) == 'parent_station' and 'location_type=1 in' in reason:
        o['nostation'].append([i + 1 for i, s in enumerate(stops) if ("'%s'" % case['rows'][i]['stop_id']) in reason.split('stop_id')[-1]][0])
      elif k in ('MissingValue', 'InvalidValue') and pcol(p) in COLS:
        x = defect(p)
        if children and x in ("description repeats name", "station with parent", "child with time zone", "near origin", "missing stop_name"):
          o['rows'].append(x)
      elif k in ('NoServiceExceptions', 'TooFastTravel', 'OtherProblem', 'TooManyConsecutiveStopTimesWithSameTime'):
        pass
      else:
        o['other'].append(k)
    # the row problems found again carry no row: compare them per kind
    want = {}
    for i, x in enumerate(rows):
      for y in x:
        want.setdefault(y, []).append(i + 1)
    again = []
    for y in sorted(set(o['rows'])):
      again += [[i, y] for i in want.get(y, [])] if o['rows'].count(y) == len(want.get(y, [])) else [[0, y]]
    o['rows'] = again
    ev.append({'op': 'feed', 'children': children, 'o': o})
  return {'ev': ev, 'stops': stops}
