from common import *
import math, re
DEG = 180 / math.pi / 6378135.0
TRIP = re.compile(r'TRIP(\d+)X')
SEQ = re.compile(r'\d+')

def lat(m):
  return 30 + m * DEG

def stop_no(name):
  return int(txt(name).split()[-1])

def run(case):
  with Scratch() as d:
    return run_in(case, d)

DEFECT = {('InvalidValue', 'departure_time'): 'departs before it arrives', ('MissingValue', 'departure_time'): 'no departure',
          ('MissingValue', 'arrival_time'): 'no arrival', ('OtherProblem', ''): 'useless',
          ('InvalidValue', 'shape_dist_traveled'): 'negative distance'}

def row_defect(p):
  k = (ptype(p), pcol(p))
  if k == ('InvalidValue', 'departure_time') and 'before' not in txt(p.__dict__.get('reason', '')):
    return None
  if k[0] == 'OtherProblem' and 'pickup_type' not in txt(p.__dict__.get('description', '')):
    return None
  return DEFECT.get(k)

def run_in(case, d):
  w = case['w']
  n = len(w['stops'])
  lon = case.get('lon', '-116.5')
  tables = basic_tables([('S%d' % (i + 1), 0, 0) for i in range(n)], routes=[('R%d' % (i + 1), t) for i, t in enumerate(w['type'])])
  tables['stops.txt'] = tables['stops.txt'][:1] + [['S%d' % (i + 1), 'Stop no %d' % (i + 1), repr(lat(p)), lon] for i, p in enumerate(w['stops'])]
  cal = tables['calendar.txt']
  tables['calendar.txt'] = cal[:1] + [['CAL%d' % i] + cal[1][1:] for i in (1, 2)]
  tables['trips.txt'] = [['route_id', 'service_id', 'trip_id', 'shape_id']]
  rows, freq = [], []
  for i, t in enumerate(w['trips']):
    tid = 'TRIP%dX' % (i + 1)
    tables['trips.txt'].append(['R%d' % t['route'], 'CAL%d' % t['service'], tid, 'SH' if t['shaped'] else ''])
    if t['freq']:
      freq.append([tid, '08:00:00', '09:00:00', 600])
    for k, r in enumerate(t['rows']):
      rows.append(([tid, hms(r['arr']), hms(r['dep']), 'S%d' % r['stop'], r['seq'], '' if r['d'] == -1000000 else '%.1f' % (r['d'] / 10.0),
                    txt(r['pk']) if r['pk'] >= 0 else '', txt(r['do']) if r['do'] >= 0 else ''], i + 1, k + 1))
  if case.get('order'):
    rows = [rows[k] for k in case['order']]
  tables['stop_times.txt'] = [tables['stop_times.txt'][0] + ['shape_dist_traveled', 'pickup_type', 'drop_off_type']] + [r[0] for r in rows]
  if w['shape']:
    tables['shapes.txt'] = [['shape_id', 'shape_pt_lat', 'shape_pt_lon', 'shape_pt_sequence', 'shape_dist_traveled']] + [
        ['SH', repr(lat(p['p'])), lon, i, '%.1f' % (p['d'] / 10.0)] for i, p in enumerate(w['shape'])]
  if freq:
    tables['frequencies.txt'] = [['trip_id', 'start_time', 'end_time', 'headway_secs']] + freq
  write_feed(d, tables)
  r, rep = reporter()
  sched = transitfeed.Loader(d, problems=rep, memory_db=True, check_duplicate_trips=w['dup']).Load()
  ev = []
  where = dict((i + 2, (x[1], x[2])) for i, x in enumerate(rows))
  per_row = {}
  for p in r.problems:
    if pfile(p) == 'stop_times.txt' and row_defect(p):
      per_row.setdefault(where[prow(p)], []).append(row_defect(p))
  for x in rows:
    ev.append({'op': 'row', 'trip': x[1], 'row': x[2], 'o': {'defects': per_row.get((x[1], x[2]), [])}})
  r, rep = reporter()
  sched.problem_reporter = rep
  sched.Validate(rep, today=datetime.date(2026, 6, 1))
  blank = lambda: {'dupseq': [], 'few': [], 'nostopfreq': False, 'back': [], 'fast': [], 'dist': [], 'beyond': False, 'off': [],
                   'nofirst': False, 'nolast': False, 'moment': []}
  per = dict((i + 1, blank()) for i in range(len(w['trips'])))
  glob = {'defects': [], 'mixed': [], 'same': [], 'other': []}
  def tr(t):
    return int(TRIP.search(txt(t)).group(1))
  for p in r.problems:
    k = ptype(p)
    text = txt(p.__dict__.get('reason') or p.__dict__.get('description') or '')
    if row_defect(p):
      glob['defects'].append(row_defect(p))
    elif k == 'InvalidValue' and pcol(p) == 'stop_sequence':
      per[tr(text)]['dupseq'].append(int(p.value))
    elif k == 'InvalidValue' and pcol(p) == 'stoptimes.shape_dist_traveled':
      per[tr(text)]['dist'].append([int(round(p.value * 10)), plevel(p)])
    elif k == 'InvalidValue' and pcol(p) == 'departure_time':
      per[tr(text)]['nofirst'] = True
    elif k == 'InvalidValue' and pcol(p) == 'arrival_time':
      per[tr(text)]['nolast'] = True
    elif k == 'TooFastTravel':
      per[tr(p.trip_id)]['fast'].append([stop_no(p.prev_stop), stop_no(p.next_stop), int(p.time), int(round(p.dist))])
    elif k == 'StopTooFarFromShapeWithDistTraveled':
      per[tr(p.trip_id)]['off'].append([stop_no(p.stop_name), int(round(p.shape_dist_traveled * 10))])
    elif k == 'TooManyConsecutiveStopTimesWithSameTime':
      per[tr(p.trip_id)]['moment'].append([int(p.number_of_stop_times), secs(p.stop_time)])
    elif k == 'StopWithMultipleRouteTypes':
      glob['mixed'].append({'stop': int(txt(p.stop_id)[1:]), 'subway': int(txt(p.route_id1)[1:]), 'bus': int(txt(p.route_id2)[1:])})
    elif k == 'DuplicateTrip':
      glob['same'].append([tr(p.trip_id1), tr(p.trip_id2)])
    elif k == 'OtherProblem' and 'imetravel' in text:
      per[tr(text)]['back'].append(int(SEQ.search(text).group(0)))
    elif k == 'OtherProblem' and 'any stop times' in text:
      per[tr(text)]['few'].append(0)
    elif k == 'OtherProblem' and 'only has one' in text:
      per[tr(text)]['few'].append(1)
    elif k == 'OtherProblem' and 'Frequencies defined' in text:
      per[tr(text)]['nostopfreq'] = True
    elif k == 'OtherProblem' and 'shape_dist_traveled' in text:
      per[tr(text)]['beyond'] = True
    elif k in ('UnusedStop', 'NoServiceExceptions', 'StopsTooClose') or (k == 'OtherProblem' and 'shape_ids' in text):
      pass
    else:
      glob['other'].append(k + ' ' + text)
  for i in sorted(per):
    ev.append({'op': 'trip', 'trip': i, 'o': per[i]})
  ev.append({'op': 'feed', 'o': glob})
  return {'ev': ev, 'w': w}
