from common import *
STOPS = [('A', 36.90, -116.80), ('B', 36.91, -116.79), ('C', 36.93, -116.81), ('D', 36.88, -116.78), ('E', 36.90, -116.75)]
COORD = dict((i, (a, b)) for i, a, b in STOPS)
XCOLS = ['stop_headsign', 'pickup_type', 'drop_off_type', 'shape_dist_traveled', 'timepoint']

def parse_x(x):
  """x = "headsign|pickup|drop_off|dist|timepoint", empty for none."""
  v = x.split('|') if x else [''] * 5
  return dict((k, a if k == 'stop_headsign' else (float(a) if k == 'shape_dist_traveled' else int(a)))
              for k, a in zip(XCOLS, v) if a != '')

def show_x(st):
  h, p, d, s, t = [getattr(st, k) for k in XCOLS]
  if h in (None, '') and p is None and d is None and s in (None, '') and t is None:
    return ''
  return '|'.join([txt(h), txt(p), txt(d), '' if s in (None, '') else '%g' % s, txt(t)])

def run(case):
  with Scratch() as d:
    return run_in(case, d)

def run_in(case, d):
  trips = case['trips']
  ev = []
  r, rep = reporter()
  init = case.get('init') or {}
  if case.get('load'):
    tables = basic_tables([(i, a, b) for i, a, b in STOPS], trips=[(t, 'R') for t in trips])
    tables['stop_times.txt'][0] += XCOLS
    rows = []
    for t in trips:
      for q in init.get(t, []):
        x = q['x'].split('|') if q['x'] else [''] * 5
        rows.append([t, hms(q['arr']), hms(q['dep']), q['stop'], q['seq']] + x)
    order = case.get('order')
    if order:
      rows = [rows[k] for k in order]
    tables['stop_times.txt'] += rows
    write_feed(d, tables)
    sched = transitfeed.Loader(d, problems=rep, memory_db=case['mem']).Load()
    bad = [ptype(p) for p in r.problems if p.IsError()]
    sched.problem_reporter = rep
  else:
    sched = transitfeed.Schedule(problem_reporter=rep, memory_db=case['mem'])
    sched.AddAgency('Demo', 'http://example.com', 'America/Los_Angeles', agency_id='DTA')
    sp = sched.NewDefaultServicePeriod()
    sp.SetStartDate('20260101'); sp.SetEndDate('20281231'); sp.SetWeekdayService(True)
    route = sched.AddRoute('1', 'Route', 3, route_id='R')
    for i, a, b in STOPS:
      sched.AddStop(a, b, 'Stop ' + i, stop_id=i)
    for t in trips:
      route.AddTrip(sched, headsign='x', trip_id=t)
  full = dict((t, init.get(t, [])) for t in trips)
  ev.append({'op': 'load', 'init': full, 'o': observe(sched, trips, 0)})
  for e in case['ops']:
    e = dict(e)
    trip = sched.GetTrip(e['t'])
    n0 = len(r.problems)
    if e['op'] == 'add':
      q = e['r']
      stop = sched.GetStop(q['stop'])
      kw = parse_x(q['x'])
      if q['arr'] >= 0:
        if e.get('how') == 'text':
          kw['arrival_time'], kw['departure_time'] = hms(q['arr']), hms(q['dep'])
        elif e.get('how') == 'single' and q['arr'] == q['dep']:
          kw['stop_time'] = hms(q['arr'])
        else:
          kw['arrival_secs'], kw['departure_secs'] = q['arr'], q['dep']
      if e.get('obj'):
        st = transitfeed.StopTime(rep, stop, **kw)
        n0 = len(r.problems)
        trip.AddStopTimeObject(st, problems=rep)
      else:
        trip.AddStopTime(stop, problems=rep, **kw)
    elif e['op'] == 'replace':
      q = e['r']
      kw = parse_x(q['x'])
      if q['arr'] >= 0:
        kw['arrival_secs'], kw['departure_secs'] = q['arr'], q['dep']
      st = transitfeed.StopTime(rep, sched.GetStop(q['stop']), stop_sequence=q['seq'], **kw)
      n0 = len(r.problems)
      trip.ReplaceStopTimeObject(st)
    elif e['op'] == 'clear':
      trip.ClearStopTimes()
    reports = len([p for p in r.problems[n0:] if p.IsError()])
    e['o'] = observe(sched, trips, reports)
    ev.append(e)
  return {'ev': ev}

def observe(sched, trips, reports):
  o = {'reports': reports, 'trips': [], 'stops': []}
  for t in sorted(sched.trips.keys()):
    trip = sched.GetTrip(t)
    r, rep = reporter()
    rows = [{'seq': st.stop_sequence, 'stop': txt(st.stop_id), 'arr': nint(st.arrival_secs), 'dep': nint(st.departure_secs),
             'x': show_x(st)} for st in trip.GetStopTimes(rep)]
    q = {'t': txt(t), 'rows': rows, 'count': int(trip.GetCountStopTimes()), 'start': -1, 'end': -1}
    if rows:
      q['start'] = nint(trip.GetStartTime(rep))
      q['end'] = nint(trip.GetEndTime(rep))
    q['tstops'] = [[nint(a), nint(b), txt(s.stop_id)] for a, b, s in trip.GetTimeStops()]
    q['pattern'] = [txt(s.stop_id) for s in trip.GetPattern()]
    q['pid'] = txt(trip.pattern_id)
    o['trips'].append(q)
  for i, _, _ in STOPS:
    stop = sched.GetStop(i)
    q = {'stop': i, 'trips': [txt(x.trip_id) for x in stop.GetTrips()], 'raised': False, 'tt': []}
    try:
      for secs, (trip, index), tp in stop.GetStopTimeTrips():
        q['tt'].append({'t': txt(trip.trip_id), 'i': index, 'tp': bool(tp), 'secs': int(secs)})
    except ValueError:
      q['raised'], q['tt'] = True, []
    o['stops'].append(q)
  return o
