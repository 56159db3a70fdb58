from common import *
STOPS = [('A', 36.90, -116.80), ('B', 36.901, -116.79), ('C', 36.903, -116.78), ('D', 36.905, -116.77)]

def py(a, kind):
  if a['k'] == 'none':
    return '' if kind == 'row' else None
  if a['k'] == 'bad':
    return a.get('t') or 'oops'
  return a['v']

def arg(a, time, row):
  v = py(a, 'row' if row else '')
  if a['k'] == 'text' or (row and a['k'] == 'int'):
    return hms(v) if time else str(v)
  return v

def problems(ps):
  return ['%s %s' % (ptype(p), pcol(p)) for p in ps]

def secs(t):
  h, m, s = t.split(':')
  return int(h) * 3600 + int(m) * 60 + int(s)

def run(case):
  with Scratch() as d:
    return run_in(case, d)

def run_in(case, d):
  r, rep = reporter()
  ev = []
  rows0 = case['rows0']
  tables = basic_tables(STOPS, trips=[('T', 'R')])
  for q in rows0:
    tables['stop_times.txt'].append(['T', hms(q['arr']), hms(q['dep']), q['stop'], q['seq'], ])
  tables['stop_times.txt'][0] += ['pickup_type', 'drop_off_type']
  for row, q in zip(tables['stop_times.txt'][1:], rows0):
    row += [q['pk'], q['pk']]
  if case['rows']:
    tables['frequencies.txt'] = [['trip_id', 'start_time', 'end_time', 'headway_secs', 'exact_times']]
    for a in case['rows']:
      tables['frequencies.txt'].append(['T', arg(a['start'], True, True), arg(a['end'], True, True), arg(a['head'], False, True), arg(a['exact'], False, True)])
  write_feed(d, tables)
  sched = transitfeed.Loader(d, problems=rep, memory_db=True).Load()
  trip = sched.GetTrip('T')
  ps = [p for p in r.problems if pfile(p) == 'frequencies.txt']
  ev.append(observe({'op': 'load', 'rows': case['rows']}, trip, ps, rows0))
  for e in case['ops']:
    e = dict(e)
    n0 = len(r.problems)
    if e['op'] == 'clear':
      trip.ClearFrequencies()
    else:
      a = e['a']
      args = [arg(a['start'], True, False), arg(a['end'], True, False), arg(a['head'], False, False), arg(a['exact'], False, False)]
      how = e.get('how', 'call')
      if how == 'object':
        f = transitfeed.Frequency({'trip_id': 'T', 'start_time': args[0], 'end_time': args[1], 'headway_secs': args[2], 'exact_times': args[3]})
        trip.AddFrequencyObject(f, rep)
      elif how == 'oldobject':
        f = transitfeed.Frequency({'trip_id': 'T', 'start_time': args[0], 'end_time': args[1], 'headway_secs': args[2], 'exact_times': args[3]})
        trip.AddHeadwayPeriodObject(f, rep)
      elif how == 'old' and a['exact']['k'] == 'none':
        trip.AddHeadwayPeriod(args[0], args[1], args[2], rep)
      else:
        trip.AddFrequency(args[0], args[1], args[2], args[3], rep)
    ev.append(observe(e, trip, r.problems[n0:], rows0))
  return {'ev': ev}

def observe(e, trip, ps, rows0):
  o = {'reports': problems(ps)}
  o['periods'] = [[int(x) for x in t[0:4]] for t in trip.GetFrequencyTuples()]
  o['written'] = [[secs(t[1]), secs(t[2]), int(t[3]), int(t[4])] for t in trip.GetFrequencyOutputTuples() if t[0] == 'T']
  o['starts'] = [int(x) for x in trip.GetFrequencyStartTimes()]
  r, rep = reporter()
  runs = trip.GetFrequencyStopTimes(rep) if len(o['starts']) % 2 else trip.GetFrequencyStopTimes()
  o['runs'] = [[{'arr': nint(st.arrival_secs), 'dep': nint(st.departure_secs), 'stop': txt(st.stop_id), 'seq': st.stop_sequence,
                 'pk': nint(st.pickup_type)} for st in run] for run in runs]
  r, rep = reporter()
  trip.Validate(rep)
  o['overlaps'] = len([p for p in r.problems if ptype(p) == 'OtherProblem' and p.IsError()])
  o['others'] = len([p for p in r.problems if p.IsError()]) - o['overlaps']
  e['o'] = o
  e['rows0'] = rows0
  return e
