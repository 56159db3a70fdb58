from common import *
import unusual_trip_filter, StringIO, csv
NAMES = ['Tram', 'Subway', 'Rail', 'Bus', 'Ferry', 'Cable Car', 'Gondola', 'Funicular']

def run(case):
  with Scratch() as d:
    return run_in(case, d)

def tid(j):
  return 'T%d' % j

def run_in(case, d):
  w = case['w']
  feed = os.path.join(d, 'feed')
  os.mkdir(feed)
  tables = basic_tables([('S%d' % i, 36.9 + i / 100.0, -116.8) for i in range(1, 6)], routes=[('R%d' % (i + 1), t) for i, t in enumerate(w['types'])])
  for r in tables['routes.txt'][1:]:
    r[3] = u'L\xe4nge ' + r[0] if case.get('uni') else r[3]
  tables['trips.txt'] = [['route_id', 'service_id', 'trip_id', 'trip_headsign'] + (['trip_type'] if case['column'] else [])]
  for j, t in enumerate(w['trips']):
    tables['trips.txt'].append(['R%d' % t['route'], 'FULLW', tid(j + 1), u'zum D\xf6rfli' if case.get('uni') else 'north'] + ([t['mark']] if case['column'] else []))
    for i, s in enumerate(t['stops']):
      tables['stop_times.txt'].append([tid(j + 1), hms(3600 * j + 60 * i), hms(3600 * j + 60 * i), 'S%d' % s, i + 1])
  write_feed(feed, tables)
  r, rep = reporter()
  path = feed
  sched = transitfeed.Loader(path, problems=rep, memory_db=case['mem']).Load()
  n = len(w['trips'])
  ev = []
  for e in case['ops']:
    e = dict(e)
    o = {}
    if e['op'] == 'filter':
      kw = {}
      if e['type'] != -1:
        kw['route_type'] = {'int': e['type'], 'text': str(e['type']), 'name': NAMES[e['type']]}[e['how']]
      out, sys.stdout = sys.stdout, StringIO.StringIO()
      try:
        unusual_trip_filter.UnusualTripFilter(float(e['num']) / e['den'], force=e['force'], quiet=e['quiet'], **kw).filter(sched)
      finally:
        sys.stdout = out
    elif e['op'] == 'mark':
      sched.GetTrip(tid(e['trip'])).trip_type = {'': None}.get(e['mark'], e['mark'])
    elif e['op'] == 'add':
      n += 1
      route = sched.GetRoute('R%d' % e['t']['route'])
      trip = route.AddTrip(sched, 'new', None, tid(n))
      for i, s in enumerate(e['t']['stops']):
        trip.AddStopTime(sched.GetStop('S%d' % s), stop_time=hms(3600 + 60 * i))
      if e['t']['mark']:
        trip.trip_type = e['t']['mark']
    elif e['op'] == 'visit':
      trip = sched.GetTrip(tid(e['trip']))
      last = trip.GetStopTimes()
      trip.AddStopTime(sched.GetStop('S%d' % e['stop']), stop_time=hms((last[-1].departure_secs if last else 0) + 60))
    elif e['op'] == 'main':
      src = os.path.join(d, 'src.zip')
      sched.WriteGoogleTransitFeed(src)
      argv = [src, '-t', repr(float(e['num']) / e['den'])] + (['-f'] if e['force'] else []) + (['-q'] if e['quiet'] else []) + (['-m'] if case['mem'] else [])
      if e['type'] != -1:
        argv += ['-r', {'name': NAMES[e['type']]}.get(e['how'], str(e['type']))]
      dst = src
      if e['out']:
        dst = os.path.join(d, 'dst.zip')
        argv += ['-o', dst]
      old, out, err = sys.argv, sys.stdout, sys.stderr
      sys.argv, sys.stdout, sys.stderr = ['x'] + argv, StringIO.StringIO(), StringIO.StringIO()
      try:
        unusual_trip_filter.main()
      finally:
        sys.argv, sys.stdout, sys.stderr = old, out, err
      if e['out']:
        o['input'] = written(src, n)
      o['written'] = written(dst, n)
      r, rep = reporter()
      sched = transitfeed.Loader(dst, problems=rep, memory_db=case['mem']).Load()
    o['marks'] = [txt(sched.GetTrip(tid(j))['trip_type']) for j in range(1, n + 1)]
    o['stops'] = [[int(s.stop_id[1:]) for s in sched.GetTrip(tid(j)).GetPattern()] for j in range(1, n + 1)]
    e['o'] = o
    ev.append(e)
  return {'ev': ev, 'w': w}

def written(path, n):
  import zipfile
  z = zipfile.ZipFile(path)
  rows = list(csv.reader(StringIO.StringIO(z.read('trips.txt'))))
  z.close()
  k = rows[0].index('trip_type') if 'trip_type' in rows[0] else None
  by = dict((r[rows[0].index('trip_id')], r) for r in rows[1:])
  return [txt(by[tid(j)][k]) if k is not None else '' for j in range(1, n + 1)]
