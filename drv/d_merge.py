# Merging feeds: the two schedules before and after, the merged one, the maps, counts and reports.
import os, re, sys, warnings
from StringIO import StringIO
import transitfeed, merge
from common import *
import d_feed, d_store

MERGERS = {'agency': merge.AgencyMerger, 'stop': merge.StopMerger, 'route': merge.RouteMerger, 'service': merge.ServicePeriodMerger, 'fare': merge.FareMerger,
           'shape': merge.ShapeMerger, 'trip': merge.TripMerger, 'rule': merge.FareRuleMerger, 'transfer': merge.TransferMerger}
REALNAMES = dict((c.__name__, k) for k, c in MERGERS.items())
DATASETS = dict((c.DATASET_NAME, k) for k, c in MERGERS.items())
IDS = {'agency': (lambda s: s.GetAgencyList(), 'agency_id'), 'stop': (lambda s: s.GetStopList(), 'stop_id'), 'route': (lambda s: s.GetRouteList(), 'route_id'),
       'service': (lambda s: s.GetServicePeriodList(), 'service_id'), 'fare': (lambda s: s.GetFareAttributeList(), 'fare_id'),
       'shape': (lambda s: s.GetShapeList(), 'shape_id'), 'trip': (lambda s: s.GetTripList(), 'trip_id')}

def micro(v):
  return int(round(float(v) * 1000000))

def rank(rows, f, own, seq):
  """Only the order of the numbers of stop times and shape points counts."""
  per = {}
  for e in rows:
    if e['f'] == f:
      per.setdefault(e['r'][own]['t'], []).append(e['r'])
  for rs in per.values():
    rs.sort(key=lambda r: float.fromhex(r[seq]['h']) if seq in r and r[seq]['h'] else -1)
    for i, r in enumerate(rs):
      r.pop(seq, None)
      r['place'] = {'t': u'%d' % i, 'h': u'', 'n': i}

def calendar(p):
  return {'start': day(p.start_date) if p.start_date else -1, 'end': day(p.end_date) if p.end_date else -1, 'dow': [bool(x) for x in p.day_of_week],
          'exc': sorted([day(d), v[0] == 1] for d, v in p.date_exceptions.items())}

def snap(s, rep):
  rows = d_store.entities(s, rep)
  rank(rows, 'stop_times.txt', 'trip_id', 'stop_sequence')
  rank(rows, 'shapes.txt', 'shape_id', 'shape_pt_sequence')
  return {'ents': rows, 'ids': dict((k, sorted(txt(getattr(x, a)) for x in get(s))) for k, (get, a) in IDS.items()),
          'stops': [[txt(x.stop_id), [micro(x.stop_lat), micro(x.stop_lon)]] for x in s.GetStopList()],
          'shapes': [[txt(x.shape_id), [micro(v) for v in x.points[0][:2] + x.points[-1][:2]]] for x in s.GetShapeList() if x.points],
          'cal': [[txt(p.service_id), calendar(p)] for p in s.GetServicePeriodList()],
          'links': [[txt(r.route_id), sorted(txt(t.trip_id) for t in r.trips)] for r in s.GetRouteList()],
          'at': [[txt(x.stop_id), sorted(txt(t.trip_id) for t in x.GetTrips())] for x in s.GetStopList()]}

def the_map(s, m):
  out = {}
  for k, (get, a) in IDS.items():
    out[k] = [[txt(getattr(x, a)), txt(getattr(m[x], a))] for x in get(s) if x in m]
  return out

def stats(fm):
  out = []
  for m in fm.GetMergerList():
    st = m.GetMergeStats()
    if st is not None:
      out.append([REALNAMES[m.__class__.__name__], list(st)])
  return out

def problem(p):
  return {'cls': ptype(p), 'l': plevel(p), 'k': REALNAMES.get(p.dataset_merger.__class__.__name__, '') if hasattr(p, 'dataset_merger') else '', 'id': txt(p.__dict__.get('id'))}

def errors(s):
  rec, rep = reporter()
  s.Validate(rep, validate_children=True)
  return errs(rec)

def errs(rec):
  return sorted(set((ptype(p), pfile(p), pcol(p)) for p in rec.problems if p.IsError()))

def observe(fm, a, b, m, ok, probs, d, rep, k, html=None):
  o = {'ok': ok, 'a1': snap(a, rep), 'b1': snap(b, rep), 'm': snap(m, rep), 'ma': the_map(a, fm.a_merge_map), 'mb': the_map(b, fm.b_merge_map),
       'za': sorted([txt(x), txt(y)] for x, y in fm.a_zone_map.items()), 'zb': sorted([txt(x), txt(y)] for x, y in fm.b_zone_map.items()),
       'stats': html if html is not None else stats(fm), 'probs': [problem(p) for p in probs]}
  return o

def again(m, d, k, rep, mem):
  """The merged schedule written and loaded."""
  path = os.path.join(d, 'm%d.zip' % k)
  m.WriteGoogleTransitFeed(path)
  rec, r2 = reporter()
  s = transitfeed.Loader(path, problems=r2, memory_db=mem).Load()
  return s, errs(rec)

def html_stats(text):
  out = []
  for name, x, y, z in re.findall('<tr><th class="header">([^<]*)</th><td class="header">(\d+)</td><td class="header">(\d+)</td><td class="header">(\d+)</td></tr>', text):
    out.append([DATASETS[name], [int(x), int(y), int(z)]])
  return out

def run(case):
  warnings.simplefilter('ignore')
  rec, rep = reporter()
  ev = []
  keep = sys.stdout
  with Scratch() as d:
    paths = []
    for i, f in enumerate(case['feeds']):
      e = os.path.join(d, 'in%d' % i)
      os.mkdir(e)
      paths.append(d_feed.write(e, {'files': f, 'zip': case['zip'], 'nl': '\n'}))
    first, at = None, paths[0]
    try:
      for k, st in enumerate(case['steps']):
        sys.stdout = StringIO()
        a = first if first is not None else transitfeed.Loader(at, problems=rep, memory_db=case['mem']).Load()
        b = transitfeed.Loader(paths[k + 1], problems=rep, memory_db=case['mem']).Load()
        bad = errs(rec) + errors(a) + errors(b)
        if bad:
          ev.append({'op': 'bad', 'errors': bad, 'o': {}})
          break
        mrec = Recorder()
        box = []
        if st['how'] == 'tool':
          o, m, path = tool(d, k, at, paths[k + 1], st, rep, case)
        else:
          qrec, qrep = reporter()
          m = transitfeed.Schedule(problem_reporter=qrep, memory_db=case['mem'])
          a0, b0 = snap(a, rep), snap(b, rep)
          fm = merge.FeedMerger(a, b, m, merge.MergeProblemReporter(mrec))
          if st['default']:
            fm.AddDefaultMergers()
          else:
            for n in st['mergers']:
              fm.AddMerger(MERGERS[n](fm))
          if 'stop' in st['mergers'] and st['stopd'] >= 0:
            fm.GetMerger(merge.StopMerger).SetLargestStopDistance(st['stopd'] / 1000.0)
          if 'shape' in st['mergers'] and st['shaped'] >= 0:
            fm.GetMerger(merge.ShapeMerger).SetLargestShapeDistance(st['shaped'] / 1000.0)
          if st['cut'] >= 0:
            fm.GetMerger(merge.ServicePeriodMerger).DisjoinCalendars(day_text(st['cut']))
          ok = fm.MergeSchedules()
          o = observe(fm, a, b, m, ok, mrec.problems, d, rep, k)
          o['a0'], o['b0'] = a0, b0
          o['merr'] = errs(qrec)
        if o['ok'] and set(st['mergers']) >= set(IDS):
          back, o['werr'] = again(m, d, k, rep, case['mem'])
          o['back'] = snap(back, rep)['ents']
          o['verr'] = errors(m)
          first = m if st['next'] == 'object' else back
          if st['how'] == 'tool' or st['next'] == 'tool':
            at = os.path.join(d, 'm%d.zip' % k)
        e = dict(st)
        e['op'] = 'merge'
        e['o'] = o
        ev.append(e)
        if 'back' not in o:
          break
    finally:
      sys.stdout = keep
  return {'ev': ev, 'low': case['low']}

def tool(d, k, pa, pb, st, rep, case):
  """The program itself, run on two paths."""
  box = {}
  class Watched(merge.FeedMerger):
    def __init__(self, a, b, m, r):
      merge_init(self, a, b, m, r)
      box['a0'], box['b0'] = snap(a, rep), snap(b, rep)
      box['fm'] = self
    def MergeSchedules(self):
      box['ok'] = old.MergeSchedules(self)
      return box['ok']
  class Accum(oldacc):
    def _Report(self, e):
      box.setdefault('probs', []).append(e)
      oldacc._Report(self, e)
  merge_init = merge.FeedMerger.__init__
  out, html = os.path.join(d, 'tool%d.zip' % k), os.path.join(d, 'report%d.html' % k)
  argv = ['merge.py', '--no_browser', '--latest_version=1.0.0', '--html_output_path=' + html]
  if case['mem']:
    argv.append('--memory_db')
  if st['cut'] >= 0:
    argv.append('--cutoff_date=' + str(day_text(st['cut'])))
  if st['stopd'] >= 0:
    argv.append('--largest_stop_distance=%r' % (st['stopd'] / 1000.0))
  if st['shaped'] >= 0:
    argv.append('--largest_shape_distance=%r' % (st['shaped'] / 1000.0))
  keep = sys.argv, sys.stderr
  merge.FeedMerger, merge.HTMLProblemAccumulator = Watched, Accum
  sys.argv = [str(x) for x in argv + [pa, pb, out]]
  sys.stderr = StringIO()
  try:
    merge.main()
  except SystemExit as e:
    raise Exception('the program ended: %s %s' % (e, sys.stderr.getvalue()[-500:]))
  finally:
    sys.argv, sys.stderr = keep
    merge.FeedMerger, merge.HTMLProblemAccumulator = old, oldacc
  fm = box['fm']
  text = open(html).read().decode('utf-8')
  o = observe(fm, fm.a_schedule, fm.b_schedule, fm.merged_schedule, box['ok'], box.get('probs', []), d, rep, k, html_stats(text))
  o['a0'], o['b0'], o['merr'] = box['a0'], box['b0'], []
  o['wrote'] = os.path.exists(out)
  if o['wrote']:
    rec, r2 = reporter()
    o['file'] = snap(transitfeed.Loader(out, problems=r2, memory_db=True).Load(), rep)['ents']
  return o, fm.merged_schedule, out

old, oldacc = merge.FeedMerger, merge.HTMLProblemAccumulator
