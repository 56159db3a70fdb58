from common import *
import csv, zipfile, StringIO
KINDS = ['Agency', 'ServicePeriod', 'FareAttribute', 'FareRule', 'Frequency', 'FeedInfo', 'Shape', 'ShapePoint', 'Stop', 'StopTime', 'Route',
         'Transfer', 'Trip', 'Schedule', 'Loader']
FILE = {'Agency': 'agency.txt', 'Stop': 'stops.txt', 'Route': 'routes.txt', 'Transfer': 'transfers.txt', 'Trip': 'trips.txt',
        'FareAttribute': 'fare_attributes.txt', 'FareRule': 'fare_rules.txt', 'Frequency': 'frequencies.txt', 'FeedInfo': 'feed_info.txt'}

def subclass(kind, log, made, column, old):
  base = getattr(transitfeed, kind)
  d = {'_EXT': True}
  def init(self, *a, **kw):
    made.add(kind)
    base.__init__(self, *a, **kw)
  d['__init__'] = init
  if kind in FILE:
    def add(self, schedule, problems):
      log.append([FILE[kind], kind])
      base.AddToSchedule(self, schedule, problems)
    d['AddToSchedule'] = add
  if column:
    d['_FIELD_NAMES'] = base._FIELD_NAMES + ['x_note']
  if old:
    d['_DEPRECATED_FIELD_NAMES'] = base._DEPRECATED_FIELD_NAMES + [('x_old', 'x_note')]
  import types
  return (types.ClassType if isinstance(base, types.ClassType) else type)(str(kind + 'X'), (base,), d)

def table_class(name, log):
  class Own(transitfeed.GtfsObjectBase):
    _REQUIRED_FIELD_NAMES = ['thing']
    _FIELD_NAMES = ['thing', 'other']
    _TABLE_NAME = name
    def __init__(self, field_dict=None):
      self._schedule = None
      self.__dict__.update(field_dict or {})
    def ValidateBeforeAdd(self, problems):
      return True
    def ValidateAfterAdd(self, problems):
      pass
    def AddToSchedule(self, schedule, problems):
      log.append([name, self.thing])
  return Own

def feed(w, d):
  t = basic_tables([('S1', 36.91, -116.8), ('S2', 36.92, -116.8)], routes=[('R1', 3)], trips=[('T1', 'R1')])
  t['stop_times.txt'] += [['T1', '08:00:00', '08:00:00', 'S1', 1], ['T1', '08:10:00', '08:10:00', 'S2', 2]]
  t['trips.txt'][0].append('shape_id')
  t['trips.txt'][1].append('SH' if 'shapes.txt' in w['files'] else '')
  t['transfers.txt'] = [['from_stop_id', 'to_stop_id', 'transfer_type'], ['S1', 'S2', 0]]
  t['fare_attributes.txt'] = [['fare_id', 'price', 'currency_type', 'payment_method', 'transfers'], ['F', '1.5', 'USD', 0, 0]]
  t['fare_rules.txt'] = [['fare_id', 'route_id'], ['F', 'R1']]
  t['frequencies.txt'] = [['trip_id', 'start_time', 'end_time', 'headway_secs'], ['T1', '08:00:00', '10:00:00', 600]]
  t['feed_info.txt'] = [['feed_publisher_name', 'feed_publisher_url', 'feed_lang'], ['P', 'http://example.com', 'en']]
  t['shapes.txt'] = [['shape_id', 'shape_pt_lat', 'shape_pt_lon', 'shape_pt_sequence'], ['SH', 36.91, -116.8, 1], ['SH', 36.92, -116.8, 2]]
  for f in w['note']:
    t[f][0].append('x_note')
    for i, r in enumerate(t[f][1:]):
      r.append('note %d' % i)
  for f in w['old']:
    if f in t:
      t[f][0].insert(1, 'x_old')
      for r in t[f][1:]:
        r.insert(1, 'old')
  t = dict((f, rows) for f, rows in t.items() if f in w['files'])
  for x in w['tables']:
    if x['there']:
      t[x['n']] = [['thing', 'other']] + [[r, 'o'] for r in x['rows']]
  write_feed(d, t)

def cls(x):
  return 'ext' if getattr(x.__class__, '_EXT', False) else 'base'

def kinds(s):
  trips = list(s.GetTripList())
  l = {'Agency': s.GetAgencyList(), 'ServicePeriod': s.GetServicePeriodList(), 'FareAttribute': s.GetFareAttributeList(),
       'FareRule': [r for f in s.GetFareAttributeList() for r in f.GetFareRuleList()], 'FeedInfo': [s.feed_info] if s.feed_info else [],
       'Shape': s.GetShapeList(), 'Stop': s.GetStopList(), 'Route': s.GetRouteList(), 'Trip': trips, 'Transfer': list(s.GetTransferIter()),
       'StopTime': [x for t in trips for x in t.GetStopTimes()] + [x for t in trips if t.GetFrequencyTuples() for run in t.GetFrequencyStopTimes() for x in run],
       'Schedule': [s]}
  return [{'kind': k, 'classes': sorted(set(cls(x) for x in l[k]))} for k in sorted(l)]

def reports(r):
  col = lambda p: txt(p.__dict__.get('column_name'))
  return {'unknown': [txt(p.file_name) for p in r.problems if ptype(p) == 'UnknownFile'],
          'missing': [txt(p.file_name) for p in r.problems if ptype(p) == 'MissingFile'],
          'unrec': [txt(p.file_name) for p in r.problems if ptype(p) == 'UnrecognizedColumn' and col(p) != 'x_old'],
          'unold': [txt(p.file_name) for p in r.problems if ptype(p) == 'UnrecognizedColumn' and col(p) == 'x_old'],
          'deprecated': [[txt(p.file_name), col(p), u'x_note' if '"x_note"' in txt(p.__dict__.get('reason')) else u'', plevel(p)] for p in r.problems if ptype(p) == 'DeprecatedColumn']}

def run(case):
  with Scratch() as d:
    return run_in(case, d)

def run_in(case, d):
  w = case['w']
  fd = os.path.join(d, 'feed')
  os.mkdir(fd)
  feed(w, fd)
  log, made = [], set()
  f = transitfeed.GetGtfsFactory()
  for k in w['ext']:
    f.UpdateClass(k, subclass(k, log, made, k in w['cols'], k in w['olds']))
  for i, x in enumerate(w['tables']):
    cn = 'Thing%d' % i
    if case['replace']:
      f.AddClass(cn, table_class('wrong', log))
      f.UpdateClass(cn, table_class(x['n'], log))
    else:
      f.AddClass(cn, table_class(x['n'], log))
    m = {'classes': [cn], 'required': x['req'], 'loading_order': None if x['ord'] == 9999 else x['ord']}
    if case['update']:
      f.AddMapping(x['n'], {'classes': ['Stop'], 'required': not x['req'], 'loading_order': 3})
      f.UpdateMapping(x['n'], m)
    else:
      f.AddMapping(x['n'], m)
  for n in w['forced']:
    f.UpdateMapping(n, {'required': True})
  for n in w['removed']:
    f.RemoveMapping(n)
  ev = []
  r, rep = reporter()
  loader = None
  if case['how'] == 'loader':
    loader = f.Loader(fd, problems=rep, gtfs_factory=f, memory_db=case['mem'])
    s = loader.Load()
  else:
    s = f.Schedule(problem_reporter=rep, memory_db=case['mem'], gtfs_factory=f)
    s.Load(fd)
  o = reports(r)
  o['kinds'] = kinds(s)
  for k in ('ShapePoint', 'Frequency'):
    if k in w['ext']:
      o['kinds'].append({'kind': k, 'classes': ['ext'] if k in made else []})
  if 'Loader' in w['ext']:
    o['kinds'].append({'kind': 'Loader', 'classes': ['ext'] if 'Loader' in made else ['base']})
  o['log'] = list(log)
  ev.append({'op': 'load', 'o': o})
  # entities made through the schedule
  made.clear()
  ag = s.AddAgency('New', 'http://example.com', 'America/Los_Angeles', 'NEW')
  stop = s.AddStop(36.95, -116.8, 'New stop', 'NS')
  stop2 = s.AddStop(36.96, -116.8, 'New stop 2')
  route = s.AddRoute('5', 'New route', 'Bus', 'NR')
  trip = route.AddTrip(s, 'there', None, 'NT')
  trip.AddStopTime(stop, stop_time='10:00:00')
  trip.AddStopTime(stop2, stop_time='10:10:00')
  old = list(s.GetRouteList())[0].AddTrip(s, 'again', None, 'NT2')
  old.AddStopTime(stop, stop_time='11:00:00')
  sp = s.NewDefaultServicePeriod()
  ag2 = s.NewDefaultAgency()
  l = {'Agency': [ag, ag2], 'Stop': [stop, stop2], 'Route': [route], 'Trip': [trip, old], 'ServicePeriod': [sp],
       'StopTime': trip.GetStopTimes() + old.GetStopTimes() + [x for q in trip.GetTimeStops() for x in [] ]}
  o = {'kinds': [{'kind': k, 'classes': sorted(set(cls(x) for x in l[k]))} for k in sorted(l)]}
  if 'shapes.txt' in w['files'] and 'ShapePoint' in w['ext']:
    s.GetShape('SH').AddPoint(36.93, -116.8)
    o['kinds'].append({'kind': 'ShapePoint', 'classes': ['ext' if 'ShapePoint' in made else 'base']})
  out = os.path.join(d, 'out.zip')
  s.WriteGoogleTransitFeed(out)
  z = zipfile.ZipFile(out)
  o['note'] = [[n, 'x_note' in z.read(n).split('\n')[0]] for n in ('stops.txt', 'routes.txt', 'trips.txt', 'agency.txt')]
  z.close()
  ev.append({'op': 'make', 'o': o})
  # an unrelated factory
  del log[:]
  r, rep = reporter()
  g = transitfeed.GetGtfsFactory()
  s = g.Loader(fd, problems=rep, gtfs_factory=g).Load() if case['how'] == 'loader' else transitfeed.Loader(fd, problems=rep).Load()
  o = reports(r)
  o['kinds'] = kinds(s)
  o['log'] = list(log)
  ev.append({'op': 'other', 'o': o})
  return {'ev': ev, 'w': w}
