# Histories of a schedule: loading or building it, editing, writing and loading the written feed again.
import csv, os, re, shutil, zipfile, warnings
from StringIO import StringIO
import transitfeed
from common import *
import d_feed

def number(v):
  """The exact number a value or text denotes (times as seconds), '' if none."""
  if isinstance(v, bool):
    return ''
  if isinstance(v, (int, long, float)):
    return float(v).hex()
  if isinstance(v, basestring):
    v = txt(v)
    if re.match(u'[0-9]+:[0-9][0-9]:[0-9][0-9]$', v):
      h, m, s = v.split(':')
      return float(int(h) * 3600 + int(m) * 60 + int(s)).hex()
    if re.match(u'[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?$', v):
      return float(v).hex()
  return ''

def value(v):
  h = number(v)
  n = int(v) if h and isinstance(v, (int, long)) else int(v) if isinstance(v, basestring) and re.match('[0-9]{1,8}$', v) else 0
  return {'t': txt(v), 'h': h, 'n': n}

def cells(pairs):
  return dict((txt(c), value(v)) for c, v in pairs if v is not None and v != '')

def entities(s, rep):
  """The entities of the schedule as rows of tables."""
  old = d_feed.cells, d_feed.REP
  d_feed.cells, d_feed.REP = cells, rep
  try:
    return [{'f': e['f'], 'r': e['c']} for e in d_feed.entities(s)]
  finally:
    d_feed.cells, d_feed.REP = old

def tables(path):
  out = {}
  z = zipfile.ZipFile(path)
  for f in z.namelist():
    rows = [[value(v.decode('utf-8')) for v in r] for r in csv.reader(StringIO(z.read(f)))]
    out[txt(f)] = {'head': [h['t'] for h in rows[0]] if rows else [], 'rows': rows[1:]}
  z.close()
  return out

def plain(r):
  """Arguments of the new entity, as in the row: texts, numbers or nothing."""
  return dict((str(c), v) for c, v in r.items())

def add(s, f, r, rep, how):
  r = plain(r)
  g = transitfeed
  if f == 'agency.txt':
    if how and 'agency_id' in r:
      a = s.AddAgency(r.pop('agency_name'), r.pop('agency_url'), r.pop('agency_timezone'), r.pop('agency_id'))
      later(a, r)
    else:
      s.AddAgencyObject(g.Agency(field_dict=r))
  elif f == 'stops.txt':
    if how:
      x = s.AddStop(r.pop('stop_lat'), r.pop('stop_lon'), r.pop('stop_name'), r.pop('stop_id'))
      later(x, r)
    else:
      s.AddStopObject(g.Stop(field_dict=r))
  elif f == 'routes.txt':
    if how and r.get('agency_id') and len(s.GetAgencyList()) == 1:
      x = s.AddRoute(r.pop('route_short_name', None), r.pop('route_long_name', None), r.pop('route_type'), r.pop('route_id'))
      later(x, r)
    else:
      s.AddRouteObject(g.Route(field_dict=r))
  elif f == 'trips.txt':
    if how:
      x = s.GetRoute(r.pop('route_id')).AddTrip(s, r.pop('trip_headsign', None), s.GetServicePeriod(r.pop('service_id')), r.pop('trip_id'))
      later(x, r)
    else:
      s.AddTripObject(g.Trip(field_dict=r))
  elif f == 'stop_times.txt':
    t = s.GetTrip(r.pop('trip_id'))
    stop = s.GetStop(r.pop('stop_id'))
    if 'stop_sequence' in r:
      t.AddStopTimeObject(g.StopTime(rep, stop, **r))
    else:
      t.AddStopTime(stop, rep, **r)
  elif f == 'calendar.txt':
    p = g.ServicePeriod(r['service_id'])
    for i, d in enumerate(('monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday')):
      p.SetDayOfWeekHasService(i, r.get(d) in ('1', 1))
    p.SetStartDate(r['start_date'])
    p.SetEndDate(r['end_date'])
    s.AddServicePeriodObject(p)
  elif f == 'calendar_dates.txt':
    if r['service_id'] not in s.service_periods:
      s.AddServicePeriodObject(g.ServicePeriod(r['service_id']), validate=False)
    s.GetServicePeriod(r['service_id']).SetDateHasService(r['date'], r['exception_type'] in ('1', 1))
  elif f == 'fare_attributes.txt':
    s.AddFareAttributeObject(g.FareAttribute(**r) if how else g.FareAttribute(field_dict=r))
  elif f == 'fare_rules.txt':
    s.AddFareRuleObject(g.FareRule(**r) if how else g.FareRule(field_dict=r))
  elif f == 'frequencies.txt':
    t = s.GetTrip(r.pop('trip_id'))
    t.AddFrequency(r['start_time'], r['end_time'], r['headway_secs'], r.get('exact_times', 0), problem_reporter=rep)
  elif f == 'transfers.txt':
    s.AddTransferObject(g.Transfer(**r) if how else g.Transfer(field_dict=r))
  elif f == 'shapes.txt':
    if r['shape_id'] in [x.shape_id for x in s.GetShapeList()]:
      sh = s.GetShape(r['shape_id'])
    else:
      sh = g.Shape(r['shape_id'])
    if how:
      sh.AddPoint(r['shape_pt_lat'], r['shape_pt_lon'], r.get('shape_dist_traveled'), rep)
    else:
      p = g.ShapePoint(r['shape_id'], r['shape_pt_lat'], r['shape_pt_lon'], r['shape_pt_sequence'], r.get('shape_dist_traveled'))
      if p.ParseAttributes(rep):
        sh.AddShapePointObjectUnsorted(p, rep)
    if r['shape_id'] not in [x.shape_id for x in s.GetShapeList()]:
      s.AddShapeObject(sh)
  elif f == 'feed_info.txt':
    s.AddFeedInfoObject(g.FeedInfo(field_dict=r))

def later(x, r):
  for c in sorted(r):
    setattr(x, c, r[c])

def entity(s, f, key):
  return {'agency.txt': lambda: s.GetAgency(key), 'stops.txt': lambda: s.GetStop(key), 'routes.txt': lambda: s.GetRoute(key),
          'trips.txt': lambda: s.GetTrip(key), 'feed_info.txt': lambda: s.feed_info}[f]()

def run(case):
  warnings.simplefilter('ignore')
  rec, rep = reporter()
  ev = []
  with Scratch() as d:
    s, k = None, 0
    for e in case['ops']:
      e, o = dict(e), {}
      del rec.problems[:]
      if e['op'] == 'load':
        path = d_feed.write(d, case)
        s = transitfeed.Loader(path, problems=rep, memory_db=e['mem']).Load()
        o = {'ents': entities(s, rep), 'errors': errors(rec)}
      elif e['op'] == 'new':
        transitfeed.Loader(d_feed.write(d, case), problems=rep).Load()
        o = {'errors': errors(rec)}   # what the same rows report when they are loaded
        s = transitfeed.Schedule(problem_reporter=rep, memory_db=e['mem'])
      elif e['op'] == 'add':
        add(s, e['f'], e['r'], rep, e['how'])
        if e['look']:
          o = {'ents': entities(s, rep)}
        e['r'] = dict((c, value(v)) for c, v in e.get('eff', e['r']).items() if v is not None)
      elif e['op'] == 'set':
        x = entity(s, e['f'], e['key'])
        setattr(x, str(e['c']), e['v'])
        if e['look']:
          o = {'ents': entities(s, rep)}
        e['v'] = value(e['v'])
      elif e['op'] == 'write':
        k += 1
        path = os.path.join(d, 'w%d.zip' % k)
        if e['how'] == 'file':
          h = open(path, 'wb')
          s.WriteGoogleTransitFeed(h)
          h.close()
        elif e['how'] == 'mem':
          b = StringIO()
          s.WriteGoogleTransitFeed(b)
          h = open(path, 'wb')
          h.write(b.getvalue())
          h.close()
        else:
          s.WriteGoogleTransitFeed(path)
        o = {'tables': tables(path)}
      elif e['op'] == 'reload':
        if e['form'] == 'dir':
          z = zipfile.ZipFile(path)
          path = os.path.join(d, 'd%d' % k)
          os.mkdir(path)
          for f in z.namelist():
            h = open(os.path.join(path, f), 'wb')
            h.write(z.read(f))
            h.close()
        s = transitfeed.Loader(path, problems=rep, memory_db=e['mem']).Load()
        o = {'ents': entities(s, rep), 'errors': errors(rec)}
      e['o'] = o
      ev.append(e)
  return {'ev': ev}

def errors(rec):
  return sorted(set((ptype(p), pfile(p), pcol(p)) for p in rec.problems if p.IsError()))
