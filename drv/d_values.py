# -*- coding: utf-8 -*-
from common import *
from transitfeed import util
import copy

def U(t):
  return u''.join(unichr(x) for x in t)

def C(s):
  return [ord(x) for x in txt(s)]

def problems_about(r, col):
  return [dict(type=ptype(p), lvl=plevel(p), col=pcol(p), val=C(pval(p))) for p in r.problems]

def level(ps):
  """error / warning / none of some problems"""
  l = [plevel(p) for p in ps]
  return 'error' if 'E' in l else 'warning' if l else 'none'

def number(v):
  return int(v) if abs(v) < 2 ** 31 else 0

def util_event(kind, t, x):
  """The text t given to the functions of util for its kind."""
  s = U(t)
  r, rep = reporter()
  o = dict(said='ok', n=0, has=False, col=True)
  ok = None
  if kind == 'time':
    try:
      o['n'], o['has'], ok = util.TimeToSecondsSinceMidnight(s), True, True
    except transitfeed.Error:
      ok = False
  elif kind == 'date':
    d = util.DateStringToDateObject(s)
    ok = d is not None
    if ok:
      o['n'], o['has'] = d.toordinal(), True
    if bool(util.IsValidDate(s)) != ok: ok = None
    if s.strip() and (bool(util.ValidateDate(s, 'c', rep)) != ok): ok = None
  elif kind == 'color':
    ok = bool(util.IsValidHexColor(s))
    if ok:
      o['n'], o['has'] = int(round(util.ColorLuminance(s) * 1000)), True
  elif kind == 'lang':
    ok = bool(util.IsValidLanguageCode(s))
    if s.strip() and bool(util.ValidateLanguageCode(s, 'c', rep)) != ok: ok = None
  elif kind == 'url':
    ok = bool(util.IsValidURL(s))
    if s.strip() and bool(util.ValidateURL(s, 'c', rep)) != ok: ok = None
  elif kind == 'email':
    ok = bool(util.ValidateEmail(s, 'c', rep))
  elif kind == 'tri':
    ok = bool(util.IsValidYesNoUnknown(s))
    if s.strip() and bool(util.ValidateYesNoUnknown(s, 'c', rep)) != ok: ok = None
  elif kind in ('nonneg', 'float'):
    f = util.NonNegIntStringToInt if kind == 'nonneg' else util.FloatStringToFloat
    try:
      v = f(s, rep)
      ok = True
      if v == v and abs(v) < 2000:
        o['n'], o['has'] = (int(v), True) if kind == 'nonneg' else (int(round(v * 1e6)), True)
      elif kind == 'nonneg':
        o['n'], o['has'] = number(v), abs(v) < 2 ** 31
    except (ValueError, TypeError):
      ok = False
  elif kind in ('enum1', 'enum3', 'enum4'):
    v = util.ValidateAndReturnIntValue(s, range(int(kind[4:]) + 1), -7, True, 'c', rep)
    ok = not r.problems
    if v != -7:
      o['n'], o['has'] = number(v), True
  if ok is None:
    o['said'] = 'inconsistent'
  elif r.problems:
    o['said'] = level(r.problems)
    o['col'] = all(C(pval(p)) == t and (pcol(p) == 'c' or ptype(p).startswith('Invalid') and ptype(p) != 'InvalidValue') for p in r.problems)
  elif not ok:
    o['said'] = 'error'
  return o

BASE = {
  'agency.txt': [['agency_id', 'agency_name', 'agency_url', 'agency_timezone', 'agency_lang', 'agency_phone', 'agency_fare_url', 'agency_email'],
                 ['DTA', 'Demo', 'http://example.com', 'America/Los_Angeles', '', '', '', '']],
  'stops.txt': [['stop_id', 'stop_name', 'stop_lat', 'stop_lon', 'stop_url', 'location_type', 'stop_timezone', 'wheelchair_boarding', 'zone_id'],
                ['A', 'Alpha', '46.1', '8.1', '', '', '', '', ''], ['B', 'Beta', '46.2', '8.2', '', '', '', '', ''], ['C', 'Gamma', '46.3', '8.3', '', '', '', '', ''],
                ['X', 'Chi', '47.3', '8.3', '', '', '', '', '']],
  'routes.txt': [['route_id', 'agency_id', 'route_short_name', 'route_long_name', 'route_type', 'route_url', 'route_color', 'route_text_color', 'bikes_allowed'],
                 ['R', 'DTA', '1', 'One', '3', '', '', '', '']],
  'calendar.txt': [['service_id', 'monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday', 'start_date', 'end_date'],
                   ['S', '1', '1', '1', '1', '1', '1', '1', '20200101', '20991231'], ['V', '1', '1', '1', '1', '1', '1', '1', '20200101', '20991231']],
  'calendar_dates.txt': [['service_id', 'date', 'exception_type'], ['S', '20201225', '2']],
  'trips.txt': [['route_id', 'service_id', 'trip_id', 'direction_id', 'shape_id', 'bikes_allowed', 'wheelchair_accessible'],
                ['R', 'S', 'T', '', '', '', ''], ['R', 'S', 'F', '', '', '', ''], ['R', 'V', 'G', '', '', '', '']],
  'stop_times.txt': [['trip_id', 'arrival_time', 'departure_time', 'stop_id', 'stop_sequence', 'pickup_type', 'drop_off_type', 'shape_dist_traveled', 'timepoint'],
                     ['T', '00:00:00', '00:00:00', 'A', '0', '', '', '', ''], ['T', '', '', 'B', '1', '', '', '', ''], ['T', '999:59:59', '999:59:59', 'C', '2000000000', '', '', '', ''],
                     ['F', '00:00:00', '00:00:00', 'A', '0', '', '', '', ''], ['F', '09:00:00', '09:00:00', 'C', '2', '', '', '', ''],
                     ['G', '07:00:00', '07:00:00', 'B', '0', '', '', '', ''], ['G', '09:00:00', '09:00:00', 'A', '2', '', '', '', '']],
  'frequencies.txt': [['trip_id', 'start_time', 'end_time', 'headway_secs', 'exact_times'], ['F', '00:00:00', '999:59:59', '600000', '']],
  'shapes.txt': [['shape_id', 'shape_pt_lat', 'shape_pt_lon', 'shape_pt_sequence', 'shape_dist_traveled'], ['P', '46.2', '8.2', '1', ''], ['Q', '46.2', '8.2', '1', '']],
  'feed_info.txt': [['feed_publisher_name', 'feed_publisher_url', 'feed_lang', 'feed_start_date', 'feed_end_date'], ['Pub', 'http://example.com', 'en', '', '']],
  'transfers.txt': [['from_stop_id', 'to_stop_id', 'transfer_type', 'min_transfer_time'], ['A', 'A', '2', '']],
  'fare_attributes.txt': [['fare_id', 'price', 'currency_type', 'payment_method', 'transfers', 'transfer_duration'], ['fare', '1.00', 'USD', '0', '', '']],
}
WHERE = {'stops.txt': 4, 'stop_times.txt': 2, 'frequencies.txt': 1}

def kept(s, f, col):
  """The value the loaded schedule holds for the varied cell."""
  one = lambda l: l[0] if len(l) == 1 else None
  st = lambda: one([x for x in s.GetTrip('T').GetStopTimes() if x.stop_id == 'B'])
  e = {'agency.txt': lambda: s.GetAgency('DTA'), 'stops.txt': lambda: s.stops.get('X'), 'routes.txt': lambda: s.routes.get('R'),
       'trips.txt': lambda: s.trips.get('T'), 'stop_times.txt': st, 'feed_info.txt': lambda: s.feed_info,
       'transfers.txt': lambda: one(list(s.GetTransferList())), 'fare_attributes.txt': lambda: one(s.GetFareAttributeList()),
       'calendar.txt': lambda: s.service_periods.get('S'), 'calendar_dates.txt': lambda: s.service_periods.get('S')}
  if f == 'shapes.txt':
    sh = dict((x.shape_id, x) for x in s.GetShapeList()).get('P')
    if sh is None or len(sh.points) != 1: return None
    return {'shape_pt_lat': sh.points[0][0], 'shape_pt_lon': sh.points[0][1], 'shape_dist_traveled': sh.points[0][2], 'shape_pt_sequence': sh.sequence[0]}[col]
  if f == 'frequencies.txt':
    q = s.GetTrip('F').GetFrequencyTuples()
    if len(q) != 1: return None
    return dict(start_time=q[0][0], end_time=q[0][1], headway_secs=q[0][2], exact_times=q[0][3])[col]
  e = e[f]()
  if e is None: return None
  if col in ('arrival_time', 'departure_time'): col = col[:-4] + 'secs'
  if f == 'calendar_dates.txt':
    ex = e.date_exceptions.items()
    return None if len(ex) != 1 else ex[0][0] if col == 'date' else ex[0][1][0]
  return getattr(e, col, None)

def as_number(kind, v):
  if v is None or v == '': return False, 0
  if kind in ('date', 'calendardate'):
    d = str(v) if all(ord(ch) < 128 for ch in txt(v)) else ''
    try:
      return True, datetime.date(int(d[:4]), int(d[4:6]), int(d[6:8])).toordinal()
    except ValueError:
      return False, 0
  if isinstance(v, basestring): return False, 0
  if kind in ('lat', 'lon', 'distance'):
    return v == v and abs(v) < 2000, int(round(v * 1e6)) if v == v and abs(v) < 2000 else 0
  return abs(v) < 2 ** 31, number(v)

def field_event(case, x):
  T = copy.deepcopy(BASE)
  f, t = x['file'], U(x['t'])
  row = T[f][WHERE.get(f, 1)]
  cols = [T[f][0].index(c) for c in x['cols']]
  for i in cols: row[i] = t
  if x['cols'] == ['start_date']: row[T[f][0].index('end_date')] = '21001231'
  if x['cols'] == ['end_date']: row[T[f][0].index('start_date')] = '19000101'
  if x.get('other'):            # a second colour
    row[T[f][0].index('route_text_color' if x['cols'][0] == 'route_color' else 'route_color')] = U(x['other'])
  r, rep = reporter()
  with Scratch() as d:
    write_feed(d, T)
    s = transitfeed.Loader(d, problems=rep, extra_validation=True, memory_db=True).Load()
    s.Validate(rep)
  mine, rest = [], []
  for p in r.problems:
    c = pcol(p)
    if c in x['cols'] or (not c and pval(p) and pval(p).strip() == t.strip()): mine.append(p)
    elif ptype(p) == 'OtherProblem' and 'shape_ids' in p.description or pcol(p) in ('feed_lang', 'end_time'): pass
    elif ptype(p) in ('UnusedStop', 'MinimumTransferTimeSetWithInvalidTransferType', 'ExpirationDate', 'FutureService', 'NoServiceExceptions', 'DuplicateTrip', 'TooFastTravel', 'TransferDistanceTooBig'): pass
    else: rest.append(p)
  contrast = [p for p in mine if ptype(p) == 'InvalidValue' and plevel(p) == 'W' and pcol(p) == 'route_color']
  if x['kind'] == 'color':
    mine = [p for p in r.problems if pcol(p) in x['cols'] and not (ptype(p) == 'InvalidValue' and plevel(p) == 'W')]
    contrast = [p for p in r.problems if ptype(p) == 'InvalidValue' and plevel(p) == 'W' and pcol(p) == 'route_color']
    rest = []
  has, n = False, 0
  v = kept(s, f, x['cols'][0])
  has, n = as_number(x['kind'], v)
  return dict(level=level(mine), missing=any(ptype(p) == 'MissingValue' for p in mine), invalid=any(ptype(p) != 'MissingValue' for p in mine),
              value=all(ptype(p) == 'MissingValue' or C(pval(p)) == C(t.strip()) or isinstance(p.__dict__.get('value'), (float, int, long)) for p in mine),
              file=all(pfile(p) in (f, '') for p in mine),
              rest=[ptype(p) + ' ' + pcol(p) for p in rest], has=has, n=n, text=C(v) if isinstance(v, basestring) else [], contrast=len(contrast))

def run(case):
  ev = []
  for e in case['ops']:
    x = dict(e['x'])
    if e['op'] == 'util':
      o = util_event(x['kind'], x['t'], x)
    elif e['op'] == 'format':
      t = util.FormatSecondsSinceMidnight(x['n'])
      o = dict(t=C(t), back=util.TimeToSecondsSinceMidnight(t))
    elif e['op'] == 'tz':
      o = dict(ok=bool(util.IsValidTimezone(x['name'])))
    else:
      o = field_event(case, x)
    ev.append(dict(op=e['op'], x=x, o=o))
  return {'ev': ev}
