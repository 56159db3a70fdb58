# Helpers shared by the drivers: projections that do not use the code under test.
import datetime, sys, os, tempfile, shutil
import transitfeed
from transitfeed import problems as problems_mod

EPOCH = datetime.date(2000, 1, 1).toordinal()

def txt(v):
  """Canonical text of a value: '' for None."""
  if v is None:
    return u''
  if isinstance(v, bool):
    return u'True' if v else u'False'
  if isinstance(v, unicode):
    return v
  if isinstance(v, str):
    return v.decode('utf-8', 'replace')
  if isinstance(v, float):
    return unicode(repr(v))
  if isinstance(v, (int, long)):
    return unicode(v)
  if isinstance(v, (list, tuple)):
    return u'[' + u','.join(txt(x) for x in v) + u']'
  return unicode(v)

def day(s):
  """YYYYMMDD text to a day number; -1 if it is not one."""
  try:
    s = str(s)
    if len(s) != 8 or not s.isdigit():
      return -1
    return datetime.date(int(s[:4]), int(s[4:6]), int(s[6:8])).toordinal() - EPOCH
  except ValueError:
    return -1

def day_text(n):
  d = datetime.date.fromordinal(n + EPOCH)
  return '%04d%02d%02d' % (d.year, d.month, d.day)

def day_date(n):
  return datetime.date.fromordinal(n + EPOCH)

class Recorder(transitfeed.ProblemAccumulatorInterface):
  """Keeps every reported problem."""
  def __init__(self):
    self.problems = []
  def _Report(self, e):
    self.problems.append(e)

def reporter():
  r = Recorder()
  return r, transitfeed.ProblemReporter(r)


def ptype(e):
  return e.__class__.__name__

def csv_cell(v):
  v = txt(v)
  if v != v.strip() or any(c in v for c in u',"\r\n'):
    v = u'"' + v.replace(u'"', u'""') + u'"'
  return v

def write_feed(d, tables):
  """tables: {file: [header list, row lists]} written as UTF-8 CSV."""
  for f, rows in tables.items():
    h = open(os.path.join(d, f), 'wb')
    for r in rows:
      h.write(u','.join(csv_cell(x) for x in r).encode('utf-8') + '\n')
    h.close()

class Scratch(object):
  """A scratch directory removed at the end."""
  def __enter__(self):
    self.d = tempfile.mkdtemp(prefix='case', dir=os.environ['TMPDIR'])
    return self.d
  def __exit__(self, *a):
    shutil.rmtree(self.d, ignore_errors=True)

def nint(v):
  """int or -1 for None/''."""
  if v is None or v == '':
    return -1
  return int(v)

def basic_tables(stops=(), routes=(('R', 3),), trips=()):
  """A minimal valid feed; stops: (id, lat, lon), trips: (id, route)."""
  return {
    'agency.txt': [['agency_id', 'agency_name', 'agency_url', 'agency_timezone'],
                   ['DTA', 'Demo Agency', 'http://example.com', 'America/Los_Angeles']],
    'stops.txt': [['stop_id', 'stop_name', 'stop_lat', 'stop_lon']] + [[i, 'Stop ' + i, repr(a), repr(b)] for i, a, b in stops],
    'routes.txt': [['route_id', 'agency_id', 'route_short_name', 'route_long_name', 'route_type']] +
                  [[r[0], 'DTA', 'N' + r[0], 'Long name ' + r[0], r[1]] for r in routes],
    'calendar.txt': [['service_id', 'monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday', 'start_date', 'end_date'],
                     ['FULLW', 1, 1, 1, 1, 1, 1, 1, '20260101', '20281231']],
    'trips.txt': [['route_id', 'service_id', 'trip_id']] + [[t[1], 'FULLW', t[0]] for t in trips],
    'stop_times.txt': [['trip_id', 'arrival_time', 'departure_time', 'stop_id', 'stop_sequence']],
  }

def hms(n):
  return '' if n is None or n < 0 else '%02d:%02d:%02d' % (n // 3600, n // 60 % 60, n % 60)

def plevel(p):
  return 'E' if p.IsError() else 'W' if p.IsWarning() else 'N'

def pfile(p):
  return txt(p.__dict__.get('file_name', ''))

def prow(p):
  v = p.__dict__.get('row_num', -1)
  return int(v) if isinstance(v, (int, long)) else -1

def pcol(p):
  return txt(p.__dict__.get('column_name', ''))

def pval(p):
  return txt(p.__dict__.get('value', ''))

def secs(t):
  """H+:MM:SS text to seconds; -1 otherwise."""
  t = txt(t).split(':')
  if len(t) != 3 or not all(x.isdigit() for x in t):
    return -1
  return int(t[0]) * 3600 + int(t[1]) * 60 + int(t[2])
