# A schedule viewer on a loopback port of its own, asked over HTTP.
from common import *
import xml.etree.ElementTree as ET
import json, schedule_viewer, socket, sys, StringIO, urlparse

INDEX = '[agency]|[min_lat]|[min_lon]|[max_lat]|[max_lon]|[key]|[host]|[forbid_editing]'

class Quiet(schedule_viewer.ScheduleRequestHandler):
  def log_message(self, *a):
    pass

class Server(object):
  handler = Quiet
  def __init__(self, schedule, files, key='K', host='maps.example.com'):
    s = schedule_viewer.StoppableHTTPServer(('127.0.0.1', 0), self.handler)
    s.schedule, s.file_dir, s.key, s.host, s.feed_path = schedule, files, key, host, 'feed'
    self.s = s
    s.handle_error = lambda *a: None
  def ask(self, path, method='GET'):
    """The bytes of the answer; None if the server is not there."""
    c = socket.socket()
    c.settimeout(20)
    try:
      c.connect(self.s.socket.getsockname())
      c.sendall('%s %s HTTP/1.0\r\n\r\n' % (method, path))
      out, err = sys.stdout, sys.stderr
      # a log file, which like that of a service takes bytes only
      sys.stdout = sys.stderr = open(os.devnull, 'w')
      try:
        self.s.handle_request()
      finally:
        sys.stdout.close()
        sys.stdout, sys.stderr = out, err
      d = ''
      while True:
        x = c.recv(65536)
        if not x:
          return d
        d += x
    except socket.error:
      return None
    finally:
      c.close()
  def close(self):
    self.s.server_close()

def split(d):
  """status (0: none), headers, body, whether there is exactly one answer of the promised length."""
  head, _, body = d.partition('\r\n\r\n')
  lines = head.split('\r\n')
  w = lines[0].split(' ')
  if not lines[0].startswith('HTTP/') or len(w) < 2 or not w[1].isdigit():
    return 0, {}, '', False
  h = {}
  for x in lines[1:]:
    k, _, v = x.partition(':')
    h.setdefault(k.strip().lower(), []).append(v.strip())
  n = h.get('content-length', [])
  return int(w[1]), dict((k, v[0]) for k, v in h.items()), body, len(n) == 1 and n[0] == str(len(body)) and len(h.get('content-type', [])) == 1

def milli(v):
  if isinstance(v, basestring):
    try:
      v = float(v)
    except ValueError:
      return -999999
  if isinstance(v, bool) or not isinstance(v, (int, long, float)):
    return -999999
  if not abs(v) < 1e6:
    return -999999
  n = int(round(v * 1000))
  return n if abs(n - v * 1000) < 1e-6 else -999999

def t(v):
  return v if isinstance(v, unicode) else '' if v is None else 'not text: %r' % (v,)

def n(v):
  return -1 if v is None else v if isinstance(v, (int, long)) and not isinstance(v, bool) else -999999

def stop(x):
  return [t(x[0]), t(x[1]), milli(x[2]), milli(x[3]), n(x[4])]

def row(d):
  return sorted([k, t(v) if isinstance(v, (unicode, type(None))) else '%s' % v] for k, v in d if v not in (None, u''))

def graph(body):
  """[the hours along the grid, the number of station lines, the trips as [id, points]] of an SVG document"""
  def points(x):
    w = [int(v) if v.isdigit() else float(v) for v in x.get('points').replace(',', ' ').split()]
    return [list(w[i:i + 2]) for i in range(0, len(w), 2)]
  root = ET.fromstring(body)
  hours, stations, trips = [], 0, []
  for x in root.getiterator():
    k, c = x.tag.rpartition('}')[2], x.get('class')
    if k == 'text' and c == 'Label':
      hours.append([int(x.get('x')), int(x.text)])
    if k == 'polyline' and c == 'Station':
      stations += 1
    if k == 'polyline' and c == 'T':
      trips.append([t(u'%s' % x.get('id')), [[int(a), int(b)] for a, b in points(x)]])
  return [hours, stations, trips]

def read(kind, body):
  if kind == 'home':
    w = body.decode('utf-8').split('|')
    return [w[0]] + [milli(x) for x in w[1:5]] + w[5:]
  if kind == 'graph':
    return graph(body)
  j = json.loads(body)
  if j is None:
    return None
  if kind == 'routes':
    return [[t(y) for y in x] for x in j]
  if kind == 'routerow':
    return row(zip(*j)) if len(j) == 2 and len(j[0]) == len(j[1]) else [['?', '?']]
  if kind == 'triprows':
    return [[f, row(x.items())] for f, x in j]
  if kind == 'tripstoptimes':
    return [[stop(x) for x in j[0]], [n(x) for x in j[1]], [n(x) for x in j[2]]]
  if kind == 'tripshape':
    return [[[milli(a), milli(b)] for a, b in j['points']], t(j.get('color'))]
  if kind in ('neareststops', 'boundboxstops', 'stopsearch'):
    return [stop(x) for x in j]
  if kind == 'stoptrips':
    return [[n(x[0]), t(x[1][0]), t(x[1][1]), t(x[1][2]), x[2] if isinstance(x[2], bool) else '?'] for x in j]
  if kind == 'routepatterns':
    return [{'name': t(x[0]), 'id': '%s' % x[1], 'before': n(x[2]), 'sample': [[n(y[0]), t(y[1])] for y in x[3]], 'after': n(x[4]), 'special': n(x[5])} for x in j]
  return []

def run(case):
  with Scratch() as d:
    feed, files = os.path.join(d, 'feed'), os.path.join(d, 'files')
    os.mkdir(feed); os.mkdir(files)
    write_feed(feed, case['tables'])
    h = open(os.path.join(files, 'index.html'), 'wb'); h.write(INDEX); h.close()
    r, rep = reporter()
    sched = transitfeed.Schedule(problem_reporter=rep, memory_db=True)
    sched.Load(feed)
    r.problems = [p for p in r.problems if p.IsError()]
    if r.problems:
      raise Exception('the feed has errors: %s' % r.problems[0])
    at = []
    for x in case['feed']['trips']:
      at.append([int(s) for s, st, tp in sched.GetTrip(x['id']).GetTimeInterpolatedStops()])
    ev = [{'op': 'load', 'o': {'at': at}}]
    srv = Server(sched, files, case['feed']['key'], case['feed']['host'])
    try:
      for g in case['gets']:
        a = srv.ask(g['path'].encode('utf-8'))
        o = {'alive': a is not None, 'status': 0, 'whole': False, 'null': False, 'ans': []}
        if a is not None:
          o['status'], hd, body, o['whole'] = split(a)
          if o['status'] == 200:
            try:
              o['ans'] = read(g['kind'], body)
            except (ValueError, TypeError, KeyError, IndexError, AttributeError, SyntaxError):
              o['whole'] = False
            if o['ans'] is None:
              o['null'], o['ans'] = True, []
        ev.append({'op': 'get', 'kind': g['kind'], 'p': g['p'], 'o': o})
    finally:
      srv.close()
    return {'ev': ev, 'feed': case['feed']}
