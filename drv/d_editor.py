# The location editor on a loopback port, moved and saved over HTTP, ended and started again.
from common import *
import d_viewer, location_editor, hashlib, csv, json, sys, zipfile, StringIO

class Quiet(location_editor.LocationEditorRequestHandler):
  def log_message(self, *a):
    pass

class Server(d_viewer.Server):
  handler = Quiet

def tables(path):
  """{file: its rows} of a feed in a zip file or a directory; None if it cannot be read"""
  out = {}
  if os.path.isdir(path):
    for f in os.listdir(path):
      out[f] = open(os.path.join(path, f), 'rb').read()
  else:
    try:
      z = zipfile.ZipFile(path)
      for f in z.namelist():
        out[f] = z.read(f)
      z.close()
    except Exception:
      return None
  return dict((f, list(csv.reader(StringIO.StringIO(x)))) for f, x in out.items())

def look(path):
  """(places of the stops, digest of everything else), without empty fields and in no order"""
  tab = tables(path)
  if tab is None:
    return [['unreadable', 0, 0]], 'unreadable'
  places, rest = [], []
  for f in tab:
    rows = tab[f]
    for r in rows[1:]:
      d = dict((k, v) for k, v in zip(rows[0], r) if v != '')
      if f == 'stops.txt':
        places.append([d.get('stop_id', '').decode('utf-8'), d_viewer.milli(d.pop('stop_lat', '')), d_viewer.milli(d.pop('stop_lon', ''))])
        if d.get('location_type') == '0':
          del d['location_type']
      rest.append(repr((f, sorted(d.items()))))
  return places, hashlib.md5('\n'.join(sorted(rest))).hexdigest()

def load(path):
  r, rep = reporter()
  sched = transitfeed.Schedule(problem_reporter=rep, memory_db=True)
  sched.Load(path)
  bad = [p for p in r.problems if p.IsError()]
  return sched, bad

def run(case):
  with Scratch() as d:
    src, files, feed = os.path.join(d, 'src'), os.path.join(d, 'files'), os.path.join(d, 'feed.zip')
    os.mkdir(src); os.mkdir(files)
    write_feed(src, case['tables'])
    sched, bad = load(src)
    if bad:
      raise Exception('the feed has errors: %s' % bad[0])
    # as a feed that the library wrote, so that a save has nothing else to change
    sched.WriteGoogleTransitFeed(feed)
    if case['where'] == 'dir':
      z = zipfile.ZipFile(feed); feed = os.path.join(d, 'feed'); os.mkdir(feed); z.extractall(feed); z.close()
    sched, bad = load(feed)
    sys_out = sys.stdout
    def seen(o):
      o['stops'] = [[d_viewer.t(s.stop_id), d_viewer.milli(s.stop_lat), d_viewer.milli(s.stop_lon)] for s in sched.GetStopList()]
      o['file'], o['rest'] = look(feed)
      return o
    at = []
    for x in case['feed']['trips']:
      at.append([int(s) for s, st, tp in sched.GetTrip(x['id']).GetTimeInterpolatedStops()])
    ev = [{'op': 'load', 'o': seen({'at': at})}]
    def start():
      srv = Server(sched, files, case['feed']['key'], case['feed']['host'])
      srv.s.feed_path = feed
      return srv
    srv = start()
    try:
      for g in case['gets']:
        if g['op'] == 'restart':
          srv.close()
          sched, bad = load(feed)
          srv = start()
          ev.append({'op': 'restart', 'o': seen({'errors': len(bad)})})
          continue
        a = srv.ask(g['path'].encode('utf-8'))
        o = {'alive': a is not None, 'status': 0, 'whole': False, 'null': False, 'ans': [], 'said': False}
        if a is not None:
          o['status'], hd, body, o['whole'] = d_viewer.split(a)
          if o['status'] == 200:
            try:
              if g['op'] == 'get':
                o['ans'] = d_viewer.read(g['kind'], body)
              else:
                m = json.loads(body)
                o['said'] = ('saved to' in m if g['op'] == 'save' else ' set to ' in m)
            except (ValueError, TypeError, KeyError, IndexError, AttributeError, SyntaxError):
              o['whole'] = False
            if o['ans'] is None:
              o['null'], o['ans'] = True, []
        ev.append({'op': g['op'], 'kind': g['kind'], 'p': g['p'], 'o': seen(o)})
    finally:
      srv.close()
      sys.stdout = sys_out
    return {'ev': ev, 'feed': case['feed'], 'where': case['where']}
