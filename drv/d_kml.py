# Schedules written as KML and KML documents read into schedules.
from common import *
import re, sys, StringIO, zipfile, csv
import xml.etree.ElementTree as ET
import kmlwriter, kmlparser

def tag(x):
  return x.tag.rpartition('}')[2]

def kid(x, name):
  q = [y for y in x if tag(y) == name]
  return q[0] if q else None

def text(x, name):
  y = kid(x, name)
  return u'' if y is None or y.text is None else txt(y.text)

def hidden(x):
  return text(x, 'visibility').strip() == '0'

def micro(v):
  n = int(round(float(v) * 1e6))
  return n if abs(n - float(v) * 1e6) < 1e-3 else -999999999

def geom(x):
  for g in ('Point', 'LineString'):
    y = kid(x, g)
    if y is not None:
      pts = []
      for p in text(y, 'coordinates').split():
        w = p.split(',')
        pts.append([micro(v) for v in w[:2]] + [int(round(2 * float(v))) for v in w[2:]])
      if g == 'LineString' and pts and len(pts[0]) == 3 and text(y, 'altitudeMode') != 'absolute':
        g = 'LineString on the ground'
      return g, pts
  return '', []

def mark(x):
  g, pts = geom(x)
  return {'name': text(x, 'name'), 'desc': text(x, 'description'), 'style': text(x, 'styleUrl'), 'hidden': hidden(x), 'geom': g, 'pts': pts}

def folder(x):
  return {'name': text(x, 'name'), 'desc': text(x, 'description'), 'hidden': hidden(x),
          'marks': [mark(y) for y in x if tag(y) == 'Placemark'], 'subs': [folder(y) for y in x if tag(y) == 'Folder']}

def style(x):
  q = [kid(x, 'LineStyle'), kid(x, 'IconStyle')]
  q = [y for y in q if y is not None]
  return {'id': x.get('id'), 'width': ''.join(text(y, 'width') for y in q), 'color': ''.join(text(y, 'color') for y in q).lower()}

def document(path):
  root = ET.parse(path).getroot()
  d = kid(root, 'Document')
  return {'err': '', 'doc': [folder(x) for x in d if tag(x) == 'Folder'], 'styles': [style(x) for x in d if tag(x) == 'Style'],
          'flat': [mark(x) for x in root.getiterator() if tag(x) == 'Placemark']}

def main(module, args):
  argv, out, err = sys.argv, sys.stdout, sys.stderr
  sys.argv = ['x'] + args
  sys.stdout = sys.stderr = StringIO.StringIO()
  try:
    module.main()
    return ''
  except SystemExit, e:
    return 'exit %s' % e
  finally:
    sys.argv, sys.stdout, sys.stderr = argv, out, err

def guarded(f):
  try:
    return f()
  except Exception, e:
    return {'err': '%s %s' % (e.__class__.__name__, e), 'doc': [], 'styles': [], 'flat': [], 'stops': [], 'shapes': [], 'taken': False}

def read_back(d, path, cli, flat):
  if cli:
    out = os.path.join(d, 'back.zip')
    e = main(kmlparser, [path, out])
    if e:
      raise Exception(e)
    z = zipfile.ZipFile(out)
    def rows(n):
      return list(csv.DictReader(StringIO.StringIO(z.read(n)))) if n in z.namelist() else []
    stops = [[txt(x['stop_name']), micro(x['stop_lon']), micro(x['stop_lat'])] for x in sorted(rows('stops.txt'), key=lambda x: int(x['stop_id']))]
    shapes, order = {}, []
    for x in rows('shapes.txt'):
      i = txt(x['shape_id'])
      if i not in shapes:
        shapes[i] = []; order.append(i)
      shapes[i].append((int(x['shape_pt_sequence']), [micro(x['shape_pt_lon']), micro(x['shape_pt_lat'])]))
    shapes = [{'id': i, 'pts': [p for _, p in sorted(shapes[i])]} for i in order]
  else:
    s = transitfeed.Schedule(memory_db=True)
    kmlparser.KmlParser().Parse(path, s)
    q = sorted(s.GetStopList(), key=lambda x: int(x.stop_id))
    stops = [[txt(x.stop_name), micro(x.stop_lon), micro(x.stop_lat)] for x in q]
    shapes = [{'id': txt(h.shape_id), 'pts': [[micro(p[1]), micro(p[0])] for p in h.points]} for h in s.GetShapeList()]
  # a name may already be the one made up for an earlier line of another name
  names = [m['name'] for m in flat if len(m['pts']) > 1]
  taken = any(a != b and b.startswith(a + '_') for a in names for b in names)
  return {'err': '', 'stops': stops, 'shapes': shapes, 'taken': taken}

def run(case):
  ev = []
  with Scratch() as d:
    if case['kind'] == 'feed':
      feed = os.path.join(d, 'my.feed')
      os.mkdir(feed)
      write_feed(feed, case['tables'])
      o = case['o']
      path = os.path.join(d, 'my.kml')
      r, rep = reporter()
      sched = transitfeed.Schedule(problem_reporter=rep, memory_db=True)
      sched.Load(feed)
      bad = [p for p in r.problems if p.IsError()]
      if bad:
        raise Exception('the feed has errors: %s' % bad[0])
      secs = {}
      for t in sched.GetTripList():
        secs[t.trip_id] = [x[0] for x in t.GetTimeInterpolatedStops()] if t.GetCountStopTimes() else []
      for t in case['feed']['trips']:
        t['secs'] = secs[t['id']]
      def write():
        if case['cli']:
          a = ['-t'] * o['trips'] + ['-s'] * o['split'] + ['-p'] * o['points'] + ['--show_stop_hierarchy'] * o['hier'] + ['-a', '%.1f' % (o['alt2'] / 2.0)]
          e = main(kmlwriter, a + (['-d', case['date']] if o['day'] else []) + [feed] + [path] * case['named'])
          if e:
            raise Exception(e)
        else:
          w = kmlwriter.KMLWriter()
          w.show_trips, w.split_routes, w.shape_points, w.show_stop_hierarchy = o['trips'], o['split'], o['points'], o['hier']
          w.altitude_per_sec = o['alt2'] / 2.0
          w.date_filter = case['date'] if o['day'] else None
          if case['named']:
            w.Write(sched, path)
          else:
            h = open(path, 'wb')
            w.Write(sched, h)
            h.close()
        return document(path)
      ev.append({'op': 'write', 'o': guarded(write)})
    else:
      path = os.path.join(d, 'my.kml')
      h = open(path, 'wb'); h.write(case['text'].encode('utf-8')); h.close()
      ev.append({'op': 'file', 'o': guarded(lambda: document(path))})
    if not ev[0]['o']['err']:
      ev.append({'op': 'read', 'o': guarded(lambda: read_back(d, path, case['backcli'], ev[0]['o']['flat']))})
  return {'feed': case['feed'], 'o': case['o'], 'ev': ev}
