from common import *

class A(object): pass
class B(object): pass
OWN = {'A': A, 'B': B}
NAMES = ['Agency', 'ServicePeriod', 'FareAttribute', 'FareRule', 'Frequency', 'FeedInfo', 'Shape', 'ShapePoint', 'Stop', 'StopTime', 'Route',
         'Transfer', 'Trip', 'Schedule', 'Loader']
BACK = dict((getattr(transitfeed, n), n) for n in NAMES)
BACK.update({A: 'A', B: 'B'})
CLASS = dict((n, c) for c, n in BACK.items())
FILES = ['agency.txt', 'calendar.txt', 'calendar_dates.txt', 'fare_attributes.txt', 'fare_rules.txt', 'feed_info.txt', 'frequencies.txt', 'shapes.txt',
         'stops.txt', 'stop_times.txt', 'routes.txt', 'transfers.txt', 'trips.txt', 'x.txt', 'y.txt', 'z.txt']
PY = {'req': 'required', 'ord': 'loading_order', 'cl': 'classes'}

def mapping(m):
  return dict((PY[k], None if (k == 'ord' and m[k] == 9999) else list(m[k]) if k == 'cl' else m[k]) for k in m['has'])

def tag(c):
  return BACK.get(c, 'other')

def byfile(f, n):
  try:
    c = f.GetGtfsClassByFileName(n)
  except problems_mod.NonStandardMapping:
    return 'NonStandardMapping'
  except (KeyError, AttributeError):
    return 'error'
  return 'none' if c is None else tag(c)

def byname(f, n):
  try:
    return tag(getattr(f, n))
  except AttributeError:
    return 'none'

def observe(f):
  return {'known': list(f.GetKnownFilenames()), 'order': f.GetLoadingOrder(), 'byname': [[n, byname(f, n)] for n in NAMES + ['X', 'Y']],
          'byfile': [[n, byfile(f, n)] for n in FILES], 'req': [[n, bool(f.IsFileRequired(n))] for n in FILES]}

def make(how):
  if how == 'schedule':
    return transitfeed.Schedule(memory_db=True).AddRoute('1', 'One', 'Bus').GetGtfsFactory
  if how in NAMES:
    return CLASS[how](*{'Shape': ['s'], 'StopTime': [None, None], 'ShapePoint': []}.get(how, [])).GetGtfsFactory
  f = transitfeed.GetGtfsFactory() if how == 'module' else transitfeed.GtfsFactory()
  return lambda: f

def run(case):
  if 'w' in case:
    import d_factoryuse
    return d_factoryuse.run(case)
  fs, dicts, ev = [], {}, []
  for e in case['ops']:
    e = dict(e)
    refused = ''
    try:
      if e['op'] == 'new':
        fs.append(make(e['how']))
      else:
        f = fs[e['f'] - 1]()
        if e['op'] in ('addmap', 'updmap'):
          m = mapping(e['m'])
          if e.get('dict'):
            m = dicts.setdefault(e['dict'], m)
          (f.AddMapping if e['op'] == 'addmap' else f.UpdateMapping)(e['n'], m)
        elif e['op'] == 'dict':
          d = dicts.get(e['dict'])
          if d is not None:
            d['required'], d['loading_order'] = not d.get('required'), 77
        elif e['op'] == 'rmmap':
          f.RemoveMapping(e['n'])
        elif e['op'] == 'addclass':
          f.AddClass(e['n'], CLASS[e['v']])
        elif e['op'] == 'updclass':
          f.UpdateClass(e['n'], CLASS[e['v']])
        elif e['op'] == 'rmclass':
          f.RemoveClass(e['n'])
    except problems_mod.ExtensionException as x:
      refused = x.__class__.__name__
    e['o'] = {'refused': refused, 'all': [observe(f()) for f in fs]}
    ev.append(e)
  return {'ev': ev}
