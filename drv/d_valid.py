# Schedules asked again and again: loaded in several row orders, validated, listed, written, edited and undone.
import datetime, os, warnings
import transitfeed
from common import *
import d_feed, d_store

def problem(p):
  return {'t': ptype(p), 'l': plevel(p), 'f': pfile(p), 'c': pcol(p), 'x': txt(p.FormatProblem()) + u' | ' + txt(p.FormatContext())}

def ordered(q):
  return sorted(q, key=lambda x: sorted(x.items()))

def reads(s, rep):
  """Getters that compute or keep something; some refuse defective schedules."""
  q = [lambda: s.GetDateRange(), lambda: s.GetServicePeriodsActiveEachDate(datetime.date(2026, 1, 1), datetime.date(2026, 1, 9)),
       lambda: s.GetStopBoundingBox(), lambda: s.GetNearestStops(46.5, 8.2, 2), lambda: s.GetDateRangeWithOrigins(), lambda: s.GenerateDateServicePeriodList(datetime.date(2026, 1, 1), datetime.date(2026, 1, 9))]
  for t in s.GetTripList():
    q += [lambda t=t: t.GetPattern(), lambda t=t: t.GetStopTimes(rep), lambda t=t: t.GetTimeStops(), lambda t=t: t.GetCountStopTimes(), lambda t=t: t.GetStartTime(rep), lambda t=t: t.GetEndTime(rep),
          lambda t=t: t.GetFrequencyStartTimes(), lambda t=t: t.GetTimeInterpolatedStops(), lambda t=t: t.GetFrequencyTuples(), lambda t=t: t.GetFrequencyStopTimes()]
  for r in s.GetRouteList():
    q += [lambda r=r: r.GetPatternIdTripDict()]
  for x in s.GetStopList():
    q += [lambda x=x: x.GetTrips(s), lambda x=x: x.GetStopTimeTrips(s)]
  for p in s.GetServicePeriodList():
    q += [lambda p=p: p.ActiveDates(), lambda p=p: p.GetDateRange()]
  for f in q:
    try:
      f()
    except Exception:
      pass

def attempt(f):
  try:
    f()
    return u''
  except Exception as e:
    return txt(e.__class__.__name__) + u' ' + txt(e)

def run(case):
  warnings.simplefilter('ignore')
  rec, rep = reporter()
  ev, k, old = [], 0, {}
  with Scratch() as d:
    s = None
    for e in case['ops']:
      e, o = dict(e), {}
      del rec.problems[:]
      box = {}
      if e['op'] == 'load':
        k += 1
        sub = os.path.join(d, 'f%d' % k)
        os.mkdir(sub)
        path = d_feed.write(sub, {'files': case['orders'][e['order']], 'zip': e['zip'], 'nl': '\n'})
        def f():
          box['s'] = transitfeed.Loader(path, problems=rep, extra_validation=False, memory_db=e['mem']).Load()
        crash = attempt(f)
        s = box.get('s')
        o['probs'] = ordered([problem(p) for p in rec.problems])
      elif e['op'] == 'new':
        s, crash = transitfeed.Schedule(problem_reporter=rep, memory_db=e['mem']), u''
      elif e['op'] == 'validate':
        a = e['args']
        kw = {}
        if a['today']:
          kw['today'] = datetime.date(a['today'] // 10000, a['today'] // 100 % 100, a['today'] % 100)
        if a['gap'] >= 0:
          kw['service_gap_interval'] = a['gap']
        if a['by'] == 'self':
          s.problem_reporter = rep
          crash = attempt(lambda: s.Validate(validate_children=bool(a['children']), **kw))
        else:
          crash = attempt(lambda: s.Validate(rep, validate_children=bool(a['children']), **kw))
        e['args'] = '%(children)d %(today)d %(gap)d' % a
        o['probs'] = ordered([problem(p) for p in rec.problems])
      elif e['op'] == 'look':
        def f():
          box['e'] = d_store.entities(s, rep)
        crash = attempt(f)
        o['ents'] = box.get('e', [])
      elif e['op'] == 'read':
        crash = attempt(lambda: reads(s, rep))
      elif e['op'] == 'add':
        crash = attempt(lambda: d_store.add(s, e['f'], e['r'], rep, e['how']))
        e['r'] = dict((c, d_store.value(v)) for c, v in e.get('eff', e['r']).items() if v is not None)
      elif e['op'] == 'set':
        x = d_store.entity(s, e['f'], e['key'])
        at = (e['f'], e['key'], e['c'])
        if e.get('undo'):
          v = old[at]
        else:
          v = e['v']
          old.setdefault(at, getattr(x, str(e['c']), None))
        crash = attempt(lambda: setattr(x, str(e['c']), v))
        e['v'] = d_store.value(v)
      elif e['op'] in ('write', 'reload'):
        k += 1
        path = os.path.join(d, 'w%d.zip' % k)
        crash = attempt(lambda: s.WriteGoogleTransitFeed(path))
        if e['op'] == 'write':
          o['refused'], crash = crash, ''
          o['tables'] = d_store.tables(path) if not o['refused'] else {}
        else:
          def f():
            box['s'] = transitfeed.Loader(path, problems=rep, extra_validation=False, memory_db=e['mem']).Load()
          crash = crash or attempt(f)
          s = box.get('s')
          old = {}
      o['crash'] = crash
      e['lit'] = case.get('lit', True)
      e['o'] = o
      ev.append(e)
      if s is None:
        break
  return {'ev': ev}
