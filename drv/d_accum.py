# -*- coding: utf-8 -*-
from common import *
import re, StringIO
import feedvalidator
from transitfeed import util, problems as P

LV = {'E': transitfeed.TYPE_ERROR, 'W': transitfeed.TYPE_WARNING, 'N': transitfeed.TYPE_NOTICE}
PAIRED = ('DuplicateTrip', 'OverlappingTripsInSameBlock', 'StopWithMultipleRouteTypes')
NAMES = {'E': 'Error', 'W': 'Warning', 'N': 'Notice'}

class Stdout(object):
  def __enter__(self):
    self.old, self.buf = sys.stdout, StringIO.StringIO()
    sys.stdout = self.buf
    return self
  def __exit__(self, *a):
    sys.stdout = self.old
  def text(self):
    return u''.join(txt(x) for x in self.buf.buflist) + txt(self.buf.buf) if self.buf.buflist else txt(self.buf.getvalue())

def squash(t):
  """Without white space and markup."""
  return re.sub(r'</?code>|<a href="[^"]*">|</a>|<br>|\s+', '', txt(t))

def report(pr, x):
  """Reports the abstract problem x."""
  k, t, d, tag = x['cls'], LV[x['lvl']], x['dist'] / 10.0, x['text']
  if k == 'StopsTooClose': pr.StopsTooClose(tag, 'a', 'B', 'b', d, type=t)
  elif k == 'StationsTooClose': pr.StationsTooClose(tag, 'a', 'B', 'b', d, type=t)
  elif k == 'DifferentStationTooClose': pr.DifferentStationTooClose(tag, 'a', 'B', 'b', d, type=t)
  elif k == 'StopTooFarFromParentStation': pr.StopTooFarFromParentStation('a', tag, 'b', 'B', d, type=t)
  elif k == 'StopTooFarFromShapeWithDistTraveled': pr.StopTooFarFromShapeWithDistTraveled('t', tag, 'a', 1.0, 'sh', d, 5.0, type=t)
  elif k == 'TooFastTravel': pr.TooFastTravel('t', tag, 'B', d, 10, d if x['tag'] % 2 else None, type=t)
  elif k == 'InvalidValue': pr.InvalidValue('col', tag, type=t, context=('f.txt', 7, ['x', tag], ['col', 'other']) if x['tag'] % 2 else None)
  elif k == 'OtherProblem': pr.OtherProblem(tag, type=t)
  elif k == 'MissingFile': pr.MissingFile(tag, type=t)
  elif k == 'UnusedStop': pr.UnusedStop('s', tag, type=t)
  elif k == 'DuplicateID': pr.DuplicateID(('a', 'b'), ('q', tag), type=t)
  else: raise Exception(k)

def html_facts(h):
  h = txt(h)
  r = {'pass': u'<span class="pass">feed validated successfully</span>' in h}
  for k, w in (('errors', 'error'), ('warnings', 'warning')):
    m = re.findall(r'<td><span class="fail">(\d+) %ss?</span></td>' % w, h)
    r[k] = int(m[0]) if len(m) == 1 else 0 if not m else -1
  r['rows'], r['sections'] = {}, {}
  for lv, n in NAMES.items():
    r['rows'][lv] = [{'cls': c, 'n': int(k)} for k, c in re.findall(r'<tr><td>(\d+)</td><td><a href="#%s(\w+)">' % n, h)]
    sec = []
    for m in re.finditer(r'(?s)<h4 class="issueHeader"><a name="%s(\w+)">.*?</a></h4><ul>\n(.*?)</ul>\n' % n, h):
      body = m.group(2)
      more = re.findall(r'<li>and (\d+) more of this type\.', body)
      sec.append({'cls': m.group(1), 'kept': [squash(x) for x in re.findall(r'(?s)<li><div class="problem(?: notice)?">(.*?)</div>', body)],
                  'more': int(more[0]) if more else 0})
    r['sections'][lv] = sec
  return r

def counts(text):
  """'2 errors and 1 warning' to [2, 1]"""
  out = []
  for w in ('error', 'warning'):
    m = re.findall(r'(\d+) %s(s?)\b' % w, txt(text))
    n = int(m[0][0]) if m else 0
    out.append(n if not m or (n == 1) == (m[0][1] == '') else -1)
  return out

def printed(out, exps):
  """How many of the texts appear one after another, and what is left."""
  out, n, pos, rest = squash(out), 0, 0, u''
  for e in exps:
    i = out.find(e, pos)
    if i < 0: break
    rest += out[pos:i]
    pos, n = i + len(e), n + 1
  return n, rest + out[pos:]

def facts(acc):
  return {'n': {'E': acc.ErrorCount(), 'W': acc.WarningCount(), 'N': len(acc.ProblemListMap(LV['N'])) and sum(v.count for v in acc.ProblemListMap(LV['N']).values()) if hasattr(acc, 'ProblemListMap') else acc.NoticeCount()},
          'issues': bool(acc.HasIssues()), 'notices': bool(acc.HasNotices())}

class Hook(object):
  """Notes the problems reported during a run, in order."""
  def __enter__(self):
    self.seen = []
    self.old = P.ProblemReporter.AddToAccumulator
    old, seen = self.old, self.seen
    def add(rep, e):
      seen.append(e)
      return old(rep, e)
    P.ProblemReporter.AddToAccumulator = add
    return self
  def __exit__(self, *a):
    P.ProblemReporter.AddToAccumulator = self.old

def abstract(es):
  """Abstract problems; distances by rank."""
  def dist(e):
    v = e.__dict__.get('distance', e.__dict__.get('dist', 0))
    return v if isinstance(v, (int, long, float)) else 0
  ranks = dict((d, i) for i, d in enumerate(sorted(set(dist(e) for e in es))))
  return [{'lvl': plevel(e), 'cls': ptype(e), 'dist': ranks[dist(e)], 'tag': squash(e.FormatProblem())} for e in es]

def sched_for(case):
  r, rep = reporter()
  s = transitfeed.Schedule(problem_reporter=rep, memory_db=True)
  for i, n in enumerate(case['agencies']):
    s.AddAgencyObject(transitfeed.Agency(n, 'http://example.com', 'America/Los_Angeles', 'a%d' % i))
  return s

def direct(case):
  ign = case['ign'] or None
  con = feedvalidator.CountingConsoleProblemAccumulator(ign)
  lim = feedvalidator.HTMLCountingProblemAccumulator(case['limit'], ign)
  plain, warn = P.ExceptionProblemAccumulator(), P.ExceptionProblemAccumulator(raise_warnings=True)
  ev, texts, printed_texts = [], {}, []
  for x in case['reports']:
    o = {'raised': {}}
    for k, acc in (('plain', plain), ('warn', warn)):
      with Stdout():
        try:
          report(P.ProblemReporter(acc), x)
          o['raised'][k] = False
        except P.ExceptionWithContext:
          o['raised'][k] = True
    rec, rep = reporter()
    report(rep, x)
    e = rec.problems[0]
    texts[squash(e.FormatProblem())] = x['tag']
    with Stdout() as so:
      report(P.ProblemReporter(con), x)
    printed_texts.append((so.text(), squash(txt(e.FormatContext()) + txt(e.FormatProblem())), x['cls']))
    report(P.ProblemReporter(lim), x)
    ev.append({'op': 'rep', 'x': {'lvl': x['lvl'], 'cls': x['cls'], 'dist': x['dist'], 'tag': squash(e.FormatProblem())}, 'o': o})
    if x['tag'] in case['looks']:
      ev.append(state(case, con, lim, printed_texts))
  ev.append(state(case, con, lim, printed_texts))
  return {'limit': case['limit'], 'ign': case['ign'], 'ev': ev}

def state(case, con, lim, printed_texts):
  n, rest = 0, u''
  for got, exp, cls in printed_texts:
    if cls in case['ign']:
      rest += squash(got)
    else:
      k, left = printed(got, [exp])
      n += k
      rest += left
  o = {'count': facts(con), 'limit': facts(lim), 'printed': n, 'rest': rest}
  o['count']['text'], o['limit']['text'] = counts(con.FormatCount()), counts(lim.FormatCount())
  o['kept'] = []
  for lv, cls in case['ask']:
    b = lim.ProblemList(LV[lv], str(cls))
    o['kept'].append({'lvl': lv, 'cls': cls, 'n': b.count, 'kept': [squash(e.FormatProblem()) for e in b.problems], 'dropped': b.dropped_count})
  o['kinds'] = dict((lv, sorted(lim.ProblemListMap(LV[lv]).keys())) for lv in LV)
  # what was asked leaves no trace
  with Scratch() as d:
    f = open(os.path.join(d, 'out.html'), 'w')
    lim.WriteOutput(case['feed'].encode('utf-8'), f, sched_for(case), None)
    f.close()
    o['html'] = html_facts(open(os.path.join(d, 'out.html'), 'rb').read())
  o['limit'].update(facts(lim))
  return {'op': 'state', 'o': o}

def whole(case):
  with Scratch() as d:
    os.mkdir(os.path.join(d, 'feed'))
    feed = os.path.join(d, 'feed')
    for f, rows in case['tables'].items():
      case['tables'][f] = [rows[0]] + rows[1:]
    write_feed(feed, case['tables'])
    rec, rep = reporter()
    with Stdout():
      transitfeed.Loader(feed, problems=rep, extra_validation=False, memory_db=True, check_duplicate_trips=case['dup']).Load().Validate(
          service_gap_interval=case['gap'], validate_children=False)
    found = [[plevel(e), ptype(e), '' if ptype(e) in PAIRED else squash(e.FormatProblem())] for e in rec.problems]
    out = {'console': 'CONSOLE', 'html': os.path.join(d, 'out.html'), 'unwritable': os.path.join(d, 'none', 'out.html')}[case['out']]
    argv = ['feedvalidator.py', '-n', '-o', out, '-l', str(case['limit']), '--latest_version', '.'.join(map(str, case['latest'])),
            '--service_gap_interval', str(case['gap'])]
    if case['mem']: argv.append('-m')
    if case['dup']: argv.append('-d')
    if case['ign']: argv.append('--error_types_ignore_list=' + ','.join(case['ign']))
    argv.append(feed)
    old = sys.argv
    sys.argv = argv
    code = None
    try:
      with Stdout() as so:
        with Hook() as hook:
          try:
            util.RunWithCrashHandler(feedvalidator.main)
          except SystemExit as e:
            code = e.code
    finally:
      sys.argv = old
    o = {'exit': int(code) if code is not None else -1, 'found': found, 'reports': abstract(hook.seen)}
    if code == 127:
      o['crash'] = so.text()[-3000:]
    text = so.text()
    m = re.findall(r'ERROR: (.*) found\n', text)
    ok = 'feed validated successfully\n' in text
    o['text'] = [-1, -1] if len(m) + ok != 1 else counts(m[0]) if m else [0, 0]
    if case['out'] == 'html':
      o['html'] = html_facts(open(out, 'rb').read()) if os.path.exists(out) else html_facts('')
    if case['out'] == 'console':
      shown = [e for e in hook.seen if ptype(e) not in case['ign']]
      o['printed'], rest = printed(text, [squash(txt(e.FormatContext()) + txt(e.FormatProblem())) for e in shown])
      o['rest'] = re.sub(u'ERROR:.*found$|feedvalidatedsuccessfully$', u'', rest.replace(squash('validating %s' % feed), u'').replace(u'FeedValidatorextensionused:None', u''))
    own = [int(x) for x in transitfeed.__version__.split('.')]
    return {'limit': case['limit'], 'ign': case['ign'], 'ev': [{'op': 'run', 'x': {'out': case['out'], 'latest': case['latest'], 'own': own}, 'o': o}]}

def handler(case):
  with Scratch() as d:
    old = os.getcwd()
    os.chdir(d)
    try:
      def f():
        if case['raises']:
          raise {'value': ValueError, 'key': KeyError, 'error': transitfeed.Error}[case['raises']]('x\xc3\xa9')
        return case['code']
      with Stdout():
        try:
          util.RunWithCrashHandler(f)
          code = -1
        except SystemExit as e:
          code = e.code
      o = {'exit': int(code or 0), 'crashfile': os.path.exists(os.path.join(d, 'transitfeedcrash.txt'))}
    finally:
      os.chdir(old)
  return {'limit': 5, 'ign': [], 'ev': [{'op': 'handler', 'x': {'raises': bool(case['raises']), 'code': case['code']}, 'o': o}]}

def run(case):
  return {'direct': direct, 'whole': whole, 'handler': handler}[case['mode']](case)
