# Loads and validates feeds of arbitrary bytes; records crashes, problems and what was loaded.
import os, sys, zipfile, warnings, traceback, base64
import transitfeed
from common import *
import d_feed

def crash():
  et, ev, tb = sys.exc_info()
  fr = [f for f in traceback.extract_tb(tb) if '/transitfeed/' in f[0] or '/extensions/' in f[0]]
  return u'%s at %s' % (txt(et.__name__), u' < '.join(u'%s:%s' % (os.path.basename(f[0]), f[2]) for f in reversed(fr[-3:])))

def build(d, case):
  data = dict((f, base64.b64decode(b)) for f, b in case['raw'].items())
  if case['form'] == 'blob':
    path = os.path.join(d, 'feed.zip')
    h = open(path, 'wb')
    h.write(base64.b64decode(case['blob']))
    h.close()
    return path
  if case['form'] in ('zip', 'badzip'):
    path = os.path.join(d, 'feed.zip')
    z = zipfile.ZipFile(path, 'w')
    for f in sorted(data):
      z.writestr(f.encode('utf-8'), data[f])
    z.close()
    if case.get('spoil'):
      b = bytearray(open(path, 'rb').read())
      z = zipfile.ZipFile(path)
      for f in case['spoil']:
        i = z.getinfo(f.encode('utf-8'))
        b[i.header_offset + 30 + len(i.filename) + i.file_size // 2] ^= 1
      z.close()
      h = open(path, 'wb')
      h.write(bytes(b))
      h.close()
    if case['form'] == 'badzip':
      b = open(path, 'rb').read()
      for at, v in case['flips']:
        i = at % len(b)
        b = b[:i] + chr(v) + b[i + 1:]
      h = open(path, 'wb')
      h.write(b[:len(b) - case['cut']] if case['cut'] else b)
      h.close()
    return path
  path = os.path.join(d, 'feed')
  os.mkdir(path)
  for f in data:
    h = open(os.path.join(path, f), 'wb')
    h.write(data[f])
    h.close()
  for f in case.get('dirs', []):
    if not os.path.exists(os.path.join(path, f)):
      os.mkdir(os.path.join(path, f))
  return path

def run(case):
  warnings.simplefilter('ignore')
  ev = []
  x = {'form': case['form'], 'extra': case['extra']}
  if 'lines' in case:
    x['lines'] = True
  with Scratch() as d:
    path = build(d, case)
    rec, rep = reporter()
    s = None
    bad = u''
    try:
      s = transitfeed.Loader(path, problems=rep, extra_validation=case['extra'], memory_db=case['mem']).Load()
    except Exception:
      bad = crash()
    probs = [d_feed.problem(p) for p in rec.problems]
    ev.append({'op': 'load', 'x': x, 'o': {'crash': bad, 'probs': [[p['cls'], p['l'], p['file'], p['row'], p['c'] or txt(q.__dict__.get('header', ''))] for p, q in zip(probs, rec.problems)]}})
    if s is not None:
      bad = u''
      d_feed.REP = rep
      try:
        ents = d_feed.entities(s)
      except Exception:
        ents, bad = [], crash()
      ev.append({'op': 'list', 'x': x, 'o': {'crash': bad, 'ents': ents}})
      bad = u''
      try:
        s.Validate(rep)
      except Exception:
        bad = crash()
      ev.append({'op': 'validate', 'x': x, 'o': {'crash': bad}})
      bad = u''
      try:
        for p in rec.problems:
          p.FormatProblem(), p.FormatContext()
      except Exception:
        bad = crash()
      ev.append({'op': 'format', 'x': x, 'o': {'crash': bad}})
  return {'ev': ev, 'lex': case.get('lex', {}), 'lines': case.get('lines', {}), 'odd': case.get('odd', [])}
