# Language tags as the Google extension sees them.
from common import *
import extensions.googletransit as ext
from extensions.googletransit import extension_util

def U(t):
  return u''.join(unichr(x) for x in t)
def C(s):
  return [ord(x) for x in txt(s)]
def reports(r):
  return [{'col': pcol(p), 'value': C(pval(p)), 'level': plevel(p)} for p in r.problems]

def run(case):
  t = U(case['tag'])
  ev = []
  for op in case['ops']:
    if op == 'parse':
      x = extension_util.parser.ParseLanguage(t)
      ev.append({'op': op, 'o': {'formed': bool(x.wellformed), 'valid': bool(x.valid)}})
    elif op == 'is':
      ev.append({'op': op, 'o': bool(extension_util.IsValidLanguageCode(t))})
    elif op == 'check':
      r, rep = reporter()
      ok = bool(extension_util.ValidateLanguageCode(t, 'agency_lang', rep))
      ev.append({'op': op, 'o': {'ok': ok, 'reports': reports(r)}})
    elif op == 'load':
      with Scratch() as d:
        write_feed(d, {'agency.txt': [['agency_id', 'agency_name', 'agency_url', 'agency_timezone', 'agency_lang'], ['a', 'A', 'http://example.com', 'Europe/Berlin', t]]})
        r, rep = reporter()
        f = ext.GetGtfsFactory()
        s = f.Loader(d, problems=rep, extra_validation=False, memory_db=True, gtfs_factory=f).Load()
        r.problems = [p for p in r.problems if pfile(p) == 'agency.txt']
        ev.append({'op': op, 'o': {'reports': reports(r), 'kept': C(s.GetAgency('a').agency_lang)}})
  return {'reg': case['reg'], 'tag': case['tag'], 'ev': ev}
