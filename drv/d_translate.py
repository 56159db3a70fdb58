# Feeds with the old translation table converted to the new one.
from common import *
import base64, csv, sys, StringIO
import upgrade_translations as up

def read_table(p):
  b = open(p, 'rb').read()
  if b.startswith('\xef\xbb\xbf'):
    b = b[3:]
  rows = [[txt(v) for v in r] for r in csv.reader(StringIO.StringIO(b)) if r]
  return rows

def contents(d):
  return dict((f, open(os.path.join(d, f), 'rb').read()) for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)))

def run(case):
  with Scratch() as d:
    src = os.path.join(d, 'feed')
    os.mkdir(src); os.mkdir(os.path.join(src, 'more.txt')) if case['dir'] else None
    for f, b in case['files'].items():
      h = open(os.path.join(src, f), 'wb'); h.write(base64.b64decode(b)); h.close()
    before = contents(src)
    dest = {'default': src + '_upgraded', 'given': os.path.join(d, 'out', 'new'), 'there': os.path.join(d, 'there'), 'same': src, 'inside': os.path.join(src, 'new')}[case['dest']]
    if case['dest'] == 'there':
      os.mkdir(dest)
    argv, out, err = sys.argv, sys.stdout, sys.stderr
    sys.stdout = sys.stderr = StringIO.StringIO()
    o = {'err': '', 'written': False, 'same': False, 'copied': True, 'tables': [], 'entries': []}
    try:
      if case['cli']:
        sys.argv = ['x', src + case['slash']] + ([] if case['dest'] == 'default' else [dest])
        up.main()
      else:
        up.TranslationsConverter(src).convert_translations(dest)
    except Exception, e:
      o['err'] = txt('%s %r' % (e.__class__.__name__, e.args))
    except SystemExit, e:
      o['err'] = 'exit %s' % e
    finally:
      sys.argv, sys.stdout, sys.stderr = argv, out, err
    o['same'] = contents(src) == before
    o['written'] = os.path.isdir(dest) and dest != src and bool(os.listdir(dest))
    if not o['err'] and os.path.isdir(dest):
      after = contents(dest)
      for f in sorted(before):
        if f in case['plain'] and (f not in after or after[f] != before[f]):
          o['copied'] = False
      o['tables'] = []
      for f in sorted(after):
        if not f.endswith('.txt') or f in case['plain']:
          continue
        rows = read_table(os.path.join(dest, f))
        if f == 'translations.txt':
          for r in rows[1:]:
            w = dict(zip(rows[0], r))
            o['entries'].append({'table': w['table_name'], 'field': w['field_name'], 'lang': w['language'], 'text': w['translation'],
                                 'rid': w.get('record_id', ''), 'sub': w.get('record_sub_id', ''), 'val': w.get('field_value', '')})
        else:
          o['tables'].append({'name': f[:-4], 'cols': rows[0] if rows else [], 'rows': rows[1:]})
    return {'old': case['old'], 'main': case['main'], 'tables': case['tables'], 'usable': case['usable'], 'ev': [{'op': 'convert', 'o': o}]}
