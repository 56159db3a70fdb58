# Jython driver main: base.py DOMAIN CASES OUT
# Replays each case in the code of /repo and writes one JSON line per case.
import sys, os, json, traceback, datetime
REPO = os.environ['VERIF_REPO']
sys.path.insert(0, os.environ['VERIF_DRV'])
sys.path.insert(0, REPO)

def main():
  domain, fin, fout = sys.argv[1:4]
  mod = __import__('d_' + domain)
  out = open(fout, 'wb')
  def emit(o):
    out.write(json.dumps(o) + '\n')
    out.flush()
  emit({'ready': True})
  for line in open(fin, 'rb'):
    case = json.loads(line)
    try:
      res = mod.run(case)
      res['id'] = case['id']
      s = json.dumps(res)
    except KeyboardInterrupt:
      raise
    except:
      et, ev, tb = sys.exc_info()
      frames = [f[0] for f in traceback.extract_tb(tb)]
      text = ''.join(traceback.format_exception(et, ev, tb))[-4000:]
      if isinstance(text, str):
        text = text.decode('utf-8', 'replace')
      # lib: the innermost project frame belongs to the code under test
      lib = any(f.startswith(REPO + '/') for f in frames)
      # or what it answered cannot be read as what it should be
      data = (ValueError, LookupError, AssertionError, ArithmeticError)
      if not lib and isinstance(et, type):
        lib = issubclass(et, data) or (issubclass(et, (AttributeError, TypeError)) and 'NoneType' in str(ev))
      res = {'id': case['id'], 'crash': getattr(et, '__name__', str(et)), 'tb': text, 'lib': lib}
    emit(res)
  out.close()

main()
sys.stdout.flush()
os._exit(0)
