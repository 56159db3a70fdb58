# Static file requests to a viewer whose directory lies in a scratch tree.
from common import *
import base64
from d_viewer import Server, split

class Nothing(object):
  """No schedule: these requests are not about one."""
  def __getattr__(self, name):
    raise KeyError(name)

def run(case):
  with Scratch() as d:
    root = os.path.join(d, 'served')
    os.mkdir(root)
    contents = {}
    for x in case['tree']:
      p = os.path.join(d, *[y.encode('utf-8') for y in x['path']])
      if x['dir']:
        os.mkdir(p)
        continue
      b = base64.b64decode(x['b64'])
      contents[b] = x['path']
      h = open(p, 'wb'); h.write(b); h.close()
    srv = Server(Nothing(), root)
    ev = []
    try:
      for g in case['gets']:
        a = srv.ask(g['path'].encode('utf-8'))
        o = {'alive': a is not None, 'status': 0, 'whole': False, 'body': '', 'type': '', 'secret': False}
        if a is not None:
          o['status'], hd, body, o['whole'] = split(a)
          o['secret'] = 'SECRET' in a or 'root:' in a
          if o['status'] == 200:
            p = contents.get(body, ['?'])
            o['body'] = p[1] if p[0] == 'served' and len(p) == 2 else '?'
            o['type'] = txt(hd.get('content-type', '').split(';')[0])
        ev.append({'op': 'get', 'segs': g['segs'], 'raw': g['raw'], 'path': g['path'], 'o': o})
    finally:
      srv.close()
    return {'ev': ev, 'files': case['files']}
