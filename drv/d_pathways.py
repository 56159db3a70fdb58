# The drawing of a feed's pathways, read back by a reader of the DOT language.
from common import *
import base64, re, sys, StringIO
import visualize_pathways as vp

TOKEN = re.compile(ur'\s+|//[^\n]*|/\*.*?\*/|(?P<id>[A-Za-z_\x80-\uffff][A-Za-z0-9_\x80-\uffff]*|-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))|(?P<q>"(?:[^"\\]|\\.)*")|(?P<p>->|--|[{}\[\]=;,:])', re.S)
WORDS = ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict')

class Bad(Exception):
  pass

def tokens(s):
  out, i = [], 0
  while i < len(s):
    m = TOKEN.match(s, i)
    if not m:
      raise Bad('unreadable at %r' % s[i:i + 20])
    i = m.end()
    if m.group('id'):
      w = m.group('id')
      out.append(('word', w.lower()) if w.lower() in WORDS else ('id', w))
    elif m.group('q'):
      out.append(('quoted', m.group('q')[1:-1]))
    elif m.group('p'):
      out.append(('p', m.group('p')))
  return out

def name(t):
  return re.sub(ur'\\(["\\])', ur'\1', t[1]) if t[0] == 'quoted' else t[1]

def lines(t):
  # the text of a label: \n starts a line, \\ and \" stand for themselves
  if t[0] != 'quoted':
    return [t[1]]
  out, i, s = [u''], 0, t[1]
  while i < len(s):
    if s[i] == '\\':
      i += 1
      if s[i] == 'n':
        out.append(u'')
      elif s[i] in '"\\':
        out[-1] += s[i]
      else:
        out[-1] += u'<escape %s>' % s[i]
    else:
      out[-1] += s[i]
    i += 1
  return out

class Reader(object):
  def __init__(self, s):
    self.t, self.i = tokens(s), 0
    self.boxes, self.nodes, self.edges, self.order = {}, {}, [], []
    self.want('word', 'digraph')
    if self.peek()[0] != 'p':
      self.ident()
    self.body('', {}, {})
    if self.i != len(self.t):
      raise Bad('text after the end')
  def peek(self):
    return self.t[self.i] if self.i < len(self.t) else ('end', '')
  def next(self):
    self.i += 1
    return self.t[self.i - 1] if self.i <= len(self.t) else ('end', '')
  def want(self, k, v):
    if self.next() != (k, v):
      raise Bad('%s expected before token %d' % (v, self.i))
  def ident(self):
    t = self.next()
    if t[0] not in ('id', 'quoted'):
      raise Bad('name expected, not %s' % t[1])
    return t
  def attrs(self):
    out = {}
    while self.peek() == ('p', '['):
      self.next()
      while self.peek() != ('p', ']'):
        k = name(self.ident())
        self.want('p', '=')
        out[k] = self.ident()
        if self.peek() in (('p', ';'), ('p', ',')):
          self.next()
      self.next()
    return out
  def body(self, box, nodes, edges):
    nodes, edges = dict(nodes), dict(edges)
    self.want('p', '{')
    while self.peek() != ('p', '}'):
      t = self.peek()
      if t == ('p', ';'):
        self.next()
      elif t == ('word', 'subgraph'):
        self.next()
        n = name(self.ident())
        inner = n[len('cluster_'):] if n.startswith('cluster_') else None
        if inner is None:
          raise Bad('a group that is not shown')
        if inner in self.boxes:
          raise Bad('two boxes %s' % inner)
        self.boxes[inner] = {'id': inner, 'within': box, 'attrs': {}}
        self.body(inner, nodes, edges)
      elif t[0] == 'word' and t[1] in ('node', 'edge', 'graph'):
        self.next()
        a = self.attrs()
        if t[1] == 'graph':
          if box:
            self.boxes[box]['attrs'].update(a)
        else:
          (nodes if t[1] == 'node' else edges).update(a)
      else:
        n = self.ident()
        if self.peek() == ('p', '='):
          self.next()
          v = self.ident()
          if box:
            self.boxes[box]['attrs'][name(n)] = v
        elif self.peek() == ('p', '->'):
          chain = [name(n)]
          while self.peek() == ('p', '->'):
            self.next()
            chain.append(name(self.ident()))
          a = dict(edges)
          a.update(self.attrs())
          for x in chain:
            self.node(x, box, nodes, {})
          for x, y in zip(chain, chain[1:]):
            self.edges.append((x, y, a))
        else:
          self.node(name(n), box, nodes, self.attrs())
    self.next()
  def node(self, n, box, defaults, a):
    if n not in self.nodes:
      self.nodes[n] = {'box': box, 'attrs': dict(defaults)}
      self.order.append(n)
    elif box and not self.nodes[n]['box']:
      self.nodes[n]['box'] = box
    elif box and self.nodes[n]['box'] != box:
      raise Bad('%s lies in two boxes' % n)
    self.nodes[n]['attrs'].update(a)

def value(a, k):
  return name(a[k]) if k in a else ''

def run(case):
  with Scratch() as d:
    src = os.path.join(d, 'feed')
    os.mkdir(src)
    for f, b in case['files'].items():
      h = open(os.path.join(src, f), 'wb'); h.write(base64.b64decode(b)); h.close()
    ev = []
    for opts in case['opts']:
      o = {'err': '', 'bad': '', 'written': False, 'boxes': [], 'nodes': [], 'edges': []}
      dest = os.path.join(d, 'out.gv') if opts['dot'] else src + '.dot'
      if os.path.exists(dest):
        os.remove(dest)
      argv, out, err = sys.argv, sys.stdout, sys.stderr
      sys.stdout = sys.stderr = StringIO.StringIO()
      try:
        sys.argv = ['x', src + case['slash']] + (['--dot', dest] if opts['dot'] else [])
        if opts['ids']:
          sys.argv += ['--stop_ids=' + ','.join(opts['ids']).encode('utf-8')]
        vp.main()
      except Exception, e:
        o['err'] = txt('%s %r' % (e.__class__.__name__, e.args))
      except SystemExit, e:
        o['err'] = 'exit %s' % e
      finally:
        sys.argv, sys.stdout, sys.stderr = argv, out, err
      if os.path.exists(dest):
        o['written'] = True
        h = open(dest, 'rb')
        s = h.read()
        h.close()
        try:
          r = Reader(s.decode('utf-8'))
          for b in sorted(r.boxes):
            a = r.boxes[b]['attrs']
            o['boxes'].append({'id': b, 'within': r.boxes[b]['within'], 'label': lines(a['label']) if 'label' in a else [], 'colour': value(a, 'color')})
          for n in r.order:
            a = r.nodes[n]['attrs']
            o['nodes'].append({'id': n, 'box': r.nodes[n]['box'], 'label': lines(a['label']) if 'label' in a else [], 'colour': value(a, 'color'), 'form': value(a, 'shape')})
          for x, y, a in r.edges:
            o['edges'].append({'from': x, 'to': y, 'dir': value(a, 'dir') or 'forward', 'label': lines(a['label']) if 'label' in a else []})
        except (Bad, UnicodeDecodeError), e:
          o['bad'] = txt('%s' % e)
      ev.append({'op': 'draw', 'opts': opts['ids'], 'o': o})
    return {'locs': case['locs'], 'paths': case['paths'], 'ev': ev}
