from common import *
KINDS = ['agency', 'service', 'stop', 'route', 'trip', 'shape', 'fare']
IDA = dict(agency='agency_id', service='service_id', stop='stop_id', route='route_id', trip='trip_id', shape='shape_id', fare='fare_id')
TABLE = dict(agency='agency', stop='stops', route='routes', trip='trips')
NONE = '(none)'

def listing(s, k):
  return {'agency': s.GetAgencyList, 'service': s.GetServicePeriodList, 'stop': s.GetStopList, 'route': s.GetRouteList,
          'trip': s.GetTripList, 'shape': s.GetShapeList, 'fare': s.GetFareAttributeList}[k]()

def lookup(s, k, i):
  f = {'agency': s.GetAgency, 'service': s.GetServicePeriod, 'stop': s.GetStop, 'route': s.GetRoute,
       'trip': s.GetTrip, 'shape': s.GetShape, 'fare': s.GetFareAttribute}[k]
  try:
    return f(i)
  except KeyError:
    return None

def rid(k, o):
  return txt(getattr(o, IDA[k]))

def defect(p):
  return 'duplicate' if ptype(p) == 'DuplicateID' else pcol(p) if ptype(p) in ('InvalidValue', 'MissingValue') else 'other ' + ptype(p)

def columns(s):
  return dict((k, written_columns(s, k)) for k in TABLE)

def written_columns(s, k):
  try:
    return [txt(x) for x in s.GetTableColumns(TABLE[k])]
  except KeyError:
    return []

def run(case):
  r0, rep0 = reporter()
  s = transitfeed.Schedule(problem_reporter=rep0, memory_db=True)
  ids = dict((k, set(case['ids'])) for k in KINDS)
  objs, ev, before = {}, [], dict((k, []) for k in TABLE)
  for op in case['ops']:
    x, o = op['x'], {'made': {'agency': '', 'service': ''}, 'id': '', 'linked': False}
    k, i = x['kind'], x['id']
    del r0.problems[:]
    obj = None
    old = objs.get(op.get('reuse'))
    if op['op'] == 'add':
      if old is not None and old[0] == k and not any(a is old[1] for a in listing(s, k)):
        obj = old[1]
        setattr(obj, IDA[k], i or None)
      elif k == 'agency':
        obj = transitfeed.Agency('Ag', 'http://example.com', 'America/Los_Angeles', i)
      elif k == 'service': obj = transitfeed.ServicePeriod(i)
      elif k == 'stop': obj = transitfeed.Stop(stop_id=i, name='N', lat=36.0, lng=-117.0)
      elif k == 'route':
        obj = transitfeed.Route(short_name='1', long_name='One', route_type=3, route_id=i, agency_id=x['ref'] or None)
      elif k == 'trip':
        obj = transitfeed.Trip(trip_id=i)
      elif k == 'shape': obj = transitfeed.Shape(i)
      elif k == 'fare': obj = transitfeed.FareAttribute(i, 1.0, 'USD', 0, 0)
      if k == 'route':
        if x['ref'] or obj.__dict__.get('agency_id'): obj.agency_id = x['ref'] or None
      if k == 'trip':
        obj.route_id, obj.service_id = x['ref'], x['service']
      for c in op.get('extra', []): setattr(obj, str(c), 'v')
      if k in TABLE: x = dict(x, cols=sorted(obj.keys()))
      if k == 'agency': s.AddAgencyObject(obj)
      elif k == 'service': s.AddServicePeriodObject(obj, validate=False)
      elif k == 'stop': s.AddStopObject(obj)
      elif k == 'route': s.AddRouteObject(obj)
      elif k == 'trip': s.AddTripObject(obj, validate=op['validate'])
      elif k == 'shape':
        obj.points = obj.points or [(36.0, -117.0, None)]
        s.AddShapeObject(obj)
      elif k == 'fare': s.AddFareAttributeObject(obj)
    elif op['op'] == 'make':
      gid = None if op['auto'] else i
      if k == 'agency': obj = s.AddAgency('Ag', 'http://example.com', 'America/Los_Angeles', gid)
      elif k == 'stop': obj = s.AddStop(36.0, -117.0, 'N', gid)
      elif k == 'route': obj = s.AddRoute('1', 'One', 'Bus', gid)
      elif k == 'trip':
        route = s.GetRoute(x['ref']) if x['ref'] in s.routes else None
        if route is None: continue
        if x['service'] and x['service'] not in s.service_periods: continue
        obj = route.AddTrip(None, 'head', s.GetServicePeriod(x['service']) if x['service'] else None, gid)
        x = dict(x)
      x = dict(x, cols=sorted(obj.keys()))
      o['id'] = rid(k, obj)
    elif op['op'] == 'default':
      d = s.GetDefaultAgency() if k == 'agency' else s.GetDefaultServicePeriod()
      o['id'] = NONE if d is None else rid(k, d)
    elif op['op'] == 'new':
      if k == 'agency': obj = s.NewDefaultAgency(**({} if op['auto'] else {'agency_id': i}))
      else: obj = s.NewDefaultServicePeriod()
      o['id'] = rid(k, obj)
      x = dict(x, cols=sorted(obj.keys()) if k == 'agency' else [])
    elif op['op'] == 'set':
      if k == 'agency':
        obj = transitfeed.Agency('Ag', 'http://example.com', 'America/Los_Angeles', i)
        s.SetDefaultAgency(obj, validate=False)
        x = dict(x, cols=sorted(obj.keys()))
      else:
        obj = transitfeed.ServicePeriod(i)
        s.SetDefaultServicePeriod(obj, validate=False)
    if obj is not None:
      obj.__dict__['_tag'] = x['tag']
      if op['op'] in ('add', 'make'): objs[x['tag']] = (k, obj)
      o['linked'] = obj.__dict__.get('_schedule') is not None
    for kk in ('agency', 'service'):
      for y in listing(s, kk):
        if '_tag' not in y.__dict__:
          y.__dict__['_tag'] = x['tag']
          o['made'][kk] = rid(kk, y)
    o['rep'] = [defect(p) for p in r0.problems]
    for kk in KINDS:
      ids[kk].update(rid(kk, y) for y in listing(s, kk))
    st = {'lists': {}, 'looks': {}, 'trips': [], 'cols': {}}
    for kk in KINDS:
      st['lists'][kk] = [[rid(kk, y), y.__dict__['_tag']] for y in listing(s, kk)]
      st['looks'][kk] = []
      for z in sorted(ids[kk]):
        y = lookup(s, kk, z or None)
        if y is None: y = lookup(s, kk, z)
        if y is not None: st['looks'][kk].append([z, y.__dict__['_tag']])
    for y in s.GetRouteList():
      st['trips'].append({'id': rid('route', y), 'trips': [t.__dict__['_tag'] for t in y.trips]})
    o['kept'] = True
    for kk in TABLE:
      now = written_columns(s, kk)
      if now[:len(before[kk])] != before[kk]: o['kept'] = False
      before[kk] = now
      st['cols'][kk] = now
    o['state'] = st
    ev.append({'op': op['op'], 'x': x, 'auto': op['auto'], 'needs': op['needs'], 'validate': op.get('validate', False), 'o': o})
  return {'ev': ev}
