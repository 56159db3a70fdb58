# Agreement between agencies, routes, trips and shapes: a feed loaded, validated, edited and validated again.
from common import *
import re, json

def found(tokens, text):
  return [t for t in tokens if re.search(r'(?<![A-Za-z0-9_])' + re.escape(t) + r'(?![A-Za-z0-9_])', text)]

RULES = ('route_short_name', 'route_long_name', 'route_desc', 'route_type', 'route_color')

def validate(sched, w, children):
  r, rep = reporter()
  sched.Validate(rep, validate_children=children, today=datetime.date(2026, 6, 1))
  o = dict((k, []) for k in ('zones', 'langs', 'idless', 'orphans', 'names', 'same', 'mixed', 'unused', 'rows'))
  o['levels'] = True
  rids = [x['id'] for x in w['routes']]
  tids = [x['id'] for x in w['trips']]
  def level(p, want):
    if plevel(p) != want: o['levels'] = False
  for p in r.problems:
    k, col = ptype(p), pcol(p)
    reason = u' '.join(txt(p.__dict__.get(f)) for f in ('value', 'reason', 'description') if p.__dict__.get(f) is not None)
    if k == 'InvalidValue' and col == 'agency_timezone':
      o['zones'].append(found(sorted(set(x['tz'] for x in w['ags'])), txt(p.__dict__.get('value')))); level(p, 'E')
    elif k == 'InvalidValue' and col == 'feed_lang':
      o['langs'] += found([x['id'] for x in w['ags'] if x['id']], reason) or [u'']; level(p, 'E')
    elif k == 'InvalidAgencyID':
      o['orphans'].append([txt(p.__dict__.get('relating_id')), pval(p)]); level(p, 'E')
    elif k == 'DuplicateTrip':
      g = p.__dict__
      o['same'].append({'a': tids.index(g['trip_id1']) + 1, 'b': tids.index(g['trip_id2']) + 1, 'ra': rids.index(g['route_id1']) + 1, 'rb': rids.index(g['route_id2']) + 1}); level(p, 'W')
    elif k == 'StopWithMultipleRouteTypes':
      g = p.__dict__
      o['mixed'].append({'stop': int(g['stop_id'][1:]) + 1, 'subway': rids.index(g['route_id1']) + 1, 'bus': rids.index(g['route_id2']) + 1}); level(p, 'W')
    elif k == 'OtherProblem' and found(w['shapes'], reason):
      o['unused'].append(found(w['shapes'], reason)); level(p, 'W')
    elif k == 'OtherProblem' and found([x['name'] for x in w['ags']], reason):
      o['idless'] += found([x['name'] for x in w['ags']], reason); level(p, 'E')
    elif k == 'InvalidValue' and col in RULES:
      two = found(rids, txt(p.__dict__.get('reason')))
      if len(two) > 1:
        a = dict((x['id'], x) for x in w['routes'])
        if any(a[t]['slow'] or a[t]['llow'] for t in two):
          o['names'].append([rids.index(t) + 1 for t in two])
        level(p, 'W')
      else:
        o['rows'].append([col, u'' if col in ('route_type', 'route_color') else pval(p), plevel(p)])
  return o

def run(case):
  with Scratch() as d:
    write_feed(d, case['tables'])
    rec, rep = reporter()
    sched = transitfeed.Loader(d, problems=rep, extra_validation=False, memory_db=True, check_duplicate_trips=case['w']['dups']).Load()
    rows = [[] for _ in case['w']['routes']]
    for p in rec.problems:
      if pfile(p) == 'routes.txt' and prow(p) >= 2 and pcol(p) in RULES:
        rows[case['order'][prow(p) - 2]].append([pcol(p), plevel(p)])
    ev = [{'op': 'load', 'o': {'rows': rows}}]
    w = json.loads(json.dumps(case['w']))
    for e in case['edits']:
      if e['op'] == 'validate':
        ev.append({'op': 'validate', 'children': e['children'], 'o': validate(sched, w, e['children'])})
        continue
      if e['op'] == 'feed':
        sched.feed_info.feed_lang = e['new'] or None; w['lang'] = e['new']
      else:
        i = e['at'] - 1
        kind = {'agency': 'ags', 'route': 'routes', 'trip': 'trips'}[e['op']]
        x = sched.GetAgency(w['ags'][i]['id']) if e['op'] == 'agency' else sched.GetRoute(w['routes'][i]['id']) if e['op'] == 'route' else sched.GetTrip(w['trips'][i]['id'])
        for k, v in e['set']:
          setattr(x, str(k), v)
        w[kind][i] = e['new']
      ev.append({'op': e['op'], 'at': e.get('at', 0), 'new': e['new'], 'o': {}})
    return {'w': case['w'], 'ev': ev}
