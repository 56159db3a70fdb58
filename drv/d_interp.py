from common import *

def run(case):
  r, rep = reporter()
  sched = transitfeed.Schedule(problem_reporter=rep, memory_db=True)
  sched.AddAgency('Demo', 'http://example.com', 'America/Los_Angeles', agency_id='DTA')
  sched.NewDefaultServicePeriod()
  route = sched.AddRoute('1', 'Route', 3, route_id='R')
  ev = []
  for n, e in enumerate(case['pats']):
    e = dict(e)
    trip = route.AddTrip(sched, headsign='x', trip_id='T%d' % n)
    ids = []
    made = {}
    for i, (ts, pos) in enumerate(zip(e['ts'], e['pos'])):
      key = tuple(pos)
      if e.get('share') and key in made:
        stop = made[key]
      else:
        stop = sched.AddStop(pos[0], pos[1], 'Stop', stop_id='S%d_%d' % (n, i))
        made[key] = stop
      ids.append(stop.stop_id)
      kw = {}
      if ts >= 0:
        kw = {'arrival_secs': ts, 'departure_secs': ts + e['dwell'][i]}
      trip.AddStopTime(stop, problems=rep, **kw)
    o = {'raised': False, 'list': [], 'bystop': []}
    try:
      for k, (secs, st, tp) in enumerate(trip.GetTimeInterpolatedStops()):
        ok = k < len(ids) and st.stop_id == ids[k] and st.stop_sequence == k + 1 and isinstance(secs, (int, long))
        o['list'].append({'secs': int(secs), 'i': k + 1 if ok else -1, 'tp': bool(tp)})
      got = {}
      for sid in set(ids):
        for secs, (t, index), tp in sched.GetStop(sid).GetStopTimeTrips():
          got[index] = int(secs)
      o['bystop'] = [got.get(k, -1) for k in range(len(ids))]
    except ValueError:
      o['raised'] = True
    e['o'] = o
    ev.append(e)
  return {'ev': ev}
