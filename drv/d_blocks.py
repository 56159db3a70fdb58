from common import *
import random

def run(case):
  r, rep = reporter()
  sched = transitfeed.Schedule(problem_reporter=rep, memory_db=True)
  sched.AddAgency('Demo', 'http://example.com', 'America/Los_Angeles', agency_id='DTA')
  for i, p in enumerate(case['per']):
    sp = transitfeed.ServicePeriod('%s%d' % (p['name'], i + 1))
    if p['start'] >= 0: sp.SetStartDate(day_text(p['start']))
    if p['end'] >= 0: sp.SetEndDate(day_text(p['end']))
    for k, b in enumerate(p['dow']):
      sp.SetDayOfWeekHasService(k, b)
    for d, b in p['exc']:
      sp.SetDateHasService(day_text(d), b == 1)
    sched.AddServicePeriodObject(sp, validate=False)
    p['sid'] = sp.service_id
  sched.AddRoute('1', 'Route', 3, route_id='R')
  sched.AddRoute('2', 'Other', 3, route_id='R2')
  stops = [sched.AddStop(36.9 + .01 * i, -116.8, 'Stop %d' % i, stop_id='S%d' % i) for i in range(6)]
  for i, t in enumerate(case['trips']):
    trip = transitfeed.Trip(field_dict={'route_id': (t.get('rid') or 'R') if t['route'] else 'NOROUTE', 'trip_id': t['id'], 'block_id': t['block'],
                                        'service_id': case['per'][t['per'] - 1]['sid'] if t['per'] else 'NOCAL'})
    sched.AddTripObject(trip, rep)
    for k, (a, d) in enumerate(t['st']):
      kw = {}
      if a >= 0: kw['arrival_secs'] = a
      if d >= 0: kw['departure_secs'] = d
      trip.AddStopTime(stops[k], problems=rep, **kw)
  ev = []
  ids = dict((t['id'], i + 1) for i, t in enumerate(case['trips']))
  for k in range(2):
    r, rep = reporter()
    sched.Validate(rep, today=day_date(9000))
    ov = []
    for p in r.problems:
      if ptype(p) == 'OverlappingTripsInSameBlock':
        a, b = sorted([ids[p.trip_id1], ids[p.trip_id2]])
        ov.append([a, b, txt(p.block_id)])
    ov.sort()
    ev.append({'o': {'over': [x[:2] for x in ov], 'blocks': [x[2] for x in ov]}})
  return {'ev': ev, 'per': case['per'], 'trips': case['trips']}
