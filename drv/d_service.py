from common import *
import time as _time

def origin(t):
  t = txt(t)
  if t == '':
    return 'none'
  return 'info' if 'feed_info' in t else 'exception' if 'calendar_dates' in t else 'calendar'

def build(case):
  r, rep = reporter()
  sched = transitfeed.Schedule(problem_reporter=rep, memory_db=True)
  sched.AddAgency('Demo', 'http://example.com', 'America/Los_Angeles', agency_id='DTA')
  ids = []
  for i, p in enumerate(case['per']):
    sp = transitfeed.ServicePeriod('%s%d' % (p['name'], i))
    ids.append(sp.service_id)
    if p['start'] >= 0: sp.SetStartDate(day_text(p['start']))
    if p['end'] >= 0: sp.SetEndDate(day_text(p['end']))
    for k, b in enumerate(p['dow']):
      sp.SetDayOfWeekHasService(k, b)
    for d, b in p['exc']:
      sp.SetDateHasService(day_text(d), b == 1)
    sched.AddServicePeriodObject(sp, validate=False)
  route = sched.AddRoute('1', 'Route', 3, route_id='R')
  stops = [sched.AddStop(36.9 + .01 * i, -116.8, 'Stop %d' % i, stop_id='S%d' % i) for i in range(4)]
  for i, t in enumerate(case['trips']):
    trip = route.AddTrip(sched, headsign='x', trip_id='T%d' % i, service_period=sched.GetServicePeriod(ids[t['per'] - 1]))
    for k in range(t['stops']):
      trip.AddStopTime(stops[k], problems=rep, arrival_secs=3600 + 600 * k, departure_secs=3600 + 600 * k)
    if t['runs']:
      n = t['runs']
      if n > 2:   # two periods
        trip.AddFrequency(3600, 7200, 3600)
        trip.AddFrequency(7200, 7200 + 60 * (n - 1) - 1, 60)
      else:
        trip.AddFrequency(0, 100 * n, 100)
  info = case['info']
  if info['start'] >= 0 or info['end'] >= 0 or info.get('empty'):
    f = {'feed_publisher_name': 'P', 'feed_publisher_url': 'http://example.com', 'feed_lang': 'en'}
    if info['start'] >= 0: f['feed_start_date'] = day_text(info['start'])
    if info['end'] >= 0: f['feed_end_date'] = day_text(info['end'])
    sched.AddFeedInfoObject(transitfeed.FeedInfo(field_dict=f))
  return sched, ids

def dn(t):
  return -1 if t is None else day(t)

def secday(s):
  return (datetime.date(1970, 1, 1) + datetime.timedelta(seconds=int(s))).toordinal() - EPOCH

def run(case):
  sched, ids = build(case)
  ev = []
  a = sched.GetDateRange()
  b = sched.GetDateRangeWithOrigins()
  ev.append({'op': 'range', 'o': {'range': [dn(x) for x in a], 'range2': [dn(x) for x in b[:2]],
                                  'origin1': origin(b[2]), 'origin2': origin(b[3])}})
  for q in case['queries']:
    q = dict(q)
    if q['op'] == 'dates':
      lo, hi = day_date(q['from']), day_date(q['to'])
      l1 = sched.GetServicePeriodsActiveEachDate(lo, hi)
      l2 = sched.GenerateDateTripsDeparturesList(lo, hi)
      out = []
      for (d, per), (d2, n, m) in zip(l1, l2):
        if d != d2:
          d = d - datetime.timedelta(days=10000)
        out.append({'d': d.toordinal() - EPOCH, 'per': [ids.index(p.service_id) + 1 for p in per], 'trips': int(n), 'deps': int(m)})
      if len(l1) != len(l2):
        out = []
      q['o'] = {'list': out}
    else:
      r, rep = reporter()
      sched.Validate(rep, today=day_date(q['today']), service_gap_interval=q['gap'] if q['gap'] >= 1 else None)
      def of(n):
        return [p for p in r.problems if ptype(p) == n]
      q['o'] = {'nodates': len([p for p in of('OtherProblem') if 'effective service dates' in txt(p.description)]),
                'expires': [{'d': secday(p.expiration), 'origin': origin(p.expiration_origin_file)} for p in of('ExpirationDate')],
                'future': [{'d': secday(p.start_date), 'origin': origin(p.start_date_origin_file)} for p in of('FutureService')],
                'noexc': [[p.start.toordinal() - EPOCH, p.end.toordinal() - EPOCH] for p in of('NoServiceExceptions')],
                'gaps': [[p.first_day_without_service.toordinal() - EPOCH, p.last_day_without_service.toordinal() - EPOCH, p.consecutive_days_without_service] for p in of('TooManyDaysWithoutService')]}
    ev.append(q)
  return {'ev': ev, 'per': case['per'], 'trips': case['trips'], 'info': {'start': case['info']['start'], 'end': case['info']['end']}}
