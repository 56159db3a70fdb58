from common import *

def days(l):
  return [day(x) for x in l]

def run(case):
  base = case['base']
  sp = transitfeed.ServicePeriod('S')
  ev = []
  for e in case['ops']:
    e = dict(e)
    if 'd' in e and e['d'] >= 0:
      e['d'] += base
    op = e['op']
    r, rep = reporter()
    t = day_text(e['d']) if e.get('d', -1) >= 0 else None
    if op == 'start':
      sp.SetStartDate(t)
    elif op == 'end':
      sp.SetEndDate(t)
    elif op == 'dow':
      sp.SetDayOfWeekHasService(e['i'], e['b'])
    elif op == 'weekday':
      sp.SetWeekdayService(e['b'])
    elif op == 'weekend':
      sp.SetWeekendService(e['b'])
    elif op == 'exc':
      sp.SetDateHasService(t, e['b'], rep)
    elif op == 'reset':
      sp.ResetDateToNormalService(t)
    o = {}
    o['dup'] = len([p for p in r.problems if ptype(p) == 'DuplicateID'])
    others = len(r.problems) - o['dup']
    lo, hi = base + case['lo'], base + case['hi']
    probe = range(lo, hi + 1)
    e['probe'] = probe
    o['active'] = [d for d in probe if sp.IsActiveOn(day_text(d))]
    o['active2'] = [d for d in probe if sp.IsActiveOn(day_text(d), day_date(d))]
    o['dates'] = days(sp.ActiveDates())
    o['range'] = [day(x) if x is not None else -1 for x in sp.GetDateRange()]
    row = sp.GetCalendarFieldValuesTuple()
    o['row'] = []
    if row is not None:
      d = dict(zip(['service_id', 'start_date', 'end_date', 'monday', 'tuesday', 'wednesday', 'thursday',
                    'friday', 'saturday', 'sunday'], row))
      o['row'] = [{'start': day(d['start_date']), 'end': day(d['end_date']),
                   'dow': [txt(d[k]) == '1' for k in ['monday', 'tuesday', 'wednesday', 'thursday',
                    'friday', 'saturday', 'sunday']]}]
    drows = sp.GetCalendarDatesFieldValuesTuples()
    o['drows'] = [[day(x[1]), int(x[2])] for x in drows]
    # what a reader of the rows gets
    sp2 = transitfeed.ServicePeriod(field_list=[unicode(x) for x in row]) if row is not None else transitfeed.ServicePeriod('S')
    for x in sp.GenerateCalendarDatesFieldValuesTuples():
      sp2.SetDateHasService(x[1], unicode(x[2]) == u'1')
    o['redates'] = days(sp2.ActiveDates())
    o['excadd'] = [d for d in probe if sp.HasDateExceptionOn(day_text(d))]
    o['excrem'] = [d for d in probe if sp.HasDateExceptionOn(day_text(d), 2)]
    o['hasexc'] = bool(sp.HasExceptions())
    o['hasadd'] = bool(sp.HasDateExceptionTypeAdded())
    o['dow'] = [bool(getattr(sp, k)) for k in ['monday', 'tuesday', 'wednesday', 'thursday',
                    'friday', 'saturday', 'sunday']]
    r, rep = reporter()
    sp.Validate(rep)
    o['endstart'] = len([p for p in r.problems if ptype(p) == 'InvalidValue' and getattr(p, 'column_name', None) == 'end_date'])
    o['noservice'] = len([p for p in r.problems if ptype(p) == 'OtherProblem'])
    o['others'] = others + len(r.problems) - o['endstart'] - o['noservice']
    e['o'] = o
    ev.append(e)
  return {'ev': ev}
