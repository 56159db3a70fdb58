# Rows written with CsvUnicodeWriter: the characters of the text, and what a csv reader finds in it.
from common import *
from transitfeed import util
import csv
from StringIO import StringIO

def run(case):
  out, ev = StringIO(), []
  w = util.CsvUnicodeWriter(out)
  for row in case['rows']:
    cells = [u''.join(unichr(x) for x in v) for v in row]
    (w.writerows if case['many'] else w.writerow)([cells] if case['many'] else cells)
    data = out.getvalue()
    text = data.decode('utf-8')
    read = [[[ord(ch) for ch in v.decode('utf-8')] for v in r] for r in csv.reader(StringIO(data), skipinitialspace=True)]
    ev.append({'op': 'row', 'row': row, 'o': {'text': [ord(ch) for ch in text], 'read': read}})
  return {'ev': ev}
