#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json, os
d = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
T = {
 'P01': ('stateful property-based testing against a map model (rapid)', ''),
 'P02': ('stateful property-based testing against a map model (rapid)', ''),
 'P03': ('stateful property-based testing against a sorted-map model, with a sweep of every gap (rapid)', ''),
 'P04': ('stateful property-based testing of interleaved cursors against a map model (rapid)', ''),
 'P05': ('metamorphic property-based testing: same history with and without reopens (rapid)', ''),
 'P06': ('metamorphic property-based testing: same history with and without reopens (rapid)', ''),
 'P07': ('boundary-driven property-based testing against a sorted-map model and window oracle (rapid)', 'Keys and values up to a few MiB.'),
 'P08': ('stateful property-based testing against a counting model after every call (rapid)', ''),
 'P09': ('stateful property-based testing with an independent reader that accounts for every allocated byte (rapid)', 'Trusts the space manager\'s own accounting (a dependency).'),
 'P10': ('stateful property-based testing with page-count bounds and an independent reader of every page (rapid)', ''),
 'P11': ('stateful property-based testing with load-factor bounds after every call (rapid)', ''),
 'P12': ('stateful property-based testing with an independent reader of the file format (rapid)', ''),
 'P13': ('differential property-based testing against a vendored copy of the pinned version (rapid)', 'The vendored copy is the pinned version with the fix: commits.'),
 'P14': ('property-based testing with guarded arguments and scribbled results (rapid)', ''),
 'P15': ('metamorphic property-based testing: state before and after no-ops (rapid)', ''),
 'P16': ('property-based testing over generated path states with directory-tree comparison (rapid)', ''),
 'P17': ('metamorphic property-based testing: each structure beside others and alone (rapid)', ''),
 'P18': ('stateful property-based testing against a model that substitutes the sentinels (rapid)', ''),
 'P19': ('stateful property-based testing of interleaved iterators against a position model (rapid)', ''),
 'P20': ('property-based testing: the dump is parsed back and compared with a model; failing writers (rapid)', ''),
 'P21': ('metamorphic property-based testing: allocated space around isolated lifetimes (rapid)', 'Trusts the space manager\'s own accounting (a dependency).'),
 'P23': ('metamorphic property-based testing under the race detector: goroutines together and alone (rapid)', 'Schedules are those the Go scheduler happens to take; the race detector generalises over them.'),
 'P24': ('stateful property-based testing with an account of the process\'s descriptors and mappings (rapid)', ''),
 'P25': ('stateful property-based testing with an independent reader that measures every allocation (rapid)', ''),
 'P26': ('stateful property-based testing with page-by-page comparison of the file around operations (rapid)', 'Pages are counted as changed from an eighth of their bytes on, in files of up to some MiB.'),
 'P27': ('property-based testing of concurrent queries against a model, under the race detector and with the file mapped read-only (rapid)', 'Schedules are those the Go scheduler happens to take; the race detector generalises over them.'),
 'P28': ('stateful property-based testing with an exact count of the pages a query touches and the heap it takes (rapid)', 'The bounds have about twice the room the code uses.'),
 'P22': ('stateful property-based testing of scans under modification against an existence model (rapid)', ''),
}
ids = [json.loads(l)['id'] for l in open(d + '/properties.jsonl')]
assert sorted(ids) == sorted(T)
m = {
 'version': 1,
 'setup_cmd': 'bash setup.sh',
 'checks': [{
   'property': i,
   'quick_cmd': 'bash check.sh %s' % i,
   'thorough_cmd': 'VERIF_TIER=thorough bash check.sh %s' % i,
   'evidence_file': 'evidence/%s.json' % i,
   'technique': T[i][0],
   'level': 'exploration',
   'level_note': ('Generated-input search: holds on every case of the campaign (counts in the evidence), says nothing of others. ' + T[i][1]).strip(),
 } for i in ids],
 'not_applicable': [],
 'notes': 'No hooks in /repo. replay.sh FILE runs one replay file; known_findings.txt lists the defects found. See DESIGN.md.',
}
json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1)
open(d + '/MANIFEST.json', 'a').write('\n')
