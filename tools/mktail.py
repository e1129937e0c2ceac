#!/usr/bin/env python3
"""Writes tools/design_tail.md."""
import json,os,glob
here=os.path.dirname(os.path.abspath(__file__)); top=os.path.dirname(here)
caught=json.load(open(here+'/catches.json'))
fixes=[l.split(' ',3) for l in open(top+'/KNOWN_FINDINGS.txt') if l.startswith('fixed:')]
o=[]
o.append('''## Not claimed

All listed properties have a check. Behaviour of the code that isn't covered by
any property, because the code doesn't do it or can't be used:

* `BuildRegions` (watershed) and the samples' layer partitioning panic with
  "untested" or aren't reachable; only monotone partitioning is claimed.
* `collectPolysQuery` ends the program with "untested" and can't be reached.
* A `gobj` face index beyond 32 bits wraps, and tabs and double spaces in OBJ
  files aren't supported (both in a dependency).
* `InputGeom` has no way to add off-mesh connections; volumes beyond 256 and
  vertices beyond 12 are dropped, as in the original.
* Heightfields are 8191 cells high, as in the original: what is higher above
  the lowest point of the geometry is put at that height.

## Findings

### Known finding (not repaired)

`NavMesh.FindNearestPolyInTile` evaluates the polygon reference 0 rather than
the candidates (it looks at the wrong range of its buffer), so it returns a
wrong polygon (and panics if slot 0 of the mesh is free). A test of the
repository (`TestFindNearestPolyInTile`) asserts one of the wrong answers, so
it can't be repaired without editing tests. It's listed in KNOWN_FINDINGS.txt
by the one input of that test; D12 prints a KNOWN-FINDING line for it, and any
other answer for that input is a violation.

### Repaired defects

Each is a separate `fix:` commit in /repo. "Caught again" tells which checks
report a violation when the commit is reverted (quick tier, seed 1).

| commit | property | what was repaired | caught again by |
|---|---|---|---|''')
rv=caught['reverts']
for f in fixes:
    h=f[2]; o.append('| %s | %s | %s | %s |'%(h,f[1].split('=')[1],f[3].strip(),rv.get(h,'not tried (the revert conflicts with later fixes); found by the check')))
o.append('''
## False alarms, and what became of them

While the checks were built, they reported violations that turned out to be
mistakes of the check or of the property's text. What was corrected:

* D07: "no polygon twice" held only for complete paths with uniform costs.
* D09: the reference is the cheapest path over the positions the search assigns
  to polygons; the globally cheapest polyline is neither promised nor reached.
* D11: portals seen edge-on, corridors turning back along one straight border,
  collinear portals and corners inside of rounded portals were judged wrongly;
  vertices within the merging distance are one vertex.
* D12: BV trees may add polygons up to 3.1 cells from the box.
* D13: detail triangles that are slivers leave the height open within a range.
* D15: rays tell the cost function the current polygon as next.
* D16, D21: when the pool of links of a tile is used up, links are missing by
  design of the format.
* D17: node counts of finished searches differ legitimately.
* R06: connections that aren't symmetric, and spirals.
* R08: `MaxRegions` is an upper bound.
* R09: slits; the same stretch may be simplified differently from its two sides
  when one side sees other neighbours; tolerance when edges are split.
* R10: contours touching themselves can't be partitioned exactly.
* R11: samples next to the outline, edge flags within 1-2 mm of the code's own
  threshold, polygons that aren't convex.
* S01, S02, S04: the estimates from solids got wider margins (clearance, single
  candidate links, hollow solids, several surfaces at a place, agents lower than
  two steps across tile borders).

No check was loosened for an input on which the code is wrong.

## Planted bugs

`seeded/` holds changes planted to try the checks: each compiles, passes the
repository's tests, and comes with a demonstration. They change lines of the
original code. All were written from the property's text and the code.

| planted bug | property | needs | caught by |
|---|---|---|---|''')
for d in sorted(glob.glob(top+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    o.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/').replace('\n',' '),caught['seeded'].get(i,'?')))
o.append(open(here+'/design_mut.md').read())
open(here+'/design_tail.md','w').write('\n'.join(o))
