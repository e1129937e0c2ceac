import json,os
D={
'D01':"The model knows which references must resolve; after each operation all lookups are compared, and stale references (all ever issued) are looked up again. Meshes of a single tile (`InitForSingleTile`) are followed too.",
'D02':"Every link slot of every tile is accounted for: reachable from exactly one polygon, or on the free list (found by following it from the exported state).",
'D07':"That no polygon occurs twice is only claimed for complete paths with uniform costs: with area costs a portal's middle can make a polygon cheaper to enter a second time (the node is reopened), and partial paths may end anywhere.",
'D11':"Left out: portals seen edge-on from the straight path, corridors that turn back on one straight border, consecutive collinear portals, corners inside of other portals (portals across tiles are rounded to 1/255 of an edge); vertices closer than the merging distance of the code are one.",
'D12':"The slack of BV trees is 3.1 cells (their resolution is the cell size, rounded outwards at both ends). The exported FindNearestPolyInTile is a known finding, see below.",
'D13':"Sliver triangles of detail meshes make the height at a point ambiguous; the oracle then accepts the range of heights of the triangles that touch it.",
'D15':"The cost function may be told the current polygon as the next one (rays), and the previous polygon needn't be adjacent (any-angle searches); the signature promises nothing else.",
'D16':"Meshes whose pool of links is used up are judged, unless the connections landing in the tile have more links than it has room for: one for each edge, two more for each edge on the border, and those of the connections that start or end within its bounds, in one layer each; the rest is dropped, as in the original library.",
'D17':"Node counts are only compared while a search is in progress.",
'D18':"The race detector watches every access; results are compared with the ones of a sequential run, so that interference that isn't a data race (a shared buffer behind a lock, say) is seen as well.",
'D21':"As for D16, tiles whose pool of links is used up aren't judged.",
'R06':"Left out: step heights above the agent's height (connections aren't symmetric then) and spirals, where the two-pass distance transform of the original isn't exact.",
'R08':"`MaxRegions` is only checked as an upper bound. `BuildRegions` (watershed) panics with \"untested\" in this port and isn't claimed.",
'R09':"Slits (regions touching themselves along an edge) and contours whose simplification crosses itself are counted and left out; where long edges are split the tolerance holds against the whole outline.",
'R10':"Left out: contours touching themselves, border vertices that are bent, polygons merged over a removed vertex.",
'S01':"The strict estimate asks for 4.1 height cells more clearance than the agent's height, and propagates reachability only over links that are sure; the inside of hollow solids is exempt (their lower faces point down, but their tops are the only walkable surface).",
'S02':"Comparisons of both meshes are done for scenes whose extents are set by posts (else the two grids are placed differently), and pairs aren't compared when the agent is lower than twice the step (links across tiles then depend on heights the tiles don't share).",
'S03':"All commands run in a scratch directory made for the case and removed after it.",
'S05':"The reference takes its own way from settings to cells and from the chunks of triangles to tiles; the steps it calls are those of the tree under test (R01 to R16 and D04 to D06 judge them).",
'S04':"Whether places stay joined is compared only where both meshes have a single surface at the place.",
}
json.dump(D,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'design_props.json'),'w'),indent=1)
