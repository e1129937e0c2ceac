#!/usr/bin/env python3
"""Writes tools/notes.json: technique and bounds of each check."""
import json,os
here=os.path.dirname(os.path.abspath(__file__))
N={
'D01':["online monitor: model of live tiles stepped along random histories","Random histories of 60-400 operations; slots are followed around all their generations where these are few, and from the last ones on where they are many. Well-formed tiles of 1-9 locations and 3 layers."],
'D02':["online monitor of the link graph after each operation, differential against loading the live tiles in another order","Histories of 20-60 operations on worlds of up to 9 locations with layers and off-mesh connections."],
'D03':["runtime enumeration of capacity configurations with round trip monitors","All pairs of bit lengths around the limit, then random ones; references at both ends and powers of two of their parts."],
'D04':["offline comparison of recorded mesh state before and after save and load, byte accounting of the writer","Random meshes after random histories, and the golden ones."],
'D05':["fault injection (every truncation offset, reader failure, slicing, altered header field) watched by monitors for panics, hangs and accepted damage","Small meshes, so that each offset is enumerated; contents of tiles past their headers aren't altered (the format has no checksum)."],
'D06':["fault injection: the writer fails at every byte offset, in several ways","Small meshes, so that each offset is enumerated; file faults are those a scratch directory can show."],
'D07':["online checker of each path against the link graph","Random meshes of up to some hundred polygons; node limits and outputs from one up."],
'D08':["offline oracle: breadth first search over the recorded links and filter decisions","Random meshes of up to some hundred polygons, node pool large enough."],
'D09':["offline oracle: Dijkstra over the recorded positions and costs","Random meshes of up to some hundred polygons; costs compared with a relative tolerance of single precision."],
'D10':["differential monitor: budgets against budgets and against FindPath; iteration accounting; a recording filter decides when nodes ran out","10 searches per mesh with several budget sequences each; then tiles are removed in the middle of a search."],
'D11':["offline oracle: shortest polyline through the portals in double precision","Corridors of up to 30 polygons; crossings of portals seen nearly edge-on aren't judged. Starts and ends also coincide with vertices, edges and each other."],
'D12':["offline oracle: exhaustive search in double precision","Up to 9 tiles with layers; candidates within the resolution of the bounding volumes are optional. One known finding."],
'D13':["offline oracle: exact geometry in double precision","Random polygons; positions too close to an edge to be on a sure side may be on either."],
'D14':["offline oracle: walk over the links in double precision","Rays within a millimetre of a vertex or of a portal's limit are only judged by what holds for all of them (linked polygons, the end in the last one, hits on an edge of it that isn't a portal, its normal)."],
'D15':["recording filter: every call is logged and checked against the mesh","All query kinds with arbitrary decisions per polygon."],
'D16':["offline oracle over link state: where each connection should land; then crossed by queries","1-12 connections in up to 9 tiles; places within 2 cm of a limit or equally near may be either."],
'D17':["differential monitor: one query object with a past against a fresh one, bit for bit; mesh snapshots","Sequences of 30 queries of all kinds."],
'D18':["race detector under stress with injected yields, results compared with a sequential run","2 to 8 goroutines; schedules are the ones observed (counted in the evidence)."],
'D19':["online model of the node pool along random histories","Capacities 1 to 65535, references drawn to collide."],
'D20':["offline comparison of created tile data with its input, through the exported state of a mesh","Random polygon meshes, also of tall tiles and of tiles at negative coordinates, some close to the limits of the format; bounding volumes to one unit of their resolution."],
'D21':["offline oracle: links called for by the geometry of edges on tile borders","Tiles in all eight directions and layers; edges within 1e-3 of a limit may go either way."],
'D22':["runtime comparison with exact integer arithmetic","Integer coordinates up to 1000, where exact answers are known; 300 configurations per case."],
'R01':["online model of columns stepped along random additions","Hundreds of solids in some columns, heights in whole cells."],
'R02':["offline oracle: triangles clipped to columns in double precision","Random triangles; rounding of 1/1000 cell is tolerated."],
'R03':["offline oracle: slope angles in double precision","Slopes within 0.01 degree of the limit aren't judged."],
'R04':["offline oracle: definitions of the filters over recorded columns","Random heightfields of up to some 1000 columns."],
'R05':["offline oracle: definition of the compact heightfield over recorded columns","Up to 62 walkable layers that connect; columns of up to some 300 spans."],
'R06':["offline oracle: distances by shortest path search","Radiuses up to hundreds of cells, and huge ones; steps higher than the agent and surfaces winding over themselves are left out."],
'R07':["offline oracle: point in polygon in double precision; list model of volumes","Columns within 1/1000 of a cell of an outline aren't judged."],
'R08':["online checker of partitions, span by span","Monotone partitioning (watershed panics as untested); fields of up to some 1000 spans, a few with outlines of some 20000 edges, and a few that need tens of thousands of regions."],
'R09':["offline oracle: outlines of regions traced independently","Fields of up to some 1000 spans, and combs with outlines of up to some 20000 edges; stretches compared from both sides only where both see alike."],
'R10':["offline oracle: exact areas and winding numbers of contours","Contours touching themselves are not claimed to be partitioned; meshes up to the limit of 65534 vertices."],
'R11':["offline oracle: heights of recorded spans, exact triangulation checks","Polygons that aren't strictly convex aren't judged. Long strips (hundreds of cells by a few), which R02 and R04 to R10 include, are left out: they were tried at the very end, and in one case (a polygon 2 cells wide and 202 long, whose 101 triangles overlap by 0.15% of its area, 0.1% being the tolerance) it remained open whether the check or the code is wrong."],
'R12':["offline comparison of chunks with the triangles they hold; exhaustive rectangle search","Soups of up to some thousand triangles."],
'R13':["differential monitor against an independent reader, with reader faults and damage","Files of up to some dozens of lines, without tabs and double spaces (which the reader doesn't support)."],
'R14':["differential monitor: builds compared byte for byte across contexts, builders and pasts","Random scenes of up to 64 cells wide."],
'R15':["online model: a list of messages, and clocks read inside and outside of each timer call","Up to 2500 operations, so that the log fills up."],
'R16':["runtime comparison with independent definitions","Up to 40 vertices; grids of up to 500 cells."],
'S01':["offline oracle: estimates of standable ground from the solids of the scene","Scenes of axis-aligned solids and ramps; margins of some cells on both sides."],
'S02':["offline oracle as for S01, and differential monitor of tiled against single tile builds","Scenes of up to 100 cells; tiles of 16-48 cells, one case of very many tiles, one of very many triangles."],
'S03':["model of the files stepped along command sequences of the built tool","Sequences of 8-16 commands in a scratch directory."],
'S05':["offline differential oracle: bytes of the build against a reference pipeline of the library's own steps","20 to 80 cells a side; monotone partition (the only one builders know)."],
'S04':["offline oracle: areas called for by the volumes at sampled places","1-4 volumes per scene; places near outlines aren't judged."],
}
json.dump(N,open(os.path.join(here,'notes.json'),'w'),indent=1)
