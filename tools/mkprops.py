#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        observe_at=obs or [],hook_needed=hook)))
M='detour/mesh.go'; Q='detour/query.go'; C='detour/navmeshcreate.go'; T='detour/tile.go'
p('D01','Tile lifecycle: references resolve exactly while their tile is in the mesh',
 "Adding a well-formed tile to a navigation mesh succeeds exactly when its grid location is free and a slot (or, when a previous reference is asked for, that very slot) is available; from then until it is removed its tile reference and all its polygon references resolve to it, lookups by location or reference agree, and removing it hands back the tile data. A reference to a removed tile never resolves again, even after its slot is reused, unless the tile is deliberately restored at that reference, which makes the old references valid again (and continues the slot's generations from there). An add or a removal that is refused returns a failure status and leaves the mesh as it was.",
 ['histories','inputs'],"every sequence of add, restore and remove operations on tiles of a grid with several layers, in any order, up to the number of reuses of a slot that references can tell apart, for every mesh capacity",
 "The tests load a saved mesh once and never remove, re-add or restore a tile; slot reuse, salt increments, hash collisions and refusals need long histories.",
 [M],[('salt bumped on removal','NavMesh.RemoveTile'),('restoring at the last reference','NavMesh.AddTile'),('position lookup table','NavMesh.TileAt/TilesAt/TileRefAt')],
 [('tile salt','generation of a slot','MeshTile.Salt'),('free list','slots that can be used','NavMesh.nextFree'),('position LUT','tiles by grid location','NavMesh.posLookup')],
 ['AddTile, RemoveTile','TileAt, TilesAt, TileRefAt, TileByRef, TileRef','IsValidPolyRef, TileAndPolyByRef'])
p('D02','Link graph stays sound and independent of the tile loading history',
 "At any time every link of every polygon leads to an existing polygon of a tile currently in the mesh, a link between ground polygons of different tiles has its counterpart in the other direction, and each link slot of a tile is used by exactly one polygon or is free, so that adding and removing tiles never leaks or shares slots. The set of connections, with their edges, sides and portal extents, depends only on which tiles are currently present and not on the order in which they were added or on tiles that were added and removed before.",
 ['histories','inputs'],"all sequences of tile additions and removals over neighbouring tiles, diagonal neighbours, layers at the same location and off-mesh connections, as long as the link capacity of the tiles isn't exceeded",
 "Tests only query meshes that were loaded once; nothing removes a tile, so unlinking and link slot recycling are never executed.",
 [M],[('link allocation','allocLink/freeLink'),('unlinking on removal','NavMesh.unconnectLinks'),('linking on addition','NavMesh.connectIntLinks/connectExtLinks/connectExtOffMeshLinks')],
 [('links','per tile pool of links','MeshTile.Links'),('links free list','unused link slots','MeshTile.LinksFreeList')],
 ['MeshTile.Polys/Links after each operation'])
p('D03','References address every tile and polygon of every capacity configuration',
 "For every accepted combination of maximum tile and polygon counts, composing a reference from a tile and a polygon and decomposing it again gives back the same generation, tile and polygon, distinct polygons get distinct non-zero references, and references whose parts designate no existing tile or polygon are reported as invalid and never resolve. Capacities that leave too few bits for the generation, and tiles with more polygons than references can address, are refused with a failure status instead of producing ambiguous references.",
 ['configurations','inputs'],"all (maximum tiles, maximum polygons) configurations up to and past the limit of 24 reference bits; all tile and polygon indexes, in particular first, last and power-of-two boundaries; arbitrary reference values",
 "The golden meshes use one or two capacity configurations with small indexes.",
 [M],[('bit layout','NavMesh.Init'),('encode and decode','NavMesh.encodePolyID/DecodePolyID/PolyRefBase')],
 [('salt, tile and poly bits','layout of references','NavMesh.saltBits/tileBits/polyBits')],['Init status','TileRef, DecodePolyID, IsValidPolyRef, TileAndPolyByRef'])
p('D04','Saving and loading a navigation mesh preserves it',
 "Writing a navigation mesh and decoding the result gives a mesh with the same parameters, the same tiles at the same references with the same vertices, polygons, areas, flags, detail meshes, bounding volumes and off-mesh connections, and the same connections between polygons; saving the loaded mesh again gives the same bytes. The number of bytes written is exactly the announced size of the mesh.",
 ['inputs','histories'],"all navigation meshes: single tile and tiled, with or without detail meshes, bounding volume trees and off-mesh connections, with free slots in between tiles, after any history of additions and removals",
 "Tests decode three golden files and compare one build with a golden file; fields that are zero there (off-mesh flags, reused slots) can be dropped unnoticed.",
 [M,T,'detour/structs.go'],[('writing','NavMesh.ToWriter/SaveToFile/Size'),('reading','Decode'),('tile codec','serializeTileData/MeshTile.unserialize/MeshHeader.(un)serialize')],
 None,['bytes written','decoded NavMesh'])
p('D05','Loading damaged or interrupted data fails cleanly',
 "Decoding a file that is cut anywhere, has a wrong magic number or version (of the set or of a tile), or comes from a reader that fails, returns an error and no mesh, and never crashes or hangs; adding tile data that is cut or has the wrong magic or version returns a failure status and leaves the mesh unchanged. How the reader slices the data (any chunk size, data returned along with the end of file) makes no difference.",
 ['fault_sequences','inputs','crash_points'],"every truncation point of saved meshes, every chunking of the reader, reader errors at every offset, altered magic numbers, versions and sizes",
 "Tests read whole, valid files from disk.",
 [M,'detour/structs.go',T],[('reading','Decode'),('header checks','NavMesh.AddTile/InitForSingleTile')],None,['Decode, AddTile and InitForSingleTile results'])
p('D06','Failures to write a navigation mesh are reported',
 "Saving a navigation mesh succeeds only if each of its bytes has been handed to and accepted by the writer: an error of the writer at any point, after any part of the data, is returned to the caller, and nothing more than the announced size is ever written. Files saved to are closed, and saving doesn't modify the mesh.",
 ['fault_sequences','crash_points'],"a writer failing, once or forever, or accepting only part of the data, at every byte offset, and file systems that refuse the file",
 "No test writes to anything but a healthy file.",
 [M,'detour/structs.go',T],[('writing','NavMesh.ToWriter'),('files','NavMesh.SaveToFile')],None,['error returned','bytes accepted by the writer'])
p('D07','Paths are contiguous, allowed corridors from the start towards the end',
 "A path found between two polygons starts with the start polygon, each of its polygons is linked to the next one and passes the filter (but for the start polygon), and it ends with the end polygon unless the status tells that the result is partial; where moving costs the same everywhere, no polygon occurs twice in a complete path. Results never overflow the output: a path longer than the output holds its beginning and reports that the buffer is too small, and running out of nodes is reported as such; invalid arguments give a failure status.",
 ['inputs','configurations'],"all meshes, pairs of polygons and positions, filters, node limits and output sizes",
 "Tests check a handful of start and end points on two golden meshes with generous buffers.",
 [Q,'detour/node.go'],[('A* search','NavMeshQuery.FindPath'),('path extraction','NavMeshQuery.pathToNode')],
 [('nodes','search state','NodePool')],['path and status of FindPath'])
p('D08','A path is found whenever one exists',
 "With enough nodes, the search returns a complete path if and only if the end polygon can be reached from the start polygon through linked polygons which pass the filter; otherwise the result is flagged as partial and leads to the polygon which comes closest to the end position, as measured where the search enters it. An end polygon the filter rejects is never reached.",
 ['inputs'],"all meshes (tiled, layered, with off-mesh connections), filters, and pairs of polygons, given a node limit of four times the number of polygons",
 "Reachability has to hold for every pair and filter; tests use a few pairs on connected meshes.",
 [Q],[('A* search','NavMeshQuery.FindPath'),('partial results','NavMeshQuery.FindPath lastBestNode')],None,['path and status of FindPath'])
p('D09','Searches return the cheapest path',
 "With enough nodes, the cost of the path found, as given by the filter's cost function along the positions the search assigns to the polygons it enters (the middle of the portal through which each was first reached), is the lowest among all the allowed paths over those positions (that don't go straight back to the polygon they come from), whatever the area costs (not below one) or a user-defined cost (not below the distance).",
 ['inputs','configurations'],"all meshes, end points, area cost assignments not below 1, and custom cost functions that dominate the straight distance",
 "Golden tests pin the corridor of few queries with uniform costs; optimality concerns all alternatives.",
 [Q,'detour/node.go','detour/nodequeue.go','detour/queryfilter.go'],[('A* search','NavMeshQuery.FindPath'),('open list','nodeQueue'),('cost function','StandardQueryFilter.Cost')],
 [('node costs','cost from start and total','Node.Cost/Node.Total')],['visited nodes of NodePool','path of FindPath'])
p('D10','A search done in slices gives the same result as a search done at once',
 "Starting a sliced search, updating it with any sequence of iteration budgets and finalizing it gives the same path, status details and total of iterations whatever the budgets; no update performs more iterations than allowed, each reports how many it did, and the search is in progress until it's complete. It reaches the end exactly when a search at once does, with a path of the same cost where costs are uniform and no tile borders or off-mesh connections are involved. Finalizing a search early gives a valid partial corridor from the start, and, given an existing path, one that ends at the furthest polygon of that path that was visited; output too small is never overflown and is reported, and updating or finalizing a search that failed, is finished or was never started is refused. Running out of nodes is reported exactly when more polygons are considered than there are nodes. A search of which the start or end is removed fails at its next update; removing other tiles meanwhile lets it fail or end, never panic or go on forever.",
 ['schedules','inputs'],"all budgets sequences (including one iteration at a time), with queries that need no search done in between, meshes, filters, end points and output sizes, with a search finalized at any moment and tiles removed at any moment",
 "One test runs the sliced search with one budget on a few queries.",
 [Q],[('sliced search','NavMeshQuery.Init/Update/FinalizeSlicedFindPath(Partial)')],
 [('sliced query state','search in progress','NavMeshQuery.query')],['status, iteration count and path'])
p('D11','Straight paths are the taut string through the corridor',
 "The straight path computed for a corridor starts at the start position and ends at the end position (clamped to the first and last polygons), stays within the corridor, and is no longer than any other polyline through it (in the ground plane), so that intermediate vertices are corners of portals; vertices are flagged as start, end or off-mesh connection start (each connection crossed having one) and tagged with the polygon entered there (none at the end). Options add a vertex at every polygon border (or at those where the area changes) without changing the shape; an output filled by the path holds its beginning and is reported as too small; a corridor interrupted by an invalid polygon gives a path to the polygon before, flagged as partial.",
 ['inputs','configurations'],"all corridors found by path searches over meshes with random convex polygons, all options and output sizes, apart from corridors with portals which the shortest path meets edge-on",
 "Golden tests compare a few paths; tautness depends on the exact geometry of every portal.",
 [Q],[('funnel','NavMeshQuery.FindStraightPath'),('portals','NavMeshQuery.portalPoints'),('crossings','NavMeshQuery.appendPortals/appendVertex')],None,['points, flags and references of FindStraightPath'])
p('D12','Nearest polygon queries find the nearest polygon',
 "Looking for the polygon nearest to a point returns, among the polygons that pass the filter and whose bounding boxes overlap the search box, one whose surface is nearest to the point (a point above or below a polygon within the climb height of the tile being at distance zero), with the nearest point on it; nothing is returned if there's none. This holds whether or not tiles have a bounding volume tree (which may only add polygons within its resolution of the box), and off-mesh connections are never returned.",
 ['inputs','configurations'],"all points and search boxes (endless ones included), in, across and outside of tiles; all meshes (tiled, layered, with or without bounding volume trees and detail meshes) and filters",
 "Tests use a few points, all of them near the middle of polygons of one tile.",
 [Q,M,C,'detour/polyquery.go'],[('box query','NavMeshQuery.queryPolygonsInTile'),('nearest','findNearestPolyQuery.Process'),('BV tree','createBVTree')],None,['FindNearestPoly'])
p('D13','Closest points lie on the polygon and are the closest',
 "The closest point on a polygon to a position is the position itself, at the height of the polygon's detail surface, when it's over the polygon, and otherwise the closest point of its boundary (also at the height of the surface); the boundary variant gives the position itself when it's over the polygon and the closest point of its outline otherwise. For an off-mesh connection it's a point of the segment between its ends, at the ratio of the distances to them. Whether the position is over the polygon is reported accordingly, and invalid references are refused.",
 ['inputs'],"all polygons, ground and off-mesh, with or without detail meshes, and positions inside, outside, on edges and at vertices",
 "Tests check few positions on two golden meshes.",
 [Q,'detour/common.go'],[('closest point','NavMeshQuery.ClosestPointOnPoly/ClosestPointOnPolyBoundary'),('edge distances','distancePtPolyEdgesSqr'),('detail height','closestHeightPointTriangle')],None,['ClosestPointOnPoly, ClosestPointOnPolyBoundary'])
p('D14','Walkability ray casts stop exactly at the first wall',
 "Casting a ray along the surface visits polygons that are linked one after the other from the start polygon and all pass the filter, stops at the first edge of the walkable surface the segment meets, giving its position as a fraction of the segment and its horizontal normal, and reports that nothing was hit if and only if the whole segment is over the polygons visited. Off-mesh connections aren't followed. The result doesn't depend on what the output structure contained before, the cost option accumulates the filter's cost along the ray, and a visited list too small holds the first ones and is reported.",
 ['inputs'],"all meshes (with portals across tiles of partial extent), start points in polygons, segments and filters that don't meet vertices within rounding",
 "Tests cast two rays on golden meshes.",
 [Q],[('ray cast','NavMeshQuery.Raycast/Raycast2'),('clipping','IntersectSegmentPoly2D')],None,['RaycastHit'])
p('D15','Filters are respected by every query',
 "Whichever filter is given, its own decisions are those of its include and exclude flags (all required: at least one included and no excluded flag), its cost is the distance times the area's cost, and no query ever returns or walks through a polygon the filter rejects, except the start polygon of a search; a user-defined filter is asked about, and only about, polygons that exist, with the tile and polygon that match the reference.",
 ['inputs','configurations'],"all include and exclude masks, area costs and user-defined filters, on all queries",
 "Tests use the default filter nearly everywhere.",
 [Q,'detour/queryfilter.go'],[('standard filter','StandardQueryFilter.PassFilter/Cost'),('calls of the filter','NavMeshQuery')],None,['calls of QueryFilter methods','query results'])
p('D16','Off-mesh connections link the ends they are declared between',
 "An off-mesh connection whose start lies in a tile is attached to the ground polygon of its tile nearest to its start within its radius and step height, and, in each tile (layer) at the location of its end, to the polygon there that is nearest to its end within them, as soon as that tile is present and whichever is added first; it can be crossed from start to end, and from end to start only if it is bidirectional. Paths that use it enter and leave through these polygons, and straight paths flag the vertex where the connection is entered and continue at its other end.",
 ['inputs','histories'],"all positions, radii, directions, areas and flags of connections inside a tile, to other tiles in each of the eight directions, on meshes built by adding tiles in any order, as long as the link capacity of the tiles isn't exceeded",
 "One skipped test and one golden mesh touch off-mesh connections; direction, flags and cross-tile ends aren't covered.",
 [M,C,Q],[('classification','classifyOffMeshPoint/CreateNavMeshData'),('landing','NavMesh.baseOffMeshLinks/connectExtOffMeshLinks'),('portals','NavMeshQuery.portalPoints')],
 [('connections','end points, radius, flags, side, user id','MeshTile.OffMeshCons')],['links, FindPath, FindStraightPath'])
p('D17','Query objects keep no memory and queries never change the mesh',
 "The result of a query depends only on the mesh, the filter and the arguments: not on queries the same query object did before, whether they succeeded, failed, ran out of nodes or were abandoned half way, and not on values left in output arguments. No query changes the mesh, the filter or its input arguments.",
 ['histories','inputs'],"all sequences of queries of all kinds on one query object compared with fresh ones, filters, polygon flags and areas and tiles of the mesh changing between queries",
 "Each test makes a new query object for one or two queries.",
 [Q,'detour/node.go'],[('reset of the search state','NavMeshQuery: nodePool.Clear, openList.clear'),],
 [('node pool','search nodes','NodePool'),('sliced state','search in progress','NavMeshQuery.query')],['all query results','mesh contents before and after'])
p('D18','Concurrent queries and builds do not interfere',
 "Any number of goroutines, each with its own query object, can query one navigation mesh at the same time, and any number of navigation meshes can be built at the same time with separate build contexts, without data races and with the results they'd have one after the other. Writing a mesh while it's being queried is as safe.",
 ['schedules'],"all interleavings of queries of all kinds on a shared mesh with private query objects and of builds on private contexts from shared geometry bytes",
 "The tests are sequential and not run with the race detector.",
 [Q,M,'recast/buildcontext.go','sample/solomesh/builder.go','sample/tilemesh/builder.go'],[('no shared mutable state','package level variables')],None,['race detector reports','results compared with sequential runs'],None)
p('D19','The node pool keeps one node per polygon and state, up to its capacity',
 "A pool of search nodes gives for a polygon and state the same node until cleared, distinct nodes for distinct ones, gives nothing but never corrupts existing nodes once its capacity is reached, finds exactly the nodes that were requested before, and converts between nodes and their indexes consistently; a cleared pool is as a new one.",
 ['histories','configurations'],"all sequences of requests, lookups and clears, all capacities and hash sizes, including collisions and exhaustion",
 "The one test makes a few requests to one pool.",
 ['detour/node.go'],[('hash table of nodes','NodePool.Node/FindNode/FindNodes/Clear')],[('hash chains','buckets','NodePool.first/next')],['methods of NodePool'])
p('D20','Tile data carries the input polygon mesh faithfully',
 "Tile data created from a polygon mesh contains its vertices in world coordinates, its polygons with their vertices, areas, flags, neighbours and tile border marks, the vertices and triangles of its detail mesh (or a triangulation of the polygon if there's none), a bounding volume tree that encloses every polygon (to its resolution of a cell), and exactly the off-mesh connections that start in the tile (within its bounds in the plane, and within the step height of its height range). Input that can't be represented (too many vertices per polygon, too many vertices or polygons in total, detail meshes of a polygon with more than 255 triangles or 255 vertices besides its own, no vertices, no polygons) is refused with an error.",
 ['inputs','configurations'],"all polygon meshes within the limits of the format, with 3 to 6 vertices per polygon, up to the 32767 polygons and 65536 vertices that indices can tell apart, with or without detail meshes (none or empty ones alike), bounding volume trees and off-mesh connections, tiles of any height",
 "Tests create data for one small polygon mesh and compare two builds with golden files.",
 [C],[('tile data','CreateNavMeshData'),('BV tree','createBVTree/subdivide')],None,['contents of the tile after AddTile','error'])
p('D21','Adjacent tiles are stitched exactly where their borders match',
 "Polygons of two tiles are connected if and only if both have edges on the tiles' common border, which overlap in extent along it and cross or come within twice the step height of one another at an end of the common part, in both directions and through a portal that covers the common part of the edges (to the precision of the portal format). This holds for all four sides and any number of layers, and no connection is made between tiles that don't touch.",
 ['inputs','histories'],"all pairs of neighbouring tiles with edges of random extents and heights on their border, edges within 1/100 unit of one another across the border and overlapping by more than 2/100 along it, the tiles having the same step height and the link capacity of the tiles not being exceeded",
 "The golden tiled mesh has few tiles, on flat borders with full edges only.",
 [M],[('border matching','NavMesh.findConnectingPolys/overlapSlabs/calcSlabEndPoints'),('portal extents','NavMesh.connectExtLinks')],[('portal limits','part of the edge connected','Link.BMin/BMax')],['links between tiles','paths and straight paths through portals'])
p('D22','Exported geometric functions give the exact answers up to rounding',
 "The signed area of a triangle, the center of a polygon, the crossing of two lines, the clipping of a segment by a convex polygon (whether it's hit, from where to where it's inside, and the edges it enters and leaves by, or none where it starts or ends inside) and the overlap of two boxes (touching ones overlap) are those of exact arithmetic, up to rounding, and computing them changes none of the arguments.",
 ['inputs'],"all points, segments, convex polygons of 3 to 6 vertices and boxes, degenerate ones (equal, aligned, touching, parallel) included, apart from segments that merely touch a polygon",
 "Only the center of one polygon is tested directly; degenerate configurations hardly occur in the golden meshes.",
 ['detour/common.go','detour/poly.go'],[('geometry','TriArea2D/CalcPolyCenter/IntersectSegSeg2D/IntersectSegmentPoly2D/OverlapBounds/OverlapQuantBounds')],None,['results of the functions'])
R='recast/'
p('R01','Solid spans of a heightfield column are the merged union of what was added',
 "After adding any triangles or spans to a heightfield, the spans of each column are sorted, don't overlap or touch, and cover exactly the union of the height ranges that were added to the column; the walkability of a merged span is that of the one with the higher top, or the larger area number of both where their tops are within the merge threshold. The number of spans over walkable surfaces is reported exactly.",
 ['histories','inputs'],"all sequences of triangles and spans added to a column, in any order, with any heights, areas and merge thresholds",
 "Tests add three spans to one column.",
 [R+'heightfield.go',R+'rasterization.go'],[('merging','Heightfield.addSpan')],[('spans','sorted list per column','Heightfield.Spans')],['Heightfield.Spans'])
p('R02','Rasterization covers all of a triangle and nothing far from it',
 "Rasterizing a triangle marks, in each column of the grid that the triangle crosses by more than rounding, a span that contains the height range of the part of the triangle in the column, clipped to the heightfield, marks nothing in the columns its bounding box doesn't reach, and exceeds the exact range by no more than one height cell. The three rasterization entry points, with indexed, 16 bit indexed or expanded triangles, give the same result, and triangles out of bounds change nothing.",
 ['inputs'],"all triangles, in and across the bounds of the grid, thin, steep, vertical and degenerate ones included",
 "Golden tests rasterize two models; single triangle tests use three triangles.",
 [R+'rasterization.go'],[('clipping per row and column','rasterizeTri/dividePoly')],None,['Heightfield.Spans'])
p('R03','Walkable slopes are told apart by angle and winding',
 "Triangles are marked walkable if and only if their upward normal's angle to the vertical is less than the maximal slope, downward facing and vertical ones never being marked, leaving the marks of others as they were; clearing unmarks exactly those at or above that angle. Each triangle is judged by its own vertices.",
 ['inputs'],"all triangles, slopes and existing marks, apart from angles within rounding of the limit",
 "Tests use one flat and one steep triangle.",
 [R+'recast.go'],[('normal test','MarkWalkableTriangles/ClearUnwalkableTriangles/calcTriNormal')],None,['areas'])
p('R04','Span filters remove exactly the spans agents cannot stand on',
 "The three heightfield filters change nothing but the areas of spans, by their definitions: an obstacle that's not walkable, whose top is at most a step above that of the walkable span right below it, takes the area of that span (as it was before filtering); a walkable span becomes not walkable if a neighbour column (or the outside of the grid) has a floor more than a step below it that an agent could reach, the gap both have in common being higher than the agent, or if the floors an agent can step to around it differ by more than a step; and spans with no more clearance above them than the agent's height become not walkable.",
 ['inputs','configurations'],"all heightfields, agent heights and step heights",
 "Unit tests use single spans; golden tests two models.",
 [R+'filter.go'],[('filters','FilterLowHangingWalkableObstacles/FilterLedgeSpans/FilterWalkableLowHeightSpans')],None,['areas of spans'])
p('R05','The compact heightfield holds the open space over walkable spans',
 "The compact heightfield of a heightfield has one span for each walkable span, in order, with its area, starting at its top and reaching up to the bottom of the span above (clamped to 255), connected in a direction to a span of the neighbour column if and only if the step between both is climbable and the gap common to both is high enough for the agent. Neighbour connections can be set and read back independently for each direction.",
 ['inputs','configurations'],"all heightfields with up to 62 layers that connect (columns may have any number of spans), agent heights up to 255 cells, and step heights",
 "Golden tests check two models; connections are asserted nowhere.",
 [R+'heightfield.go',R+'recast.go'],[('compaction','BuildCompactHeightfield'),('packed connections','SetCon/GetCon')],[('cells, spans','open spans per column','CompactHeightfield.Cells/Spans')],['CompactHeightfield'])
p('R06','Erosion removes exactly the surface too close to an obstacle',
 "Eroding the walkable area by a radius clears the area of exactly those spans whose distance to the border of the walkable area, counted with steps of 2 to direct and 3 to diagonal neighbours, is below twice the radius, and changes nothing else.",
 ['inputs','configurations'],"all compact heightfields with step heights not above the agent's height and surfaces that don't wind around a point over themselves, and all radii",
 "Golden tests erode two models by a radius of two.",
 [R+'area.go'],[('distance transform','ErodeWalkableArea')],None,['CompactHeightfield.Areas'])
p('R07','Marking convex volumes changes exactly the surface inside them',
 "Marking a convex volume gives its area to the walkable spans whose column centre is inside the outline and whose floor is inside the height range of the volume, all of them and only them, and never makes a span walkable. Volumes (of up to 12 vertices, up to 256 of them; others are ignored) added to the input geometry are kept as given, in order, and can be deleted one at a time, the last one moving into the place of the one deleted; loading a geometry starts without any.",
 ['inputs'],"all convex outlines (any number of vertices, winding and position relative to the grid), height ranges and areas, apart from floors within one height cell of the limits",
 "No test marks a volume.",
 [R+'area.go',R+'inputgeom.go'],[('point in polygon','MarkConvexPolyArea/pointInPoly'),('volumes','InputGeom.AddConvexVolume/DeleteConvexVolume')],None,['CompactHeightfield.Areas','ConvexVolumes'])
p('R08','Regions partition the walkable surface into connected parts',
 "The monotone partitioning of a compact heightfield puts each walkable span in a region, apart from those in pieces of connected surface smaller than the minimum area and not next to the border, which are left out as a whole; regions are connected, of one area type only, and never hold two spans of a column, and no two neighbouring regions remain that should have been merged (one being smaller than the merge area, both touching in one place only). Spans that aren't walkable have no region, those within the border are marked as such. A field that takes more regions than can be numbered (32767, while partitioning) is refused, never partitioned with numbers used twice.",
 ['inputs','configurations'],"all compact heightfields with several layers, areas, border sizes, minimum and merge areas, step heights not above the agent's height",
 "Golden tests partition two models; nothing asserts the partition itself.",
 [R+'region.go'],[('monotone','BuildRegionsMonotone'),('merging and filtering','mergeAndFilterRegions')],None,['CompactSpan.Reg, MaxRegions'])
p('R09','Contours trace each region exactly and simplify it within the tolerance',
 "Each region yields a contour (unless its outline is nothing once simplified) whose raw outline encloses exactly the cells of the region, holes merged into it, with a positive winding, and whose vertices carry the neighbouring region, area border and tile border marks of the edges that start there; simplification keeps the vertices at which neighbouring regions change, doesn't move any remaining vertex, stays within the maximal error of the raw outline (twice that where long edges are split), and leaves no edge longer than the limit where splitting was asked for; a limit that no edge reaches changes nothing. Stretches between two regions that both see alike are simplified alike from both sides.",
 ['inputs','configurations'],"all region partitions, with holes, islands and borders, all tolerances and edge length limits",
 "Golden tests compare two models; no model there has a region with a hole.",
 [R+'contour.go'],[('walking','walkContour'),('simplification','simplifyContour'),('holes','mergeRegionHoles')],None,['ContourSet'])
p('R10','Polygon meshes are convex partitions of the contours',
 "The polygon mesh built from contours has convex polygons of at most the requested number of vertices, in consistent winding, with valid, distinct vertex indexes, whose interiors don't overlap within a region and whose total area equals that of the contours, each having the area and region of its contour, no two of them left that could have been merged; neighbour relations are symmetric and edge-accurate, and edges on the tile border are marked with the side they're on, and vertices marked for removal on tile borders are gone.",
 ['inputs','configurations'],"all contour sets made from real heightfields, whose outlines don't touch or cross themselves (apart from the bridges to merged holes), and all vertex limits from 3 to 6; border vertices that get removed included",
 "Golden tests compare two models at 6 vertices per polygon; geometry is never asserted.",
 [R+'mesh.go',R+'polymesh.go'],[('triangulation','triangulate'),('merging','polyMergeValue/mergePolys'),('border vertices','canRemoveVertex/removeVertex'),('adjacency','buildMeshAdjacency')],None,['PolyMesh'])
p('R11','Detail meshes follow the surface over each polygon',
 "The detail mesh of each polygon is a triangulation which covers it (in the ground plane) without overlaps, starting with the polygon's vertices, all its triangles having valid indexes, with edge flags telling the polygon's boundary; its vertices lie within the polygon's outline, at the height of the heightfield surface there: that of the polygon's region where it has any, else that of surface connected with it within the polygon's bounds, else the nearest such surface within the search radius; vertices along an edge shared by two polygons of a region are the same for both, and polygons narrower than twice the sampling distance get no inner vertices. At every sample position well inside the polygon and along its edges, the height error is at most the requested maximum (plus a jitter of a tenth of a cell), unless the limit of 127 vertices is reached.",
 ['inputs','configurations'],"all strictly convex polygons over real heightfields, sample distances (0 included) and maximal errors",
 "Golden tests compare two models with one set of parameters.",
 [R+'meshdetail.go'],[('sampling','buildPolyDetail'),('triangulation','delaunayHull/triangulateHull'),('heights','getHeightData')],None,['PolyMeshDetail'])
p('R12','The spatial index of input triangles loses none of them',
 "The chunks made from an input geometry contain each triangle exactly once, at most the announced number of triangles each, and have bounds that enclose them; the chunks found for a rectangle are exactly the chunks whose bounds overlap it, each reported once, as many as fit in the output.",
 ['inputs'],"all triangle meshes, of 0 to thousands of triangles, and query rectangles",
 "Only one golden build exercises it indirectly.",
 [R+'chunkytrimesh.go',R+'inputgeom.go'],[('subdivision','createChunkyTriMesh'),('query','ChunkyTriMesh.ChunksOverlappingRect')],None,['ChunkyTriMesh'])
p('R13','Geometry files are read completely or refused with an error',
 "Reading a geometry file gives its vertices in order, its faces as triangle fans with resolved indexes and the unit normals of the triangles, and the exact bounds of the vertices; a file without vertices, with faces that refer to missing vertices, with malformed numbers, or whose reader fails, gives an error, without crashing.",
 ['inputs','fault_sequences'],"all files made of vertex, face, comment and unknown lines with fields separated by single spaces, faces of any size, referring to vertices before them, with or without texture and normal indexes; damaged variants of them",
 "Tests read well-formed files only.",
 [R+'meshloaderobj.go',R+'inputgeom.go'],[('loader','MeshLoaderOBJ.Load'),('geometry','InputGeom.LoadOBJMesh')],None,['MeshLoaderOBJ, InputGeom, error'])
p('R14','Building is deterministic and not affected by logging, timing or other builds',
 "Building a navigation mesh twice from the same geometry and settings gives identical bytes, also when the builder or the context is reused (after builds with other settings or geometry, and after builds that were refused), logging and timers are enabled or not, and other builds run in between. Building doesn't modify the geometry, nor the meshes built before.",
 ['inputs','histories','configurations'],"all geometries and settings, with and without convex volumes, single tile and tiled builds, and sequences of builds",
 "The golden tests build each mesh once.",
 ['sample/solomesh/builder.go','sample/tilemesh/builder.go','recast/buildcontext.go'],[('no state kept','builders and BuildContext')],None,['serialized meshes'])
p('R15','The build context keeps the messages and times it is told about',
 "While logging is enabled, a build context keeps every message, with its category, in order and formatted as asked for, up to its capacity (later ones are dropped), until the log is reset; none is kept while logging is disabled, and dumping the log writes its title and all its messages. While timers are enabled, each timer's accumulated time is the sum of the stretches of time it ran since timers were reset, and -1 if it never did or timers are disabled. A report of build times has a line for each timer that ran, and the total.",
 ['histories','configurations'],"all sequences of messages, resets, switches, dumps and starts and stops of timers (stopped after they were started, no switch in between)",
 "No test looks at the log or the timers.",
 [R+'buildcontext.go',R+'dump.go'],[('log','BuildContext.log/DumpLog/ResetLog'),('timers','BuildContext.StartTimer/StopTimer/AccumulatedTime'),('report','LogBuildTimes')],[('log','messages kept','BuildContext.messages'),('timers','accumulated times','BuildContext.accTime')],['LogCount, LogText, DumpLog, AccumulatedTime'])
p('R16','Bounds, grid sizes and directions are those the definitions give',
 "The bounds of some vertices are their exact minimum and maximum per coordinate, the size of a grid is the extent of the bounds in cells rounded to the nearest, a new heightfield has the dimensions it's made for and only empty columns, and the four directions have the offsets left, forward, right and backward, in turn, each offset leading back to its direction. The connections of a compact span are those set last, each direction on its own.",
 ['inputs'],"all non-empty vertex arrays (the count not exceeding them), bounds and cell sizes, all directions, and all sequences of connections set",
 "Golden tests see one model's bounds.",
 [R+'recast.go',R+'heightfield.go'],[('definitions','CalcBounds/CalcGridSize/NewHeightfield/GetDirOffsetX/GetDirOffsetY/GetDirForOffset/SetCon/GetCon')],None,['results of the functions'])
p('S01','A built mesh covers the ground agents can stand on and nothing else',
 "In the mesh built from a scene, each point well inside a flat and open enough area finds a polygon under it at the right height, while there's no polygon over void, under too low ceilings, on too steep slopes, or closer to walls and ledges than about the agent's radius. Two places are joined by a path whenever agents of the given size and step height can get from one to the other with a few cells to spare, and only if they can at all.",
 ['inputs','configurations'],"scenes of floors, boxes, ramps, walls, gaps, steps and platforms of random sizes, and agents of random radius, height and step height, apart from distances within a few cells (and the simplification error) of a limit",
 "Golden tests compare bytes for two models, telling nothing about other scenes or agents.",
 ['recast/*.go','sample/solomesh/builder.go','sample/tilemesh/builder.go','detour/*.go'],[('build pipeline','SoloMesh.Build/TileMesh.Build')],None,['FindNearestPoly, FindPath on built meshes'])
p('S02','Tiled and single tile builds describe the same world',
 "The navigation meshes built from a geometry with the same settings as a single tile or as tiles of any size, cover the same surface (within the tolerance of simplification), with the same places connected to one another, also across tile borders; as single tile builds, tiled ones cover the ground agents can stand on and nothing else. Removing a tile and building it again leads back to the same mesh, positions outside of the geometry being in none of its tiles, and a build that can't hold all its tiles fails.",
 ['inputs','configurations','histories'],"all scenes and agents as for the coverage of a build, tile sizes from 16 cells up (whole numbers or not); connections across tiles for agents more than twice as tall as their step height",
 "Each builder is compared with its own golden file, on different settings.",
 ['sample/tilemesh/builder.go','sample/solomesh/builder.go','detour/mesh.go'],[('tile borders','BorderSize, TileMesh.buildTileMesh'),('stitching','NavMesh.connectExtLinks'),('tiles','TileMesh.BuildTile/RemoveTile')],None,['FindNearestPoly, FindPath on both meshes'])
p('S03','The command line tool keeps its promises on files',
 "The configuration the tool generates holds the default settings, which it reads back unchanged to build; meshes it builds are those of the library for the same settings and geometry and are accepted by its information command, which reports their parameters, damaged ones are not. Existing files are overwritten only after an affirmative answer, and a failure to read, build (settings no mesh can be built with included) or write is reported and, unless overwriting was confirmed, leaves all files alone.",
 ['inputs','fault_sequences'],"all mesh types, build settings, answers to the confirmation (including none) and missing, unreadable or damaged files",
 "No test runs the tool.",
 ['cmd/recast/cmd/*.go','recast/config.go'],[('commands','doBuild/doConfig/doInfos'),('confirmation','askForConfirmation')],None,['files, exit status and output of the tool'])
p('S04','Areas marked in the input geometry reach the built mesh',
 "In a mesh built from a geometry with convex volumes, single tile or tiled, the polygons well inside volumes have the area of the last volume added there, those well outside of all the area of the ground, and there are none where a volume marks the surface as not walkable (whatever was added after it); nothing else of the surface is lost. The flags of polygons are those of their area (ground, road and grass can be walked, water swum, doors walked and opened, anything else has none), and places stay joined across the border of an area if and only if they were without it, as long as it can be passed.",
 ['inputs','configurations'],"all scenes and agents as for the coverage of a build, 1 to 4 convex volumes of any area, size, position and height range, apart from places within a few cells (and the simplification error) of the limits of a volume",
 "No test builds a mesh with volumes.",
 ['sample/solomesh/builder.go','sample/tilemesh/builder.go','recast/area.go','recast/inputgeom.go','recast/region.go','recast/contour.go','recast/mesh.go'],[('marking','SoloMesh.Build/TileMesh.buildTileMesh'),('flags from areas','SoloMesh.Build/TileMesh.buildTileMesh')],None,['Poly.Area, Poly.Flags, FindPath on built meshes'])
p('S05','Builders honour every setting',
 "What a builder makes of a geometry is exactly what the steps of the library, called one after another, make of it with the settings converted to cells: the agent's height and radius rounded up, its step height and the longest edge rounded down, region sizes squared, detail sampling distances below 0.9 cells meaning none. Volumes are marked in the order they were added, tiles get the triangles around them with a border of the agent's radius and three cells, and the mesh records the agent's sizes in world units. It fails if and only if a step does (tiles without surface are left out), also when its geometry couldn't be loaded, or with settings that can't be used (cells without size, negative radiuses, too few or many vertices per polygon, sizes or grids of more cells than can be counted), and doesn't depend on what the builder made before.",
 ['inputs','configurations'],"all scenes and settings with monotone partition: as the builder was made, or any agent, slope, region, edge and detail settings, whole numbers of cells or not, with any convex volumes, as a single tile or tiles of any size",
 "Golden tests build two models with one set of settings each.",
 ['sample/solomesh/builder.go','sample/tilemesh/builder.go','sample/solomesh/settings.go','sample/tilemesh/settings.go','recast/chunkytrimesh.go','recast/config.go'],[('settings to cells','SoloMesh.Build/TileMesh.Build'),('tiles','TileMesh.buildTileMesh'),('recorded sizes','NavMeshCreateParams')],None,['NavMesh bytes of a build'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
