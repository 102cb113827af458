#!/usr/bin/env python3
# Generates /verif/properties.jsonl (one property per line).
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

prop("P01","Sampling progress counters are exact over any history",
 "After any history of setting targets, counting accepted and rejected candidates, and resetting (one id, all counters, or everything), the sampling status reports per id and in total exactly the entities accepted since the last applicable reset, and the printed accepted/rejected/ratio/progress figures are computed from exactly those counts and the targets still set. An id is reported finished exactly when its accepted count has reached its target, and the whole run exactly when every id with a target has; asking for the status of an id that has no target is refused and, like every other query, changes nothing. A full reset also forgets targets and rejections, whereas resetting counters keeps the targets.",
 ["histories"],"every sequence of status operations over any set of ids, targets and counts",
 "One test drives one short linear history with two ids; interleavings of resets, repeated targets, queries of unknown ids and surpassed targets are never exercised.",
 ["frackit/sampling/status.hh"],
 [("count and target maps","SamplingStatus::setTargetCount / increaseCounter / finished"),("reset variants","SamplingStatus::reset / resetCounters / resetCounter"),("printed figures","SamplingStatus::print")],
 ["getCount(), getCount(id), finished(), finished(id)","standard output of print()"],
 [("counts","accepted per id","status.hh count_"),("targets","target per id","status.hh targetCount_"),("rejected","rejections since last full reset","status.hh rejectedCount_")])

prop("P02","Multi-geometry sampling cycles samplers in order and labels samples correctly",
 "Whatever the order in which samplers of different geometry types are registered and samples are drawn, every sample is produced by exactly one call of the sampler that was registered under the id reported with it, and by no other sampler. With sequential sampling the ids are visited in registration order, cyclically, ids registered between draws joining the cycle at its end; registering an id twice or sampling without any sampler is refused and leaves the cycle unchanged.",
 ["histories"],"every interleaving of sampler registrations (any geometry types and ids) and draws",
 "No test uses the multi-geometry sampler at all; only the order of registrations and draws decides which sampler is called.",
 ["frackit/sampling/multigeometrysampler.hh","frackit/sampling/samplingstrategy.hh","frackit/sampling/sequentialsamplingstrategy.hh"],
 [("id list and cursor","SequentialSamplingStrategy::getNextId"),("sampler lookup by id","MultiGeometrySampler::operator()"),("duplicate check","MultiGeometrySampler::addGeometrySampler")],
 ["geometry and id returned by each draw","number of calls each sampler received"])

prop("P03","Entity sets keep every entity under its id and export each exactly once",
 "A multi-geometry entity set holds, for each id, exactly the entities added under that id, unchanged and in insertion order, whether they were added as concrete geometries or through the abstract geometry interface; adding a geometry of another type under an existing id is refused without effect. Counting, applying a function to one set, and exporting (all sets or a selected list of ids, with or without a sub-domain) reach exactly the entities of the ids concerned, each once, and report unknown ids as having none.",
 ["histories"],"every sequence of insertions of mixed geometry types under any ids, interleaved with queries and exports",
 "No test instantiates the class; which sets are visited depends on the history of insertions.",
 ["frackit/entitynetwork/multigeometryentityset.hh","frackit/geometryutilities/assign.hh","frackit/geometryutilities/name.hh","frackit/geometryutilities/applyongeometry.hh"],
 [("per-type storage and id lookup","MultiGeometryEntitySet::addEntity / applyOnSet"),("export","MultiGeometryEntitySet::exportEntitySets"),("cast from abstract geometry","assign / applyOnGeometry")],
 ["entities seen by the applied function / by the builder","numEntities"])

prop("P04","A candidate is admissible exactly when every active constraint holds",
 "Two entities (any combination of disks, quadrilaterals, polygons, B-Rep faces and a cylinder surface with a planar entity) are reported admissible exactly when all active constraints hold: non-intersecting ones are at least the minimum distance apart, and intersecting ones have every intersection part at least the minimum size, intersect in at least the minimum angle, and leave no gap smaller than the minimum distance between the ends of the intersection and the boundaries of either entity (ends lying on a boundary are fine); coplanar face overlaps count only when explicitly allowed. Constraints that were never set or were neglected again play no role, a later value replaces an earlier one, and the verdict does not depend on argument order, on whether geometries are passed concretely or through the abstract interface, or on whether a candidate is checked singly or within lists, where a list is admissible exactly when every pair is.",
 ["inputs","configurations","histories"],"all pairs and lists of entities in the modelled geometry families, all combinations and threshold values of the four constraints, and all histories of setting and neglecting them",
 "Tests check a few dozen hand-placed entity pairs against one fixed constraint set; they do not combine constraints, orders, lists, or setting histories.",
 ["frackit/entitynetwork/constraints.hh","frackit/entitynetwork/constraints_impl/admissibledimension.hh","frackit/entitynetwork/constraints_impl/admissiblemagnitude.hh","frackit/entitynetwork/constraints_impl/distancetoboundary.hh","frackit/intersection/intersectionangle.hh","frackit/distance/distance.hh"],
 [("decision procedure","EntityNetworkConstraints::evaluate_"),("list and pointer overloads","EntityNetworkConstraints::evaluate"),("size / dimension / boundary checks","constraints_impl/*")],
 ["boolean verdict of evaluate"])

prop("P05","A constraints matrix applies each rule to exactly the pairs it was defined for",
 "Evaluating a candidate for a set id returns true exactly when, for every relation defined from that id to another id, the constraints registered with that relation are satisfied between the candidate and all entities currently in the other set; absent or empty sets impose nothing, and relations in the other direction or between other ids play no role. Defining a relation twice, or evaluating for an id without relations, is refused; several pairs given in one call share the same constraints.",
 ["histories","configurations"],"every history of relation definitions and evaluations over any ids, sets and constraints",
 "No test instantiates the matrix; correctness is about which of many relations are consulted.",
 ["frackit/entitynetwork/constraintsmatrix.hh","frackit/common/idpair.hh","frackit/entitynetwork/multigeometryentityset.hh"],
 [("relation bookkeeping","EntityNetworkConstraintsMatrix::addConstraints / updateIndexMaps_"),("evaluation","EntityNetworkConstraintsMatrix::evaluate")],
 ["verdict or refusal of evaluate","which constraints objects are consulted with which entities"])

prop("P06","Planar intersections return exactly the common point set",
 "For segments, lines, planes, disks (circular and elliptical), convex quadrilaterals and convex polygons in space, the computed intersection has the right kind (nothing, point, segment, line, plane) and the exact location of the common point set, including touching at corners, edges and rims, and collinear segments. The result does not depend on argument order and moves and scales with the geometries; requests that are not supported (coplanar faces, concave polygons) are refused rather than answered wrongly.",
 ["inputs"],"all pairs of these geometries in lattice configurations including all degenerate contacts, in any position, orientation and scale",
 "Tests use a few axis-aligned hand-made pairs per type; contact configurations, orientation, order of arguments and scale span a space that examples cannot cover.",
 ["frackit/intersection/intersect.hh","frackit/intersection/bboxintersection.hh","frackit/intersection/algorithms/algo_segment_segment.hh","frackit/intersection/algorithms/algo_plane_plane.hh","frackit/intersection/algorithms/algo_plane_line.hh","frackit/intersection/algorithms/algo_planargeom_line.hh","frackit/intersection/algorithms/algo_planargeom_planargeom.hh"],
 [("bounding-box rejection","doIntersect"),("plane/line reduction","intersect_planarGeometry_planarGeometry"),("segment overlap logic","intersect_segment_segment")],
 ["variant returned by intersect"])

prop("P07","Cylinder-surface intersections return exactly the common curves and points",
 "The intersection of a lateral cylinder surface with a disk, convex quadrilateral or convex polygon consists of exactly the parts the two have in common: the right number of segments (plane parallel to the axis), elliptical arcs or a full ellipse (plane orthogonal or oblique), and isolated touching points, each located on both geometries and together covering the whole common set without duplicates. Argument order does not matter, and the result moves and scales with the geometries.",
 ["inputs"],"all configurations of planar geometries relative to a cylinder in the modelled families (parallel, orthogonal, oblique; partial, full, touching, outside), in any position, orientation and scale",
 "Tests place a limited number of shapes around one cylinder; the number and extent of arcs depends on combinations of crossing points that examples sample sparsely.",
 ["frackit/intersection/algorithms/algo_cylsurface_planargeom.hh","frackit/intersection/intersect.hh","frackit/geometry/ellipsearc.hh","frackit/geometry/cylindersurface.hh"],
 [("carrier ellipse and arc selection","intersect_cylinderSurface_planarGeometry / Detail::makeArc"),("touching points","intersect_cylinderSurface_planarGeometry")],
 ["vector of variants returned by intersect"])

prop("P08","B-Rep face intersections agree with the geometry they represent",
 "Intersecting a B-Rep face with another face, disk, quadrilateral, polygon or cylinder surface yields exactly the common point set as vertices, edges and faces: for faces made from primitive geometries the parts coincide with the exact intersection of the primitives, and coplanar overlaps are returned as faces of the exact common area. Argument order does not matter, parts do not repeat each other, and the result moves and scales with the geometries.",
 ["inputs"],"all pairs of faces in the modelled lattice families including touching and coplanar ones, in any position, orientation and scale",
 "Tests use a handful of faces; face-face results assemble points, edges and faces from several boolean operations whose interplay depends on the contact configuration.",
 ["frackit/intersection/algorithms/algo_face_face_3d.hh","frackit/intersection/algorithms/algo_cylsurface_face.hh","frackit/intersection/intersect.hh","frackit/occ/breputilities.hh"],
 [("assembly of faces, edges, points","intersect_face_face_3d"),("conversion of primitives to faces","OCCUtilities::getShape")],
 ["vector of variants returned by intersect"])

prop("P09","Intersection angles are the smallest angle between the tangent planes",
 "The intersection angle of two geometries is the angle in [0, 90 degrees] between their planes, or between the plane and the tangent plane of the curved surface at the contact, and for curved or multi-part intersections it is the smallest such angle over the parts and their sample points; it is zero for face-like overlaps. It does not depend on argument order, on the direction of normals, on scale, or on whether a geometry is given as a primitive or as a B-Rep face.",
 ["inputs"],"all pairs of planes, planar geometries, cylinder surfaces and faces with all intersection kinds, in the modelled families and any placement",
 "The one existing test file fails on the installed toolkit version, and checks a few fixed constellations only.",
 ["frackit/intersection/intersectionangle.hh","frackit/geometry/cylindersurface.hh"],
 [("plane-plane angle","IntersectionAngle::operator()(Plane, Plane)"),("tangent planes","CylinderSurface::getTangentPlane, face overloads")],
 ["angle returned by the angle engine"])

prop("P10","Distances are the exact minimum Euclidean distances",
 "The distance between two geometries (points, segments, lines, disks, quadrilaterals, polygons, cylinder surfaces, boxes, B-Rep shapes) is the exact minimum Euclidean distance: zero exactly when they share a point, symmetric in its arguments, unchanged by rigid motion and proportional under scaling. The distance to a list or variant is the minimum over its members.",
 ["inputs"],"all pairs in the modelled lattice families (face-face, face-edge, face-corner, edge-edge, inside, touching), in any placement and scale",
 "Tests cover point/line/segment and a few disks at fixed places.",
 ["frackit/distance/distance.hh","frackit/occ/breputilities.hh","frackit/geometry/line.hh","frackit/geometry/segment.hh"],
 [("closed-form overloads","computeDistance(Point, Segment) etc."),("B-Rep overloads","computeDistance(TopoDS_Shape, TopoDS_Shape)"),("minimum over lists","computeDistance(Geo, vector)")],
 ["value returned by computeDistance"])

prop("P11","Distance to a boundary measures the boundary, and on-boundary tests agree",
 "The distance of a geometry to the boundary of a disk, quadrilateral, polygon, cylinder surface, box or B-Rep face is the exact minimum distance to that boundary curve or surface itself, also when the geometry lies inside or crosses it; a point is reported on the boundary exactly when that distance is below the given tolerance. Combinations without a defined boundary are refused.",
 ["inputs"],"all placements of points, segments and faces relative to the boundaries in the modelled families, with points inside, outside and on the boundary, and tolerances above and below their distance",
 "Tests check a few points and one segment per geometry with default tolerance.",
 ["frackit/distance/distancetoboundary.hh","frackit/distance/pointonboundary.hh","frackit/distance/pointongeometry.hh"],
 [("edge loops","computeDistanceToBoundary overloads"),("point on boundary","pointOnGeometryBoundary overloads")],
 ["value of computeDistanceToBoundary, verdict of pointOnGeometryBoundary"])

prop("P12","Sizes and contained sizes are exact",
 "Lengths, areas and volumes of all finite geometries and of the B-Rep shapes made from them equal their exact values, are unchanged by rigid motion and scale with the respective power. The contained size of an entity with respect to a domain is exactly the size of its part inside the domain: zero outside, the full size inside, additive over disjoint parts, for concrete entities, B-Rep faces and entities passed through the abstract interface.",
 ["inputs"],"all geometry kinds and all entity/domain configurations in the modelled families, in any placement and scale",
 "The test on magnitudes checks a handful of unit geometries.",
 ["frackit/magnitude/length.hh","frackit/magnitude/area.hh","frackit/magnitude/volume.hh","frackit/magnitude/magnitude.hh","frackit/magnitude/containedmagnitude.hh","frackit/geometry/quadrilateral.hh","frackit/geometry/polygon.hh","frackit/geometry/disk.hh","frackit/geometry/cylinder.hh","frackit/geometry/hollowcylinder.hh"],
 [("closed-form sizes","area()/volume()/length() of the geometry classes"),("part inside the domain","computeContainedMagnitude")],
 ["values of computeLength/Area/Volume/Magnitude/ContainedMagnitude"])

prop("P13","Point containment is exact for every geometry",
 "A point is reported as contained in a geometry (segment, line, plane, triangle, quadrilateral including concave ones, convex polygon, disk, circle, ellipse, ellipse arc, cylinder surface, box, sphere, cylinder, hollow cylinder) exactly when it lies in the closed point set up to the tolerance: interior and boundary points are in, points outside by more than the tolerance are out, whatever the orientation, corner order, position or scale. Boxes, spheres and cylinders agree in this with the B-Rep shape made from them.",
 ["inputs"],"all lattice points around each geometry of the modelled families, including corners, edges, rims, axes and points off the supporting plane, in any placement and scale",
 "Tests check a few points per class near one standard placement.",
 ["frackit/geometry/segment.hh","frackit/geometry/triangle.hh","frackit/geometry/quadrilateral.hh","frackit/geometry/polygon.hh","frackit/geometry/disk.hh","frackit/geometry/ellipse.hh","frackit/geometry/ellipsearc.hh","frackit/geometry/cylinder.hh","frackit/geometry/cylindersurface.hh","frackit/geometry/hollowcylinder.hh","frackit/geometry/box.hh","frackit/geometry/sphere.hh"],
 [("contains predicates","contains() of each class"),("default tolerances","frackit/precision/defaultepsilon.hh and default overloads")],
 ["verdict of contains"])

prop("P14","Fragmentation splits entities exactly along their intersections",
 "The network built from any set of disks, quadrilaterals, polygons and B-Rep faces, or of edges, has as fragments exactly the pieces into which the entities cut each other: together they cover each entity completely and without overlap, no fragment is crossed by another entity, and neighbouring fragments share their common edges. Every fragment is mapped to the number, in insertion order starting from one, of the entity it is part of, and several fragments carry the same number exactly when they are part of the same inserted entity, also across sub-domains.",
 ["inputs","histories"],"all arrangements of entities in the modelled lattice families (crossing, touching, dangling, disjoint, several cuts), any insertion order, sub-domain assignment, placement and scale",
 "Two tests build one disk network each and look at the total number of fragments only.",
 ["frackit/entitynetwork/networkbuilder.hh","frackit/entitynetwork/entitynetwork.hh","frackit/occ/breputilities.hh"],
 [("fragmentation and index tracing","EntityNetworkBuilderBase::fragment_"),("merge of sub-domain index maps","EntityNetworkBuilder::build")],
 ["entityFragments / entityFragmentsIndexMap of the built network"])

prop("P15","Confinement keeps exactly the parts of entities inside their domain",
 "When building a network, entities of a sub-domain added as confining are reduced to exactly their parts inside that sub-domain; entities of the other defined sub-domains are reduced to their parts inside the union of all sub-domains while union confinement is on (the default) and are kept whole when it is off; entities of ids without a defined sub-domain are always kept whole. Entities completely outside vanish without disturbing the numbering of the others, and repeating the build with changed settings gives the result of a fresh build with these settings.",
 ["inputs","configurations","histories"],"all arrangements of entities and sub-domains in the modelled lattice families and all combinations of confining flags, union setting and rebuilds",
 "One test confines a disk network to one cylinder and counts fragments.",
 ["frackit/entitynetwork/networkbuilder.hh","frackit/occ/breputilities.hh"],
 [("confinement","EntityNetworkBuilderBase::confineNetworks_"),("domain union","EntityNetworkBuilderBase::getSubDomainUnion_")],
 ["fragments of the built network, their area, location and numbers"])

prop("P16","Contained networks fragment sub-domains and entities conformingly",
 "A contained network lists for each defined sub-domain exactly the solid pieces into which its own and the other sub-domains' entities cut it, together covering the sub-domain, and the entity fragments embedded in it with the number of the entity they stem from. Fragments of entities and of sub-domains conform: each entity piece inside or on the boundary of a sub-domain is a face of that sub-domain's pieces, neighbouring sub-domains share their interface, and every piece is listed under the sub-domain it belongs to.",
 ["inputs","configurations"],"all arrangements of sub-domains and entities in the modelled lattice families, sub-domain ids and confinement settings",
 "One test builds one contained network with one layer model and counts fragments.",
 ["frackit/entitynetwork/networkbuilder.hh","frackit/entitynetwork/containedentitynetwork.hh"],
 [("joint fragmentation","EntityNetworkBuilderBase::fragment_(false)"),("result container","ContainedEntityNetwork")],
 ["subDomainIds, subDomainFragments, subDomainEntityFragments, subDomainEntityFragmentsIndexMap"])

prop("P17","Builders refuse inconsistent input and behave as new after clearing",
 "Network builders refuse entities or sub-domains of inconsistent dimension, entities not of lower dimension than the sub-domains, taken sub-domain ids, access to the network before building, and building without input, each without changing what had been inserted before. Building again after further insertions gives what a fresh builder with all the input gives, the tolerance used is the one set by the user or else the default of the current input, and after clearing a builder behaves like a newly created one with the same settings.",
 ["histories"],"every sequence of insertions, settings, builds, accesses and clears, including rejected ones",
 "Tests call each builder once in the straight order; refusals, rebuilds and clears are not tested.",
 ["frackit/entitynetwork/networkbuilder.hh"],
 [("dimension and id checks","addSubDomain / addSubDomainEntity / addEntity"),("build state","initializeBuild_ / clearBuild_ / clear"),("tolerance","setEpsilon / setDefaultEpsilon / getEpsilon_")],
 ["exceptions, isBuilt, fragments of the network"])

prop("P18","Exported mesh input assigns every fragment to the right physical group",
 "In the files written for a network, the shape file contains exactly the fragments of the network, and the geometry file assigns every entity fragment to exactly one physical surface group, two fragments sharing a group exactly when they stem from the same entity, every sub-domain piece to exactly the physical volume group of its sub-domain id, and every edge along which fragments meet in an intersection to exactly one physical line group. The numbers in the groups refer to the shapes of the shape file, each group is given the mesh size requested for its kind, and nothing else is listed.",
 ["inputs","configurations"],"all networks with and without sub-domains in the modelled lattice families, including sub-domains without entities and entities without sub-domain, and all mesh size arguments",
 "The only writer test fails on the installed toolkit version and does not look at the files.",
 ["frackit/io/brepwriter.hh","frackit/io/gmshwriter.hh"],
 [("index maps","BRepWriter::makeEntityMap_ / addFaces_ / addSolids_ / addEdges_"),("geo file output","GmshWriter::write")],
 ["contents of the .brep and .geo files"])

prop("P19","Sampled disks, quadrilaterals and polygons realise the drawn parameters",
 "Every sampled disk has the drawn centre, the drawn axis lengths with the minor never above the major, and orthonormal axes rotated by the drawn angles; every sampled quadrilateral and polygon is planar, convex, has the drawn number of corners, spans at most the drawn strike and dip lengths, lies in the plane of the drawn strike and dip angles and is centred at the drawn point. Inadmissible draws (non-positive sizes, too few corners) are drawn again or, after a bounded number of tries, refused, never used.",
 ["inputs","histories"],"all sequences of values the user's distributions may return, including repeated inadmissible ones",
 "Tests draw random samples and write them to a file; they assert nothing about the result, and inadmissible draws have probability zero in them.",
 ["frackit/sampling/disksampler.hh","frackit/sampling/quadrilateralsampler.hh","frackit/sampling/polygonsampler.hh","frackit/common/math.hh"],
 [("rejection loops","operator() of the samplers"),("rotations","DiskSampler / sampleCorners"),("edge-vector polygon construction","PolygonSampler::sampleCorners")],
 ["geometry returned by the sampler","number of draws taken from each distribution"])

prop("P20","Point samplers only produce points of their domain, at the drawn coordinates",
 "Points sampled uniformly within a box, cylinder or hollow cylinder always lie in that domain, whatever its position, orientation and size, and cover all of it without favouring any part. With user-defined distributions the point is exactly the one with the drawn local coordinates (x, y, z, or squared radius, angle and height relative to the cylinder's base, axis and centre).",
 ["inputs","configurations"],"all domains of the three kinds in any placement and scale, all drawn coordinate values including the ends of the intervals",
 "The test checks random points within two fixed domains.",
 ["frackit/sampling/boxpointsampler.hh","frackit/sampling/cylinderpointsampler.hh","frackit/sampling/makepointsampler.hh","frackit/sampling/makeuniformpointsampler.hh","frackit/sampling/uniformpointsamplertraits.hh"],
 [("interval bounds","UniformPointSamplerTraits / makePointSampler"),("coordinate transformation","operator() of the point samplers")],
 ["sampled points","arguments handed to the distributions"])

prop("P21","Bounding boxes enclose tightly and never hide an intersection",
 "The bounding box of a geometry (segment, disk, quadrilateral, polygon, cylinder surface, circle, ellipse, B-Rep shape, and the like) contains every point of it, and its sides are attained by the geometry up to tolerance. Two bounding boxes are reported as overlapping exactly when they overlap or touch within the tolerance, in whatever order they are given, so that two geometries sharing a point are never declared disjoint because of their boxes.",
 ["inputs"],"all geometries and box pairs in the modelled families (overlapping, nested, touching, separated along one axis only, degenerate), in any placement and scale",
 "The test on boxes checks a few fixed pairs, and bounding boxes of geometries are not tested.",
 ["frackit/geometryutilities/getboundingbox.hh","frackit/intersection/bboxintersection.hh","frackit/geometry/boundingbox.hh","frackit/common/math.hh"],
 [("extents","getBoundingBox overloads"),("interval overlap","intervalsOverlap / doIntersect")],
 ["box extents, verdict of doIntersect"])

prop("P22","The Python interface gives the same answers as the C++ library",
 "For every operation offered by the Python package (points, vectors, geometries, containment, intersections, distances, sizes, samplers, sampling status, constraints including lists and matrices, network builders, file output), the result of a history of calls is the one the C++ library defines for it, including refusals (except that the Python constraints matrix admits candidates of a set without constraints, and that the type of an unsupported argument is reported the Python way).",
 ["histories","inputs"],"the operation histories and inputs of the other properties, carried out through the Python package",
 "There are no Python tests at all; parts of the package (samplers, constraint lists and matrix, dispatch by argument type) are re-implementations in Python.",
 ["python/frackit/sampling/__init__.py","python/frackit/entitynetwork/__init__.py","python/frackit/geometry/__init__.py","python/frackit/occutilities/__init__.py","frackit/python/geometry","frackit/python/entitynetwork","frackit/python/sampling","frackit/python/occutilities"],
 [("bindings","frackit/python/**"),("Python re-implementations","python/frackit/*/__init__.py")],
 ["values returned by the Python package"])

prop("P23","Vector operations, rotations and projections are exact linear geometry",
 "Points, vectors and directions obey the laws of Euclidean geometry: displacement and scaling are exact, dot, cross and box products have their exact values, equality is symmetric within the tolerance, directions have unit length, rotation of a vector about an axis by an angle is the right-handed rotation (in place, for single vectors and lists alike), parallelism is recognised for equal and opposite directions, and projections onto lines and planes are the orthogonal foot points. Parametrised geometries (segments, circles, ellipses, ellipse arcs) run from start to end along the curve in the sense of their axes, and angle queries invert the parametrisation.",
 ["inputs"],"all integer vectors, axes, angles and parameters of the modelled range, in any placement and scale",
 "Only a few fixed values per class are tested.",
 ["frackit/common/math.hh","frackit/geometry/point.hh","frackit/geometry/vector.hh","frackit/geometry/direction.hh","frackit/geometry/line.hh","frackit/geometry/plane.hh","frackit/geometry/circle.hh","frackit/geometry/ellipse.hh","frackit/geometry/ellipsearc.hh"],
 [("products and rotation","common/math.hh"),("projections","Line::projection, Plane::projection"),("parametrisation","getPoint / getAngle / getParam")],
 ["returned coordinates and values"])

import os
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
