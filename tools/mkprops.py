import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

X="src/gearxml/"; I="src/gearimpl/"
p("C01","Loading is all-or-nothing under read failures and incomplete files",
 "Whenever a geometry description file is loaded, the caller gets either exactly the geometry that the complete file describes or a reported error. A file that cannot be opened, whose reads or positioning fail or come back short, or whose content is truncated or has regions lost to zero bytes never yields a geometry with detectors, layers, parameters or materials silently missing or altered, and never brings the process down.",
 ["fault_sequences","inputs","crash_points"],
 "every geometry, every position of every read fault (open, read, seek, tell), every truncation length, every zero-filled region, every read-block size",
 "The tests load a handful of intact files from a healthy disk; no test ever makes a read fail, come short, or deliver a damaged file, and none compares what was loaded with what the file says.",
 [X+"tinyxml.cc",X+"tinyxmlparser.cc",X+"GearXML.cc",X+"XMLHandlerMgr.cc",X+"GearParametersXML.cc"],
 [("file reading with error and embedded-zero detection","TiXmlDocument::LoadFile, "+X+"tinyxml.cc"),("parser error chain, missing end tags","TiXmlElement::Parse / ReadValue, "+X+"tinyxmlparser.cc"),("load error to exception","GearXML::createGearMgr, "+X+"GearXML.cc")],
 observe=["return or exception of GearXML::createGearMgr","all public getters of the returned GearMgr"])
p("C02","A save that could not store everything reports the failure",
 "If saving a geometry (or a merged description) returns without reporting an error, the target file holds the complete description of that geometry. Whenever the file cannot be opened or any part of it cannot be written, flushed or closed - disk full, input/output error, short write, interrupted call - the caller is told, the geometry in memory stays as it was, and repeating the save once the fault is gone produces the complete file.",
 ["fault_sequences","histories","inputs"],
 "every geometry, every write/open/close fault kind at every position in the output, every disk capacity, every buffering granularity, repeated attempts after failures",
 "The tests write files only to a disk that never fails and never look at what was written; a dropped write error is invisible to them.",
 [X+"tinyxml.cc",X+"GearXML.cc",X+"MergeXML.cc"],
 [("write status of the document writer","TiXmlDocument::SaveFile, "+X+"tinyxml.cc"),("save status to exception","GearXML::createXMLFile, "+X+"GearXML.cc"),("merge status","MergeXML::mergeFiles, "+X+"MergeXML.cc")],
 observe=["return, exception or status of the save or merge","bytes of the target file"])
p("C03","After a crash during save, a load sees a whole geometry or an error",
 "If the process or the machine stops at any instant while a geometry is being saved, or after the save returned, then after restart loading the target file yields exactly the previously stored geometry, exactly the new one, or a reported error. It never yields a mixture or a part of either.",
 ["crash_points","fault_sequences","histories"],
 "every crash instant within and after every save in a history of saves over the same path, process crash and power loss with any subset of unsynced blocks lost or zeroed",
 "No test interrupts a save; the crash instants and the surviving subsets of written blocks are far too many to hand-write.",
 [X+"tinyxml.cc",X+"tinyxmlparser.cc",X+"GearXML.cc"],
 [("closing root tag is written last","TiXmlElement::Print, TiXmlDocument::Print, "+X+"tinyxml.cc"),("incomplete documents are rejected","TiXmlElement::Parse, "+X+"tinyxmlparser.cc; GearXML::createGearMgr")],
 observe=["outcome of loading the surviving file after restart"])
p("C04","A failed load leaves no trace: retrying behaves like a first load",
 "After a load attempt failed for any reason, asking the same reader again performs a real load: it returns the complete geometry if the file is now readable and reports an error otherwise, and never hands out the remains of an earlier attempt. After a successful load the same reader keeps returning that same geometry, whatever happens to the file later.",
 ["histories","fault_sequences"],
 "every history of load attempts, read faults, memory exhaustion, file replacement and removal on one or more readers",
 "The tests call the reader once per process on a readable file; no test retries after an error.",
 [X+"GearXML.cc","include/gear/gearxml/GearXML.h",X+"XMLHandlerMgr.cc",X+"SimpleMaterialXML.cc",I+"GearMgrImpl.cc"],
 [("reader publishes its geometry only after a complete load","GearXML::createGearMgr, "+X+"GearXML.cc")],
 state=[("cached geometry of a reader","set once by a successful load","GearXML::_gearMgr")],
 observe=["return or exception of every createGearMgr call in a history"])
p("C05","A saved geometry survives restart completely, for every detector kind",
 "A geometry that was saved successfully and is loaded again in a fresh process answers every query as the original did, within the decimal precision of the file: all detector kinds, layers and layouts, segmented readout modules, fields, materials, user parameters and names. Saving and loading again any number of times changes nothing further.",
 ["histories","inputs","configurations","crash_points"],
 "every geometry made of any combination of the supported detector kinds, any number of layers, modules and parameters, any number of save/restart/load generations, with earlier failed saves or loads in between",
 "The tests copy a few example files and do not compare original and copy; several detector kinds and most attributes are never written back and re-read.",
 [X+f for f in ["GearXML.cc","GearParametersXML.cc","TPCParametersXML.cc","TPCModuleXML.cc","FixedPadSizeDiskLayoutXML.cc","FixedPadAngleDiskLayoutXML.cc","RectangularPadRowLayoutXML.cc","VersatileDiskRowLayoutXML.cc","CalorimeterParametersXML.cc","ZPlanarParametersXML.cc","FTDParametersXML.cc","SiPlanesParametersXML.cc","TrackerPlanesParametersXML.cc","ConstantBFieldXML.cc","SimpleMaterialXML.cc","tinyxml.cc"]],
 [("per-kind writer and reader pairs","toXML / fromXML of each handler in src/gearxml"),("section enumeration","GearXML::createXMLFile and createGearMgr, "+X+"GearXML.cc"),("number and text encoding","TiXmlElement::SetAttribute/SetDoubleAttribute, TiXmlBase::PutString, "+X+"tinyxml.cc")],
 observe=["all public getters before save and after load"])
p("C06","Concurrent readers of one geometry get the answers a lone reader gets",
 "Any number of threads may query one geometry that nobody modifies, under any interleaving, including saving it to a file. Every query returns what it returns when asked alone, and references to answers stay valid while the geometry lives.",
 ["schedules","histories"],
 "every set of caller threads, every sequence of read-only calls per thread, every interleaving of their memory accesses",
 "All tests are single-threaded.",
 [I+"GearParametersImpl.cc",I+"GearMgrImpl.cc",I+"CalorimeterParametersImpl.cc",I+"FixedPadSizeDiskLayout.cc",I+"FixedPadAngleDiskLayout.cc",I+"RectangularPadRowLayout.cc",I+"VersatileDiskRowLayout.cc",I+"TPCModuleImpl.cc",I+"TPCParametersImpl.cc",X+"GearXML.cc",X+"tinyxml.cc"],
 [("read-only calls do not publish half-built state","key lists in "+I+"GearParametersImpl.cc and "+I+"GearMgrImpl.cc; pad index tables (getPadsInRow) in the four pad layouts")],
 state=[("mutable members","tables built on first use","mutable members in include/gear/gearimpl/*.h")],
 observe=["return value of every query of every simulated thread"])
p("C07","Independent load and save sessions in different threads do not interact",
 "Threads that each load, save or merge their own files with their own readers and geometries, at the same time and under any interleaving, each obtain exactly the result they would obtain alone, including which errors are reported. This holds from the very first use in the process on.",
 ["schedules","fault_sequences","histories"],
 "every set of sessions, every interleaving of their memory accesses and I/O calls, with or without I/O faults in some of them, starting from an uninitialised process",
 "All tests are single-threaded and use one reader per process.",
 [X+"XMLHandlerMgr.cc",X+"PadRowLayout2DXML.cc",X+"GearXML.cc",X+"GearParametersXML.cc",X+"tinyxml.cc",X+"tinyxmlparser.cc",X+"MergeXML.cc"],
 [("process-wide handler registries are complete before use and not changed by lookups","XMLHandlerMgr::instance/getHandler; PadRowLayout2DXML::getHandler"),("no shared scratch state in readers and writers","src/gearxml")],
 observe=["result and errors of every session"])
p("C08","Memory exhaustion is reported and harms nothing else",
 "If memory runs out at any point of building, extending, querying, loading, saving, copying or merging geometries, the caller sees the failure and the process goes on. Everything that existed before the failed operation still answers as before, nothing half-made becomes visible, and repeating the operation with memory available gives the result it would have given without the failure.",
 ["fault_sequences","histories"],
 "every operation history and every position of one or more failing allocations in it",
 "No test makes an allocation fail.",
 [I+"GearMgrImpl.cc",I+"GearParametersImpl.cc",I+"TPCParametersImpl.cc",I+"TPCModuleImpl.cc",I+"RectangularPadRowLayout.cc",I+"VersatileDiskRowLayout.cc",I+"LayerLayoutImpl.cc",I+"ZPlanarLayerLayout.cc",I+"FTDLayerLayoutImpl.cc","src/gearsurf/MeasurementSurfaceStore.cc",X+"GearXML.cc",X+"tinyxml.cc"],
 [("state is changed only after everything that can fail","the set/add/register/fill functions of src/gearimpl and src/gearsurf")],
 observe=["exceptions and all public getters after each failed and repeated operation"])
p("C09","The geometry registry is a faithful last-write-wins store",
 "At any moment a geometry holds, for each detector slot, field, name, user parameter set and parameter, exactly what was last stored successfully, and reports a distinct unknown-parameter error for whatever was never stored. Materials keep their first registration and duplicates are refused, key lists name exactly the stored entries, and neither failed nor refused operations change anything else.",
 ["histories","fault_sequences"],
 "every history of store, replace, refuse and query operations on all slots, keys and materials, with failing allocations, failed loads and failed saves in between",
 "The tests store each slot once and read it back once, if at all; replacement, refusal, missing entries and failing operations in between are not exercised.",
 [I+"GearMgrImpl.cc",I+"GearParametersImpl.cc","include/gear/GearMgr.h","include/gear/GearParameters.h","include/gear/gearimpl/ConstantBField.h",X+"SimpleMaterialXML.cc"],
 [("slot pointers and key maps","GearMgrImpl setters and getters, "+I+"GearMgrImpl.cc; GearParametersImpl setters and getters")],
 observe=["all public getters after every operation of a history"])
p("C10","A segmented readout assembly reflects exactly the modules accepted",
 "Whatever order modules are configured and added in, and however many additions or configuration steps are refused or fail in between, the assembly contains exactly the accepted modules, finds each by its identity and by position in its own half, and reports the extent that covers them. A module's answers depend only on its final configuration, and copies answer like the original and are independent of it.",
 ["histories","fault_sequences"],
 "every history of configuring, adding, refusing, copying and querying modules and assemblies, in every order, with failing allocations at any point",
 "The tests build at most a few modules in one fixed order and never refuse, fail, copy or reconfigure in between.",
 [I+"TPCParametersImpl.cc",I+"TPCModuleImpl.cc","include/gear/gearimpl/TPCParametersImpl.h","include/gear/gearimpl/TPCModuleImpl.h",I+"RectangularPadRowLayout.cc",I+"FixedPadSizeDiskLayout.cc",I+"FixedPadAngleDiskLayout.cc",I+"VersatileDiskRowLayout.cc"],
 [("module list, identity map, half lists, extent","TPCParametersImpl::addModule, "+I+"TPCParametersImpl.cc"),("recomputation after every configuration step","TPCModuleImpl setters, "+I+"TPCModuleImpl.cc"),("deep copies","copy_and_assign functions in "+I)],
 observe=["all public getters of modules and assembly after every operation"])
p("C11","Merging descriptions loses nothing, keeps precedence, and is repeatable",
 "Merging two descriptions produces one that holds everything present in either, with the values of the dominant one wherever both define something. Inputs that cannot be read or combined, and targets that cannot be written, are reported without touching the inputs, and merging again with the same inputs gives the same result however many attempts were made before.",
 ["histories","fault_sequences","inputs"],
 "every pair of descriptions sharing any subset of sections, detectors, parameters and materials, either dominance, every history of repeated merges, every read and write fault in them",
 "The merge tests check only that the program ends; most fail on the baseline, and none checks precedence, repetition or I/O failures.",
 [X+"MergeXML.cc","include/gear/gearxml/MergeXML.h",X+"tinyxml.cc"],
 [("node-wise merge with dominant document","MergeXML::mergeFiles, mergeNode, mergeAttribute, "+X+"MergeXML.cc")],
 observe=["status or exception of each merge","the geometry loaded from the merged file"])
p("C12","The measurement-surface store is filled exactly once, all or nothing",
 "The store of measurement surfaces is either empty or filled with all surfaces of exactly one provider. A fill that fails - because the provider fails, two surfaces share an identity, or memory runs out - leaves the store empty and a later fill can succeed; once filled, further fills are refused and change nothing, and every surface is found by its identity and no other.",
 ["histories","fault_sequences"],
 "every history of fill attempts by different providers, each possibly failing at any point, interleaved with lookups",
 "The one test that uses the store fills it once with a provider that cannot fail.",
 ["src/gearsurf/MeasurementSurfaceStore.cc","include/gear/gearsurf/MeasurementSurfaceStore.h",I+"GearMgrImpl.cc"],
 [("fill-once flag and identity map","MeasurementSurfaceStore::FillStore, src/gearsurf/MeasurementSurfaceStore.cc")],
 observe=["exceptions of fill attempts and lookups over all identities after each"])
p("C13","Answers do not depend on which questions were asked before",
 "A query on an unmodified geometry returns the same answer, or the same error, whatever other queries preceded it, however many there were, in whatever order, on this or another geometry, and whether or not some of them failed. Queries never change the geometry.",
 ["histories","fault_sequences"],
 "every history of queries on every detector kind, including refused ones and ones that run out of memory, over several geometries alive at once",
 "The tests ask each question a few times in one fixed order.",
 [I+f for f in ["FixedPadSizeDiskLayout.cc","FixedPadAngleDiskLayout.cc","RectangularPadRowLayout.cc","VersatileDiskRowLayout.cc","FixedDiskLayoutBase.cc","TPCModuleImpl.cc","TPCParametersImpl.cc","ZPlanarParametersImpl.cc","ZPlanarLayerLayout.cc","FTDParametersImpl.cc","FTDLayerLayoutImpl.cc","CalorimeterParametersImpl.cc","GearParametersImpl.cc","GearMgrImpl.cc"]],
 [("queries are const; tables built on first use are complete before use","const member functions of "+I)],
 state=[("mutable members","tables built on first use","mutable members in include/gear/gearimpl/*.h")],
 observe=["answer of every query in a history compared with a fresh geometry asked only that"])
# not applicable
p("C20","The nearest pad and neighbours are geometrically right",
 "For every point, the pad reported as nearest is one no other pad is closer than, a point reported inside a pad lies in it, and left and right neighbours are inverse to each other.",
 ["inputs","configurations"],"every layout and every point",
 "Tests sample a few points of a few layouts.",
 [I+"RectangularPadRowLayout.cc",I+"FixedPadSizeDiskLayout.cc",I+"FixedPadAngleDiskLayout.cc",I+"VersatileDiskRowLayout.cc"],
 [("nearest-pad search","getNearestPad in the four layouts")])
p("C21","Ladder and petal containment, distance and intersection are right",
 "For every silicon tracker, a point is reported inside a ladder, sensor or petal exactly if it lies in one, distances lead to the nearest one, and track intersections lie on it.",
 ["inputs","configurations"],"every layer layout, point and direction",
 "Tests sample a few points of example detectors.",
 [I+"ZPlanarParametersImpl.cc",I+"FTDParametersImpl.cc",I+"FTDLayerLayoutImpl.cc"],
 [("plane geometry","isPointInLadder, distanceToNearestLadder, intersectionLadder, "+I+"ZPlanarParametersImpl.cc")])
p("C22","Module coordinate transformations are exact inverses and cover the module",
 "Transforming a point to module coordinates and back returns it, and a module's reported extent contains all its pads.",
 ["inputs","configurations"],"every offset, angle, half, border and point",
 "Tests sample a few modules.",
 [I+"TPCModuleImpl.cc"],[("transformations and extents","globalToLocal, localToGlobal, calculateGlobalExtent*, "+I+"TPCModuleImpl.cc")])
p("C23","Vector algebra and surface frames are consistent",
 "Vector operations, local and global frames of measurement surfaces and their boundaries agree with Euclidean geometry.",
 ["inputs"],"every vector and frame",
 "Tests do not check them.",
 [I+"Vector3D.cc",I+"Util.cc","src/gearsurf/CartesianCoordinateSystem.cc","src/gearsurf/BoundaryRectangle.cc","src/gearsurf/BoundaryTrapezoid.cc"],
 [("vector and frame arithmetic",I+"Vector3D.cc; src/gearsurf")])
p("C24","Material maps and material budgets agree with the detector volume model",
 "Radiation and interaction lengths between two points agree with the underlying volume model and with precomputed maps.",
 ["inputs","histories"],"every pair of points, every map granularity",
 "Needs an external geometry toolkit that the tests here are built without.",
 ["src/geartgeo/MaterialMap.cc","src/geartgeo/TGeoGearDistanceProperties.cc","src/geartgeo/TGeoGearPointProperties.cc","src/gearcga"],
 [("volume navigation","src/geartgeo")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
