"""What each check runs: workload sources, modules of /repo it links, and (runs, seconds) per tier."""

POOL = dict(modules=["common", "utility"], quick=(120000, 35), thorough=(3000000, 500),
            real="maliput::utility::ThreadPool with the real libstdc++ futures, packaged tasks, condition variables and std::async threads (each simulated thread is a real parked thread)",
            stubs="pthread primitives, futex, clock, thread scheduler and heap are the simulator's",
            assume=["Pool operations are called from one controlling thread, as the class documents; futures may be used from any thread.",
                    "Interleavings are sequentially consistent; weaker orders are covered by the happens-before race detector only."])
BOOKS = ["api", "base", "common", "geometry_base", "math"]
BOOK = dict(modules=BOOKS, thorough=(1000000, 400),
            stubs="heap, clock, threads and their scheduler are the simulator's; clients are simulated threads",
            assume=["Edits are serialised by their clients, as a container without locks demands; the order is the schedule's.",
                    "An allocation failure is a std::bad_alloc thrown by operator new."])

CHECKS = {
    "C01": dict(POOL, workload=["w/c01.cc"], rule="Non-trivial: at least one task was accepted by a pool."),
    "C02": dict(POOL, workload=["w/c02.cc"], rule="Non-trivial: a pool was constructed (or failed to be) and ended."),
    "C03": dict(POOL, workload=["w/c03.cc"], rule="Non-trivial: at least one task was accepted by a pool."),
    "C04": dict(BOOK, workload=["w/c04.cc"], quick=(16000, 35), real="ManualRulebook and all rule classes", rule="Non-trivial: at least one rule was added."),
    "C05": dict(BOOK, workload=["w/c05.cc"], quick=(10000, 35), real="ManualPhaseRingBook, PhaseRing, Phase", rule="Non-trivial: at least one ring was added."),
    "C06": dict(BOOK, workload=["w/c06.cc"], quick=(12000, 35), real="TrafficLightBook, TrafficLight, BulbGroup, Bulb, IntersectionBook, Intersection, RuleRegistry and the rule classes they hold", rule="Non-trivial: at least one entry was registered."),
    "C07": dict(BOOK, workload=["w/c07.cc"], quick=(14000, 35), real="ManualRightOfWayRuleStateProvider, ManualDiscreteValueRuleStateProvider, ManualRangeValueRuleStateProvider, ManualPhaseProvider, ManualRulebook, api rules", rule="Non-trivial: at least one state was accepted."),
    "C08": dict(BOOK, workload=["w/c08.cc"], quick=(8000, 35), real="ManualPhaseRingBook, ManualPhaseProvider, PhaseBasedRightOfWayRuleStateProvider, PhasedDiscreteRuleStateProvider, Intersection, Phase, PhaseRing, ManualRulebook", rule="Non-trivial: at least one phase was announced."),
    "C17": dict(BOOK, workload=["w/c17.cc"], quick=(14000, 35), real="geometry_base RoadGeometry, Junction, Segment, Lane, BranchPoint, LaneEndSet and api::BasicIdIndex under a minimal backend", rule="Non-trivial: at least one junction was added."),
    "C09": dict(BOOK, modules=BOOKS + ["routing", "utility"], workload=["w/c09.cc"], quick=(12000, 35), real="RoadGeometry, lane and index queries, GeoPosition regions, FindLane, strategies and kd-tree, DistanceRouter, Graph, Route, derived lane routes",
                rule="Non-trivial: at least two threads asked at once.",
                assume=["The network is built before it is shared and only const operations are used then.", "A question in which an allocation failed is not compared: only its effect on the later answers is."]),
    "C10": dict(BOOK, modules=BOOKS + ["routing", "utility"], workload=["w/c10.cc"], quick=(4500, 35), real="RoadRulebook, RuleRegistry, state providers, PhaseRingBook, PhaseProvider, TrafficLightBook, IntersectionBook, mesh and text generation, materials, validator, logger front end",
                rule="Non-trivial: at least two threads asked at once.",
                assume=["The network is built before it is shared and only const operations are used then.", "A question in which an allocation failed is not compared: only its effect on the later answers is."]),
    "C11": dict(BOOK, modules=BOOKS + ["routing", "utility"], workload=["w/c11.cc"], quick=(9000, 40), real="GenerateObjFile, GenerateUrdfFile, mesh generation, libstdc++ file streams down to open/write/close",
                stubs="the disk (open, write, close and their failures), heap, clock, threads and their scheduler are the simulator's", oracle="against the bytes of an undisturbed export",
                rule="Non-trivial: an export was attempted.",
                assume=["The bytes an undisturbed export writes are the reference.", "Losing data after a successful close is outside what an export can report."]),
    "C12": dict(BOOK, workload=["w/c12.cc"], quick=(22000, 40), real="all seven YAML loaders and their common file reader, yaml-cpp, libstdc++ file streams down to open/read/close",
                stubs="the disk (open, read, close and their failures), heap, clock, threads and their scheduler are the simulator's",
                oracle="books built directly through the API from the plan the document was written from; a damaged document against an undisturbed load of the same bytes",
                rule="Non-trivial: a document was loaded."),
    "C13": dict(BOOK, modules=BOOKS + ["plugin", "utility"], workload=["w/c13.cc"], quick=(40000, 35), real="MaliputPlugin, MaliputPluginManager, MakeRoadNetworkLoader, CreateRoadNetwork, path and environment helpers, libstdc++ directory iterators down to openat/readdir",
                stubs="the dynamic linker (dlopen, dlsym, dlclose, dlerror), the directories and the plugins' own code are the simulator's, as are heap, clock, threads and their scheduler",
                oracle="against a model of the plugins by identifier, libraries that notice being called or left while closed, and the linker's reference counts",
                rule="Non-trivial: every run discovers or adds plugins.",
                assume=["A manager is used by one thread at a time; MakeRoadNetworkLoader and CreateRoadNetwork are used by several.", "No allocation fails inside libstdc++'s noexcept directory iterator."]),
    "C14": dict(BOOK, modules=["common", "utility"], workload=["w/c14.cc"], quick=(60000, 35), real="Path, Filesystem, GetAllFilePathsFromDirectory, libstdc++ file streams and directory iterators down to open/read/openat/readdir",
                stubs="the disk, its directories and another process changing them are the simulator's, as are heap, clock, threads and their scheduler",
                oracle="against the numbered history of the simulated directory tree, in which every change is attributed to the call or to others",
                rule="Non-trivial: every run asks the helpers.",
                assume=["A failed stat leaves junk in its buffer.", "No allocation fails inside libstdc++'s noexcept directory iterator or in Path::set_path, which is noexcept.", "Symbolic links, permissions and devices are not modelled."]),
    "C15": dict(BOOK, modules=["api", "common", "math"], workload=["w/c15.cc"], quick=(80000, 35), real="maliput::log, Logger, Serialize, Sink, set_log_level, libstdc++ string streams",
                oracle="against the record of every message logged: what reached which sink, when and how often",
                rule="Non-trivial: every run logs.",
                assume=["The level and the sink are changed while no other thread logs."]),
    "C16": dict(BOOK, modules=["common", "drake", "math"], workload=["w/c16.cc"], quick=(16000, 40), real="ArcLengthIntegrator, InverseArcLengthIntegrator and the drake framework below them: initial value problems, the Runge-Kutta integrator, contexts, caches and dense output",
                oracle="against closed-form arc lengths and a fresh integrator",
                rule="Non-trivial: every run asks integrators.",
                assume=["An integrator is used by one thread at a time; different integrators and finished dense functions are used by several.",
                        "Integrands are smooth; a question that a fresh integrator refuses may be refused."]),
    "C18": dict(BOOK, modules=BOOKS + ["routing", "utility"], workload=["w/c18.cc"], quick=(22000, 40), real="road geometry, books, rules, phases, rings, lights, state providers, kd-tree, router, route, meshes, text and graph export, validator",
                oracle="against the same operation without failures and the count of live heap blocks",
                rule="Non-trivial: at least one allocation failed.",
                assume=["An allocation failure is a std::bad_alloc thrown by operator new.", "The wording of texts that only explain a finding is not compared."]),
    "C19": dict(BOOK, modules=BOOKS + ["routing", "utility"], workload=["w/c19.cc"], quick=(32000, 45), real="road geometry, network construction, books, rules, phases, rings, lights, state providers, kd-tree, router, meshes, text and graph export, validator",
                stubs="the lane geometry and the forwarding user components are the simulator's, as are the disk, heap, clock, threads and their scheduler",
                oracle="against the same operation without failures, the count of live heap blocks and open descriptors",
                rule="Non-trivial: at least one user component failed.",
                assume=["A user component that fails throws an exception and has no other effect.", "The network is built before it is shared and only const operations are used then."]),
    "C20": dict(BOOK, modules=BOOKS + ["routing", "utility"], workload=["w/c20.cc"], quick=(24000, 45), real="rulebook, state providers, ring book, phase providers, intersections, lights, rule registry, router, route, position searches, kd-tree, graph, mesh building",
                oracle="against the text of every value at the time it was taken or given, and the simulated heap and race detector",
                rule="Non-trivial: something was accepted by a book or a network was built.",
                assume=["Edits and takes are serialised by their clients; what was taken is read without any lock.", "An allocation failure is a std::bad_alloc thrown by operator new."]),
    "C21": dict(BOOK, modules=BOOKS + ["routing", "utility", "drake"], workload=["w/c21.cc"], quick=(12000, 45), real="networks, books, rules, YAML loaders, exports, routes, thread pools, arc length integrators",
                oracle="against the same deeds done alone, and the simulated race detector",
                rule="Non-trivial: at least two users at once.",
                assume=["No object is shared between users, except plans and documents that are only read.", "A deed in which an allocation failed is not compared: only its effect on the others is."]),
}
