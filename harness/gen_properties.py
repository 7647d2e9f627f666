import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n.strip(),"meaning":"state the property talks about"} for n in state.split(",")]
    if observe: a["observe_at"]=[observe]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
MX="hyperpack/mixins.py";HE="hyperpack/heuristics.py";AB="hyperpack/abstract.py";PR="hyperpack/processes.py";ST="hyperpack/structures.py";UT="hyperpack/utils.py"
p("P01","Solutions are geometrically feasible",
"In every solution produced by solve, local_search or hypersearch (bin or strip packing, one or many containers, any rotation setting, any potential points strategy, sequence and worker count) each placed item is an axis-parallel rectangle with non-negative integer position lying entirely inside its container (in strip packing: inside the strip's width and below the container_height in force when solving started), and no two items of the same container overlap.",
["inputs","configurations"],"for all containers, items, sequences, strategies, rotation settings, strip heights and solving methods",
"Overlap depends on the exact arrangement of already placed items around a candidate point; tests compare a handful of stored solutions, and an overlap that needs a particular arrangement of narrow items never occurs in them.",
[MX,HE],[("fit check against the occupied cells",MX+" PointGenerationMixin._check_fitting"),("cells marked as taken when an item is placed",MX+" PointGenerationMixin._construct_solution"),("strip height used as container length",MX+" _get_initial_container_length")],
"container_coords, solution","solution attribute after solve/local_search/hypersearch")
p("P02","Solutions contain the given items, unaltered, each at most once",
"Every solution has exactly one entry per container of the problem, and each item id of the problem appears in at most one container of it; no other ids appear. The recorded width and length of a placed item are its current width and length, or these two interchanged, the latter only when rotation is enabled.",
["inputs","configurations"],"for all problems, sequences, strategies, rotation settings and solving methods",
"Duplicated, lost or distorted items depend on how leftovers are carried from container to container and on which branch (rotated or not) placed each item; tests only look at specific stored solutions.",
[MX],[("items removed from the pool when placed",MX+" _construct_solution"),("remaining items handed to the next container",MX+" _solve"),("copy of the retained solution",MX+" DeepcopyMixin._deepcopy_solution")],
"solution","solution attribute after solve/local_search/hypersearch")
p("P03","Reported utilization is the true utilization of the reported solution",
"After every solving operation each container has exactly one reported value in obj_val_per_container: the area of the items placed there divided by the container's area (bin packing) or by strip width times the height reached by the solution (strip packing), 0 when empty, hence always between 0 and 1. The total objective (calculate_obj_value) is that value for a single container, and for several containers the sum of all but the last plus 0.7 times the last. Values always belong to the solution reported with them, also after containers were added, removed or replaced.",
["inputs","histories"],"for all problems, solving methods and preceding changes of the problem",
"The values are accumulated placement by placement and copied between search steps; a value that belongs to another candidate or another height is only visible when recomputed from the solution for arbitrary problems.",
[MX,ST],[("utilization accumulated per placement / strip utilization",MX+" _construct_solution"),("total objective",MX+" LocalSearchMixin.calculate_obj_value"),("container count used for the weighting",ST+" Containers.reset_instance_attrs")],
"obj_val_per_container, _containers_num","obj_val_per_container and calculate_obj_value()")
p("P04","Construction is first-fit along the strategy's point order",
"solve fills the containers in order, each from its origin with the items left over from the previous one, and at each candidate point places the first item of the remaining sequence that fits there, unrotated if it fits so, otherwise rotated if rotation is enabled; a point where none fits is dropped. The next point is always the oldest pending one of the first class in potential_points_strategy that has any (classes absent from the strategy are never used), and a container is closed only when no points or no items are left or it is full. The placements returned are exactly those of this procedure; ids repeated in the sequence count once and an empty sequence places nothing.",
["inputs","configurations"],"for all containers, item sequences, rotation settings and strategies (including partial ones)",
"The outcome is a long chain of choices; tests fix a few problems and cannot tell for arbitrary inputs that every choice follows the rule.",
[MX],[("first fitting item in sequence, unrotated first",MX+" _construct_solution"),("point class priority and FIFO",MX+" _get_current_point"),("container order and leftovers",MX+" _solve")],
"potential_points, items_ids, container_coords","solution after solve(sequence)")
p("P05","Candidate points are generated by the defined geometric rules",
"Placing an item generates candidate points solely from its position and the items already in the container: A (upper left) and B (lower right) corners when supported, A' or E (projection to the left on the nearest obstacle or wall, A' when at most 20% of the container width away), B' or F (projection downwards, B' when at most 20% of the container length away), A'' and B'' for unsupported corners, and C and D points beyond the corners of items touching its top and right side. No point is generated on an occupied cell or outside the container, and points of one class keep their order of generation.",
["inputs","configurations"],"for all partial arrangements of items in a container reachable by construction, and all dimensions of container and item",
"The rules are a large case analysis over neighbouring cells (corner, edge, interior, empty); tests exercise a few arrangements of each, while a wrong case shows only in particular arrangements and with strategies that use the class concerned.",
[MX],[("case analysis of the neighbouring cells",MX+" PointGenerationMixin._generate_points"),("cell kinds (3 corner, 2 edge, 1 interior)",MX+" _construct_solution")],
"potential_points, container_coords","solution after solve with strategies that isolate or prioritise each class")
p("P06","Solving is deterministic and independent of history",
"The outcome of solve depends only on the containers, the item dimensions in sequence order, the strategy, the rotation setting and (strip packing) the container height. Repeating it, solving on another instance or in another process or with another hash seed, after any other operations on the same instance, while other instances work, while debugging, or under other item and container names gives the same placements, values and order. local_search and single process hypersearch that are not cut short by time are deterministic in the same sense.",
["histories","inputs","configurations"],"for all problems and all preceding histories of operations on the instance",
"State leaking from an earlier operation (leftover points, heights, counters, set iteration order) shows only for particular histories or hash seeds.",
[MX,HE],[("fresh points per container",MX+" _get_initial_potential_points"),("items deep-copied for each solve",MX+" _solve"),("strategies from a set of point names",HE+" get_strategies")],
"_potential_points_strategy, INIT_POTENTIAL_POINTS, _container_height","solution and obj_val_per_container of repeated runs")
p("P07","Problem data stays valid and a changed problem never keeps a solution",
"Whatever sequence of operations is applied through items and containers (assignment of an item, dimension or whole set, deletion, update, |=, setdefault, pop, popitem, clear), each with the effect it has on plain dictionaries, the sets never become empty, ids are strings and every entry has exactly its two dimension keys with positive integer values. An invalid operation raises the package's ItemsError, ContainersError or DimensionsError (or a plain dictionary's KeyError for missing ids) and leaves the offending entry as it was. Every successful change of an item or container clears solution and obj_val_per_container, so a solution is only ever present for the current data and the next solve uses the current data.",
["histories"],"for all sequences of valid and invalid operations on items and containers interleaved with solving",
"Each mutation path of a nested dictionary has to validate and reset; tests try individual operations, while a path that skips either shows only in a history solve - mutate through that path - read.",
[ST,HE],[("validation and reset per dimension",ST+" Dimensions.__setitem__"),("validation and reset per entry",ST+" AbstractStructureSet.__setitem__/__delitem__"),("whole re-assignment",HE+" BasePackingProblem.items/containers setters")],
"items, containers, solution, obj_val_per_container","items, containers, solution after each operation")
p("P08","Strip packing problem state follows its rules under every history",
"In strip packing the single container can never be changed, added, replaced or removed by the user. container_height and container_min_height are only ever set to integers of at least 1 with the minimum never above the height, other values raising the package's errors and changing nothing; initially the height is 10 times the width with no minimum, and reset_container_height restores exactly that. Solving never changes the container or the minimum height.",
["histories"],"for all sequences of height assignments, container operations, solves, searches and resets",
"The invariant relates two attributes and a guarded container over arbitrary orders of assignments, searches (which lower the height) and resets.",
[HE,ST],[("height setters",HE+" container_height/container_min_height"),("reset",HE+" reset_container_height"),("guards on the container",ST+" STRIP_PACK_ONLY checks"),("height update in search",ST+" Containers._set_height")],
"_container_height, _container_min_height, _containers","container_height, container_min_height, containers after each operation")
p("P09","Solving never alters the problem or the caller's data",
"solve and local_search leave items and containers (ids, order, dimensions), settings and the caller's own dictionaries and sequences unchanged; hypersearch changes items only by the requested sorting and orientation. None of them changes the potential points strategy of the instance. Instances do not alias the caller's items and containers dictionaries: later changes to these do not affect the instance. A solution read earlier from the instance is not modified by later operations.",
["inputs","histories"],"for all problems and sequences of solving operations",
"Solving removes items from working copies and updates them in place; aliasing of any of them with problem data corrupts later operations without failing the one tested.",
[MX,ST],[("deepcopy of items per solve",MX+" _solve"),("validated copies of the caller's data",ST+" Dimensions.__init__, AbstractStructureSet.__init__"),("retained solution copies",MX+" DeepcopyMixin")],
"items, containers, solution","problem data before and after each operation")
p("P10","Local search returns the best candidate it evaluated",
"local_search ends with the solution and obj_val_per_container of the best candidate accepted: its objective is never below that of the plain solve of the current item order (with the same strategy and height), no evaluated (and, in strip packing without minimum height, complete) candidate is better, and solution and values belong to the same candidate.",
["inputs","configurations"],"for all problems, strategies and throttle settings",
"The returned solution is a snapshot taken amid continued mutation of the instance by later candidates; whether it is the best one shows only when compared with all candidates of arbitrary runs.",
[MX,AB],[("retained solution",AB+" AbstractLocalSearch.local_search"),("acceptance rule",MX+" LocalSearchMixin.compare_node"),("snapshot",MX+" LocalSearchMixin.get_solution")],
"retained_solution, best_obj_value","evaluate_node calls and final solution",)
p("P11","Local search explores the 2-exchange neighbourhood as specified",
"The search engine (AbstractLocalSearch, maximising or minimising, and HyperPack.local_search) starts from the current item order, evaluates the exchanges of two positions in lexicographic order, moves to the first strictly better one and starts over from it. It ends only when a whole neighbourhood brought no improvement, the throttle (2500 neighbours of one node, if enabled) is exhausted without improvement, the time limit has passed or the optimum was reached. So, when not cut short, no exchange of two items of the final sequence is better.",
["inputs","schedules","configurations"],"for all objective functions, sequence lengths, throttle settings and both optimisation senses",
"The path taken depends on the whole objective landscape; tests use a few mocked landscapes.",
[AB,MX],[("neighbourhood loop",AB+" AbstractLocalSearch.local_search"),("throttle",AB+" get_max_neighbors_num"),("sense of optimisation",AB+" compare_node/global_check")],
"node_sequence, processed_neighbors","evaluate_node(sequence) calls")
p("P12","Hypersearch returns the best of all strategies it tries",
"Single process hypersearch sorts and orients the items as requested, then runs a local search with the given throttle for each strategy of get_strategies, in order, until none is left, the time limit has passed or the maximum utilization was reached. Its result is never worse than the plain solution it starts from nor than any of those local searches (among complete ones in strip packing without minimum height). Solution and values belong together, and best_strategy is the strategy that produced them (the instance's own if the start was never improved).",
["inputs","configurations"],"for all problems, strategy pools, sorting and orientation arguments",
"Whether the best is kept depends on the order in which objective values appear over many strategies.",
[HE],[("best-so-far loop",HE+" HyperPack._single_process_hypersearch"),("acceptance",HE+" HyperPack._check_solution")],
"retain_solution, best_obj_value, best_strategy","local_search calls and final attributes")
p("P13","Multi process hypersearch returns the best result of its workers",
"With workers_num above 1 each strategy is assigned to exactly one of at most workers_num workers, and every worker runs local searches with the given throttle through its own part in order until it is exhausted, the time limit has passed or some worker published the maximum utilization. Under every interleaving of the workers the instance ends with the best solution delivered by any worker, with the values that belong to it and its strategy as best_strategy (None if the plain solution was never improved); without time limit or failures in bin packing its objective equals that of the single process search. Items, containers and settings of the instance are as after sorting and orienting. All of this holds however the platform starts processes (fork, spawn or forkserver).",
["schedules","inputs","configurations"],"for all interleavings of the workers, numbers of workers and strategies, and problems",
"Workers run concurrently and communicate through a shared array and pipes; tests see one arbitrary schedule and cannot enumerate the others.",
[HE,PR],[("division of strategies, choice of winner",HE+" HyperPack._multi_process_hypersearch"),("worker loop",PR+" HyperSearchProcess.run")],
"shared_array, receiver/sender","worker local_search calls, final attributes")
p("P14","Multi process hypersearch tolerates failing workers and always returns",
"If some workers raise an exception in a local search, or are killed at any point (also while holding a lock or half way through delivering their result), hypersearch still returns, with the best solution delivered by a surviving worker. If all of them fail it raises MultiProcessError and leaves no partial result as a solution. It never blocks forever, also when workers deliver large solutions or die without delivering any, and leaves no worker running.",
["fault_sequences","crash_points","schedules"],"for all subsets of failing workers, points of failure, and interleavings",
"Failure points and schedules are unbounded; tests force one error index at the very start of a worker.",
[HE,PR],[("failure marking",PR+" HyperSearchProcess.run exception case"),("collection of outputs and failure handling",HE+" HyperPack._multi_process_hypersearch/_get_process_metrics")],
"shared_array, receiver/sender","return or exception of hypersearch, final attributes")
p("P15","Strip packing searches keep solutions complete and lower the height soundly",
"In strip packing without container_min_height a local_search or hypersearch never replaces a solution by one that misses items: its result holds all items or is the plain solution of the search's start; with container_min_height set items may be missing and the height never drops below the minimum. Each accepted candidate sets container_height to the height reached by it (not below the minimum) and later candidates are constructed inside that height, so during a search it never increases. Multi process hypersearch solves with the instance's container_height and container_min_height and leaves both as they were.",
["inputs","histories","configurations"],"for all strip packing problems, heights, minimum heights and search methods",
"The height moves with the search path; whether an incomplete candidate beats a complete one, or a stale height is used, depends on the whole run.",
[MX,ST,HE,PR],[("completeness condition",MX+" LocalSearchMixin.compare_node"),("height update",MX+" extra_node_operations, "+ST+" Containers._set_height"),("height handed to the workers",PR+" HyperSearchProcess.__init__")],
"_container_height, _container_min_height, solution","container_height and solution during and after searches")
p("P16","Searches stop at the time limit and at the maximum utilization",
"A local search evaluates no further candidate once it finds, after a candidate, that max_time_in_seconds has elapsed since its start (for hypersearch: since the start of the hypersearch), and a hypersearch (and each worker) starts no further strategy once more than that time has elapsed. A search that has reached the maximum utilization (every container full) evaluates no further candidates and strategies. Otherwise a search is never cut short.",
["schedules","inputs"],"for all timings of the candidates and all problems",
"The stopping points depend on the clock at each candidate; tests only run with real time and generous limits.",
[AB,HE,PR,MX],[("out_of_time and global_optima",AB+" AbstractLocalSearch.local_search"),("time check per strategy",HE+" _single_process_hypersearch, "+PR+" run"),("maximum",MX+" LocalSearchMixin.get_optimum_objective_val")],
"start_time, _max_time_in_seconds","candidates evaluated relative to a controlled clock")
p("P17","Sorting and orienting only reorder and turn items",
"sort_items keeps the same items with the same dimensions and orders them by the criterion (area, perimeter, longest side ratio), ties by id, both descending if reverse and ascending otherwise; unknown criteria raise NotImplementedError and change nothing, None skips. orient_items keeps ids and order and turns exactly those items that violate width >= length (wide) or width <= length (long), and does nothing when orientation is None or unknown or rotation is disabled. Any actual change of items clears the solution.",
["inputs","histories"],"for all item sets, criteria and orientations",
"Ordering claims quantify over all item sets incl. ties and squares; tests check a few fixed sets.",
[MX],[("sorting",MX+" ItemsManipulationMixin.sort_items"),("orientation",MX+" ItemsManipulationMixin.orient_items")],
"items","items after each call")
p("P18","The solution log tells the truth about the current solution",
"log_solution reports, for the current solution, the percentage of items stored, each container with its dimensions in order (in strip packing the height of the solution, not below container_min_height), its utilization percentage, in strip packing the maximum height reached, and exactly the ids of the items not placed, in item order. It neither fails nor changes anything for any solution. Without a solution it logs a warning and returns None.",
["inputs","histories"],"for all problems and solutions, including empty and partial ones",
"The report has to agree with arbitrary solutions; tests compare the text for a few.",
[MX,ST],[("report",MX+" SolutionLoggingMixin.log_solution"),("height reported",ST+" Containers._get_height")],
"solution","string returned by log_solution")
p("P19","Figures depict exactly the current solution",
"create_figure shows, if asked to, one figure and exports exactly one file per container, named <file_name>__<container id>.<format> in the configured folder, whose figure shows one rectangle per placed item with exactly the position, size and id of the solution, plus the outline of the container (strip packing: up to the solution's height, not below the minimum height), for any number of items; it is titled with the container's id, its axes cover the whole container and hovering tells the corners of each item. Without a solution, or without anything to show or export, nothing is written. The solution and problem are unchanged.",
["inputs","configurations"],"for all solutions and figure settings",
"Shape-by-shape agreement with arbitrary solutions and file naming for arbitrary settings are not sampled by tests, which mock plotly.",
[MX],[("figure construction and export",MX+" SolutionFigureMixin.create_figure"),("colors",MX+" colorgen")],
"solution, settings","exported html, recorded plotly calls")
p("P20","Settings are accepted exactly when valid and take full effect",
"Settings given at construction or assignment (or applied by validate_settings after in-place changes) are accepted exactly when they satisfy the documented rules for rotation, max_time_in_seconds, workers_num and the figure options, otherwise SettingsError is raised; after acceptance each effective option is the given value or its default when absent, independently of earlier settings. Figure options require plotly at least 5.14.0 and below 6.0.0, image export also kaleido at least 0.2.1 and below 0.3.0, compared as version numbers. A potential_points_strategy is accepted exactly when it is a tuple of distinct point class names.",
["inputs","configurations","histories"],"for all settings dictionaries, sequences of settings and installed versions",
"The rules form a large product of options; tests check single invalid values one at a time.",
[HE,MX],[("rotation, time, workers",HE+" _validate_settings"),("figure options and versions",MX+" _validate_figure_settings, _check_plotly_kaleido_versions"),("strategy setter",HE+" potential_points_strategy")],
"_rotation, _max_time_in_seconds, _workers_num, settings","construction/assignment result and behaviour")
p("P21","The strategy pool is complete and free of repetition",
"get_strategies returns, for any instance, every order of the point classes not in the fixed suffix exactly once, each followed by that suffix, so that each strategy is a permutation of all ten point classes acceptable as potential_points_strategy; with _exhaustive=False it returns the constant pool. A hypersearch which nothing stops tries exactly the strategies get_strategies returns for its _exhaustive argument. The division among any number of workers covers the pool without repetition.",
["configurations"],"for all instances, hash seeds and worker counts",
"Counts over 720 strategies and every worker count are not covered by examples.",
[HE],[("permutations and suffix",HE+" get_strategies"),("chunks",HE+" _multi_process_hypersearch")],
None,"value of get_strategies; strategies run by workers")
p("P22","Generated problem data is always valid and within its guidelines",
"generate_problem_data returns, for all positive parameters, exactly containers_num containers with widths and lengths within 10% (rounded) of the requested averages and items_num items per container with widths and lengths within 60% (rounded, at least 1) of the respective averages and at least 1, in a form that the problem classes accept.",
["inputs","configurations"],"for all positive parameters and random choices",
"Random data near the bounds (zero or negative dimensions, width used for length) appears rarely and only for small or unequal averages.",
[UT],[("bounds and random choice",UT+" generate_problem_data")],None,"returned dictionaries")
p("P23","Instances are created exactly from valid definitions",
"Creating HyperPack or PointGenPack (containers or strip_pack_width, items, settings) succeeds exactly when every part is valid: containers and items non-empty dictionaries with string ids and exactly two positive integer dimensions each, strip_pack_width a positive integer given without containers, settings valid. Otherwise it raises the error class of an invalid part (ContainersError, ItemsError, DimensionsError, SettingsError). The new instance holds exactly the given data in the given order, without solution, with the default strategy and (strip packing) a height of 10 times the width and no minimum; it can be solved at once, and the caller's items, containers and settings are unchanged (except that a missing figure file_name is filled in with its default).",
["inputs","configurations"],"for all definitions, valid or malformed in any combination of parts",
"The combinations of malformed parts and argument forms are unbounded; tests check single malformed parts for stored values.",
[HE,ST],[("construction of the problem",HE+" BasePackingProblem.__init__"),("strip packing set up",HE+" _check_strip_pack"),("validation of sets and dimensions",ST+" AbstractStructureSet.__init__, Dimensions.__init__")],
None,"constructor outcome; items, containers, container_height, container_min_height, solution, settings")
p("P24","Reading the problem shows exactly its current data and changes nothing",
"Every way of reading items and containers (iteration, comparison, len, in, indexing, get, keys, values, items, dict(), **, copy and deepcopy, also of a selection of ids in a given order, and str where applicable) tells exactly the current ids, in order, with their current dimensions; an absent id is absent in all of them. get_solution returns an equal copy of the current solution and values, and copy.deepcopy or pickling of the whole instance an independent instance with the same data and solution. None of these reads, nor changing what the copies hold, changes the instance.",
["inputs","histories"],"for all problems and all histories of changes before the read",
"Views of the same data can disagree only after particular histories of insertions, replacements, reorderings and deletions.",
[ST,MX],[("mapping access",ST+" AbstractStructureSet, Dimensions"),("copies",ST+" AbstractStructureSet.deepcopy; "+MX+" DeepcopyMixin")],
"items, containers, solution","len, iteration, indexing, get, keys, values, items, deepcopy, str, get_solution")
p("P25","An interrupted solve or search leaves the instance consistent",
"When an exception (KeyboardInterrupt, MemoryError) ends solve, local_search or single process hypersearch while solutions are being constructed or evaluated, it reaches the caller; items (for hypersearch: sorted and oriented as requested), containers, settings, strategy and minimum height are unchanged, the container height has not grown, a solution that is present is feasible, faithful to the items and accompanied by its own values, and the instance goes on working: later operations give the same results as on a fresh instance with the same data. An interrupted solve also leaves the previous solution and height as they were. solve with an id that is not among the items raises KeyError and changes nothing.",
["histories","crash_points"],"for all problems and all points of interruption within construction and evaluation, anywhere in a history",
"Searches alter strategy, height and solution of the instance while they run; which of them are left behind depends on the moment of the interruption.",
[MX,AB,HE],[("work on copies",MX+" _solve, _construct_solution"),("search loop",AB+" AbstractLocalSearch.local_search"),("strategy of the instance",HE+" HyperPack.hypersearch")],
"items, containers, settings, strategy, container_height, solution","exceptions and state after interrupted operations")
p("P26","Point strategies are accepted exactly when valid and stay until replaced",
"Assigning potential_points_strategy succeeds exactly for a tuple of distinct names of point classes (any number, any order); anything else, and deletion, raises PotentialPointsError and changes nothing. A new instance has the default strategy. Only an accepted assignment changes the strategy, it changes nothing else, and every later solve constructs the solution a fresh instance with that strategy constructs.",
["inputs","histories"],"for all values assigned and all histories of other operations",
"Partial, permuted and malformed strategies are unbounded, and searches that try other strategies must leave the assigned one in place.",
[HE,MX],[("validation",HE+" potential_points_strategy"),("searches over strategies",HE+" _single_process_hypersearch"),("use",MX+" _get_current_point")],
"potential_points_strategy","potential_points_strategy after every operation; solutions")
p("P27","Local searches of users are driven as the engine promises",
"For every subclass of AbstractLocalSearch with its four methods (and any of init_operations, extra_node_operations, compare_node, global_check, get_max_neighbors_num, get_optimum_objective_val, debug_local_search, OPTIMIZATION, MAX_NEIGHBORS_THROTTLE redefined): get_init_solution is called once, then init_operations if defined, then the candidates are evaluated one after the other; the subclass's own comparison decides what is accepted and its own check what is final; after each accepted candidate, and only then, the solution is fetched with get_solution once and extra_node_operations is called once, before the next candidate; in debug mode each node is reported once with its true number, best value, number of candidates and reasons of ending. The last solution fetched is returned, the caller's sequence is not changed, an exception of a method reaches the caller with no further call, and searches within searches or one after the other on one instance do not disturb each other.",
["inputs","configurations","histories"],"for all subclasses, landscapes, limits and moments of an exception",
"The order of calls around an accepted, final, last or late candidate differs only in particular landscapes and for subclasses with their own rules; the repository's tests use HyperPack's rules.",
[AB],[("search loop",AB+" AbstractLocalSearch.local_search"),("default rules",AB+" compare_node, global_check, get_max_neighbors_num, get_optimum_objective_val")],
None,"calls of the methods of a subclass and the value returned")
p("P28","Failures and skipped work are told by the library's logger",
"Every exception of the library that reaches the caller, from whatever operation and however often, has its text logged at level ERROR by the logger \"hyperpack\", and an operation that succeeds logs no error. What was asked for but is not done is logged as a warning, and only then: orienting (also inside a hypersearch) with rotation disabled or an unknown orientation, the log or figure of a solution that does not exist, a figure neither shown nor exported; so are more workers than processors. The text log_solution returns is logged at INFO. A figure that cannot be written raises FigureExportError and leaves the solution as it was. In a multi process hypersearch each worker that raises logs an error with the text of its exception, and the parent logs an error exactly if some worker failed, however it failed.",
["inputs","configurations","histories","fault_sequences"],"for all operations, malformed arguments, settings, histories and failing workers",
"Every operation has many ways to fail and the log is a second result of each; the repository's tests compare single messages.",
["hyperpack/exceptions.py",HE,PR],[("errors","hyperpack/exceptions.py ErrorLoggingException"),("warnings",MX+" log_solution, create_figure, orient_items"),("workers",PR+" HyperSearchProcess.run; "+HE+" _multi_process_hypersearch, _validate_settings")],
"exceptions raised and messages of the logger \"hyperpack\"","messages of the logger, exceptions and kept solutions")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    try: jsonschema.validate(x,s)
    except Exception as e: print(x['id'],str(e)[:300])
print(len(P))
