PBT = "property-based testing: generated maps and options, independent decoder and oracle, shrinking"
BLACKBOX = "Black box over generated inputs; trusts the harness's own WAD/map/node decoders, which share no code with the tool. "
prop("C01", "WAD container fidelity",
 "For every input wad with at least one level that can be rebuilt, the output is a well-formed wad of the same kind (IWAD or PWAD) that holds every lump outside rebuilt levels with its name, content and relative order unchanged. Every directory entry lies inside the file and no two lumps, nor a lump and the header or directory, overlap, except zero-filled REJECT lumps, which may share zero bytes.",
 ["inputs", "configurations"], "all wads (any mixture of lumps and levels, any physical layout of the input) and all options",
 "tests build no wads at all; directory index bookkeeping goes wrong only for particular mixtures of levels, missing, duplicate and foreign lumps",
 ["wad.go", "vigilantbsp.go", "writebus.go", "lumpwrite.go", "trollgen.go"],
 [("directory rewrite", "wad.go: UpdateDirectoryAndSchedule"), ("lump writing", "writebus.go, lumpwrite.go"), ("sharing of zeros", "trollgen.go, vigilantbsp.go: main")],
 ["output file"], BLACKBOX + "Oracle: an independent model of the output directory, compared entry by entry.", PBT)
prop("C02", "Level lumps are completed, deduplicated and ordered",
 "In every rebuilt level the lumps come out in the canonical order, each at most once, with missing SEGS, SSECTORS, NODES, REJECT and BLOCKMAP created and THINGS, SIDEDEFS, SECTORS, BEHAVIOR and SCRIPTS byte-identical. A level that lacks a mandatory lump is copied unchanged, whatever else the wad holds. When no level can be rebuilt, the tool says so, exits unsuccessfully and leaves the input alone.",
 ["inputs", "configurations"], "all levels with any subset, order and multiplicity of level lumps, in any combination in one wad",
 "tests build no wads; each level shifts the directory of those behind it, so what matters are combinations of several levels in different states",
 ["wad.go", "level.go"],
 [("level recognition", "wad.go: LoadWadDirectory"), ("normalisation", "wad.go: UpdateDirectoryAndSchedule"), ("per-level processing", "level.go: DoLevel")],
 ["output file"], BLACKBOX + "Oracle: model of the output directory.", PBT)
prop("C03", "The input is never lost",
 "With an output file given, the input file is never modified, and an output that is the input under whatever name is refused. Without one, success replaces the input with exactly the result -o would have produced and leaves no temporary file. After any failure the exit status is not 0, and after a failure or an abrupt end at any moment the input is complete, old or new, or a temporary file beside it holds the complete result.",
 ["inputs", "configurations", "faults", "crash points"], "all wads (valid or not) and options, every failing system call, every moment at which the process may be killed",
 "tests do not run the program; failures of single system calls and kills at chosen points need fault injection",
 ["filecontrol.go", "vigilantbsp.go", "writebus.go", "lumpwrite.go", "wad.go"],
 [("temporary file", "filecontrol.go: OpenOutputFile, Success, tempFileReplacesInput, Shutdown"), ("write errors", "writebus.go, lumpwrite.go, vigilantbsp.go: main"), ("same-file refusal", "vigilantbsp.go: main")],
 ["files before and after", "exit status"], "Runs the real tool in a scratch directory; faults are injected into its system calls with strace (errors and SIGKILL), with file size limits, permissions and kills at random times. Only loss by the tool is covered, not loss of data not yet flushed by the operating system. ", PBT + ", fault and crash-point injection")
prop("C04", "Only the requested levels and lumps are rebuilt",
 "Levels excluded by the level filter, and the node, blockmap or reject lumps whose rebuilding is switched off, are carried over byte for byte, whichever combination of switches is given. With lumps-of-rebuilt-levels-only output (--eject), the output holds the rebuilt levels complete and nothing else from outside them.",
 ["inputs", "configurations"], "all wads, all combinations of -b-/-n-/-r-/-rz, level filters (also negated, any case) and --eject",
 "the number of combinations of switches, filters and wad contents is large, tests cover none of them",
 ["wad.go", "level.go", "cmdparser.go", "vigilantbsp.go"],
 [("level filter", "wad.go: CanRebuildThisLevel"), ("eject", "wad.go: LoadWadDirectory"), ("what is copied", "level.go: DoLevel")],
 ["output file"], BLACKBOX + "Oracle: model of the output directory.", PBT)
prop("C05", "BLOCKMAP lists exactly the lines in each block",
 "For every map, the grid of the BLOCKMAP covers every line that belongs in it, and every block's list names exactly the lines that pass through the block (within one unit of its border either way), each once, and none excluded from the blockmap. With aggressive compression lists may name further lines but never miss one. The lump is left empty only if its offsets do not fit the format.",
 ["inputs", "configurations"], "all line geometries (any length, direction, crossing, coordinates up to the 16-bit limits) and all blockmap options",
 "tests never build a blockmap from a map; rasterisation errors need particular slopes relative to the grid, overflows need huge grids",
 ["bblocks.go", "blockmapgen.go", "blockity.go"],
 [("rasterisation", "bblocks.go: CreateBlockmap"), ("list merging and compression", "bblocks.go: GetBytes, GetBytesArcane"), ("overflow handling", "bblocks.go: LimitCheck")],
 ["BLOCKMAP lump of the output"], BLACKBOX + "Oracle: exact integer segment-rectangle intersection for every line and block.", PBT)
prop("C08", "BSP tree structure and seg coverage",
 "For every map and every node option, the node lumps decode to one binary tree rooted at the last node in which every node, subsector and seg is reached exactly once and every reference is in range. Every side of every line that is to be rendered is covered end to end by its segs without gap or overlap, lying on the line, and nothing else has segs.",
 ["inputs", "configurations"], "all maps (Doom and Hexen format, one- and two-sided lines, self-referencing sectors, zero-length lines, special tags) and all node options and formats",
 "unit tests check geometric helper functions only; losing or duplicating a seg needs a particular arrangement of lines around a partition",
 ["nodegen.go", "znodegen.go", "picknode.go", "node_intro.go", "node_outro.go", "node_rearrange.go", "node_vmap.go", "multitree_plain.go"],
 [("seg creation", "node_intro.go"), ("partitioning and splitting", "nodegen.go, znodegen.go, picknode.go"), ("serialisation", "node_outro.go, zstream.go")],
 ["SEGS, SSECTORS, NODES, VERTEXES of the output"], BLACKBOX + "Oracle: structural invariants plus chain coverage of every line side.", PBT)
prop("C09", "Partition geometry and point location",
 "In every tree, all that lies below a child of a node is on that child's side of the partition line and inside its bounding box, which is tight to one unit. No subsector mixes sectors, and none of its segs lies behind another of them. Descending the tree from any point leads to a subsector of the sector the point is in. All to the precision of the format (1/65536 for extended ones, whole units otherwise, where each split may move a seg by a rounding error).",
 ["inputs", "configurations"], "all properly closed maps (no overlapping or self-referencing sectors) and all node options and formats, all points that are not within a few units of a wall or partition line",
 "unit tests check geometric helper functions only; misplaced segs need a particular arrangement of nearly collinear lines",
 ["nodegen.go", "znodegen.go", "picknode.go", "convexity.go", "diffgeometry.go", "multitree_plain.go", "node_outro.go"],
 [("side classification", "nodegen.go: doLinesIntersectStandard, doLinesIntersectDetail; znodegen.go"), ("splitting", "nodegen.go: DivideSegsActual"), ("convexity", "convexity.go"), ("bounding boxes", "nodegen.go: FindLimits")],
 ["SEGS, SSECTORS, NODES, VERTEXES of the output"], BLACKBOX + "Oracle: geometric invariants, and point-in-sector by ray casting on the input map compared with descending the tree.", PBT)
prop("C06", "BLOCKMAP layout and compression",
 "The BLOCKMAP header gives the origin asked for (map minimum minus offset) and the smallest grid. Every list has the dummy entry z asks for: none, linedef 0, or one chosen as documented, never a long line when there are others. Identical lists share storage, nothing is wasted, and a longest list comes last. Subset compression never makes the lump larger, the aggressive one leaves no list contained in another, and conditional compression is used only where needed.",
 ["inputs", "configurations"], "all line geometries, all combinations of o=, z=, s, a, s?, a?, e=",
 "tests never build a blockmap; the interplay of merging, word stealing and compression depends on which lists coincide",
 ["bblocks.go", "blockmapgen.go", "cmdparser.go"],
 [("merging, word stealing, order", "bblocks.go: GetBytes"), ("subset compression", "bblocks.go: GetBytesArcane, CompressSubsets, EliminateSubsets, IdentifyOrderAndSize"), ("conditional compression", "blockmapgen.go: DetermineSubsetMode")],
 ["BLOCKMAP lump of the output"], BLACKBOX + "Oracle: accounting of every word of the lump, documented rules, and comparison of runs with different compression. Sizes may differ by the one word that word stealing saves.", PBT)
prop("C07", "Blockmap offset search finds the best candidate",
 "When several offsets are tried, the result is exactly the blockmap one of them gives by itself, and no other of them would have been better: fitting the vanilla limit first, then the 16-bit limit, then the smallest. With an end goal, the result meets the goal whenever any offset does, and with -d it is the earliest such, or among equals the earliest, offset. All that with any number of threads. An empty lump means that no offset fits.",
 ["inputs", "configurations", "schedules"], "all maps, o=2, o=3 and o=4, e=0 to e=2, any number of threads",
 "the result depends on 36 or 16384 blockmaps computed by concurrent threads; tests run none",
 ["blockmapgen.go", "bblocks.go"],
 [("search", "blockmapgen.go: BlockmapQueen, BlockmapBee, BlockmapHive, BlockmapHoleChaser"), ("comparison", "blockmapgen.go: IsBlockmapBetter"), ("buffers that are recycled between offsets", "bblocks.go: BlockmapGCShield")],
 ["BLOCKMAP lump of the output"], BLACKBOX + "Oracle: 36 runs with a fixed offset each, or (for lines along the axes) a model of the size of the blockmap at every offset. Maps tuned to straddle the limits are generated.", "property-based testing: differential against single-offset runs and a size model, exhaustive over offsets per map, shrinking")
prop("C10", "Seg angles, offsets and special effects",
 "Every seg stored in a format with angles has the direction of its line side and its distance from the side's start vertex, to the rounding of the format. Linedef actions 1080 to 1083, tag 999 with a one-sided wall (Doom format only) turn the stored angle by, or set it to, exactly the documented amount on every piece of the line. Lines and sides marked as invisible (998, 1084 to 1086, BSPNOSEG) get no segs, all others do.",
 ["inputs", "configurations"], "all maps, line specials and tags, all node options, formats with angles",
 "unit tests build no segs; angles and offsets must stay right through any number of splits of a line",
 ["node_intro.go", "nodegen.go", "node_outro.go", "level.go"],
 [("special effects", "node_intro.go"), ("splitting", "nodegen.go: DivideSegsActual"), ("serialisation", "node_outro.go")],
 ["SEGS of the output"], BLACKBOX + "Oracle: angle and offset computed from the line and the documented effect.", PBT)
prop("C11", "All node formats carry the same tree, within their limits",
 "With single-tree node building, the same map and options give the same tree in every format (vanilla, DeeP, XNOD, ZNOD): when the tree fits vanilla limits the adaptive formats are identical to vanilla nodes, otherwise to the forced format; ZNOD is XNOD compressed. --ableist changes nothing but multi-tree with the formats X and Z, which it makes the same as x and z. Extended nodes carry subunit precision. A map that does not fit the format chosen is left with empty node lumps or the documented fallback, never with truncated references, and never crashes the tool.",
 ["inputs", "configurations"], "all maps up to and beyond the limits of the formats (32768 subsectors, 65536 segs and vertices), all node options and formats",
 "tests build no nodes; limits are only reached by huge maps and each format has limits of its own",
 ["node_outro.go", "zstream.go", "multiformat_tree.go", "nodegen.go", "znodegen.go", "level.go", "config.go"],
 [("choice of format", "nodegen.go: NodesGenerator"), ("serialisation", "node_outro.go"), ("compression", "zstream.go")],
 ["SEGS, SSECTORS, NODES, VERTEXES of the output"], BLACKBOX + "Oracle: decoded trees of several runs compared with each other and with the limits of the formats.", "property-based testing: differential between node formats over generated maps (including maps around the formats' limits), shrinking")
prop("C12", "Lines and vertices are only renumbered",
 "Rebuilding nodes keeps every linedef in place with the same coordinates, flags, special, tag and sides. In VERTEXES exactly the vertices used by lines remain, in their old order, followed only by vertices that segs use; extended nodes add nothing there. Segs that reach the end of a line use the line's own vertex.",
 ["inputs", "configurations"], "all maps (with unused, duplicate and shuffled vertices, special tags), all node options and formats",
 "unit tests rebuild no level; renumbering must be consistent over LINEDEFS, VERTEXES and SEGS for any set of unused vertices",
 ["universal_interfaces.go", "level.go", "node_vmap.go", "node_outro.go", "nodegen.go"],
 [("pruning of unused vertices", "universal_interfaces.go: PruneUnusedVertices"), ("new vertices", "node_vmap.go, nodegen.go"), ("serialisation", "node_outro.go")],
 ["LINEDEFS, VERTEXES, SEGS, NODES of the output"], BLACKBOX + "Oracle: the input map renumbered by the harness.", PBT)
prop("C16", "Deterministic output",
 "With -d, the output file is a function of the input and the options: building again, with any number of processors, of node or blockmap threads, at any interleaving, or on another architecture, gives the same bytes.",
 ["inputs", "configurations", "schedules"], "all wads, all options including multi-tree node building and offset search, any number of threads and processors",
 "tests do not run the program; an order that depends on scheduling shows in few runs and only for some maps and options",
 ["vigilantbsp.go", "level.go", "writebus.go", "multitree_plain.go", "blockmapgen.go", "nodegen.go", "stknode.go"],
 [("order of writing", "level.go: DoLevel; writebus.go"), ("choice among trees built concurrently", "multitree_plain.go"), ("choice among offsets tried concurrently", "blockmapgen.go")],
 ["output file"], BLACKBOX + "Compares whole files of several runs, with different GOMAXPROCS and thread options and a 32-bit build; schedules are sampled, not enumerated.", "property-based testing: differential between schedules, thread counts and architectures over generated wads and options, shrinking")
prop("C18", "Rebuilding is idempotent",
 "Rebuilding a wad that has been rebuilt with the same options gives the same wad again: no lump changes its content, none appears, disappears or moves, whatever state the levels were in before the first time.",
 ["inputs", "configurations", "histories"], "all wads, all options, repeated rebuilding (levels with vertices that no line uses settle with the second time, as these count for the bounds of the blockmap)",
 "tests rebuild nothing; what a former run leaves behind (added vertices, extended nodes, emptied lumps, dummy lines) only shows when the result is built again",
 ["level.go", "universal_interfaces.go", "wad.go", "node_outro.go", "node_vmap.go"],
 [("pruning of vertices that nodes added", "universal_interfaces.go: PruneUnusedVertices"), ("directory rewrite", "wad.go: UpdateDirectoryAndSchedule"), ("level processing", "level.go: DoLevel")],
 ["output files of three consecutive runs"], BLACKBOX, "property-based testing: metamorphic relation between consecutive rebuilds of generated wads, shrinking")
prop("C20", "Accelerations do not change the result",
 "Options and code paths that exist for speed only give the same lumps as the plain way: --stknode, the cache of partition candidates (--sidecache), --speedtree in multi-tree mode, and the symmetric reject table against --nosymm.",
 ["inputs", "configurations"], "all maps, with all options these can be combined with (vanilla or DeeP nodes for --stknode)",
 "the accelerated code is a second, often generated, implementation of the same algorithm; tests compare neither, and they differ only for particular maps",
 ["stknode.go", "picknode.go", "multitree_plain.go", "nodegen.go", "rejectSYMM.go", "rejectFAST.go", "rejectSymmDefs.go", "superblocks.go"],
 [("replayed partitions", "stknode.go"), ("cached sides", "picknode.go, nodegen.go"), ("symmetric reject", "rejectSYMM.go, rejectSymmDefs.go")],
 ["output file"], BLACKBOX, "property-based testing: differential between accelerated and plain runs over generated maps, shrinking")
prop("C13", "REJECT never hides what can be seen",
 "If nothing that blocks sight (a line without the two-sided flag, or, with self-referencing sector support, the outside of a line with one sector on both sides where documented) stands in a straight corridor a few units wide between a point of one sector and a point of another, REJECT says that the two can see each other: with every setting of -rs=, with and without graphs, symmetric or not.",
 ["inputs", "configurations"], "all maps (convex rooms, islands, free-standing walls, self-referencing sectors), all reject options without RMB",
 "tests build no reject table; a missing line of sight shows only in game and depends on the arrangement of many lines",
 ["reject.go", "rejectLOS.go", "rejectDFS.go", "rejectSYMM.go", "rejectFAST.go", "selfref.go", "rejectSymmDefs.go"],
 [("line of sight", "rejectLOS.go: CheckLOS and below"), ("orientation of pairs of lines", "reject.go: adjustLinePair, divideRegion"), ("graphs", "rejectDFS.go"), ("self-referencing sectors", "selfref.go, reject.go")],
 ["REJECT lump of the output"], BLACKBOX + "Oracle: sight lines found by ray casting from points on lines and in sectors on the input map, with walls widened by 2 units.", "property-based testing: oracle by randomised ray casting over generated maps, shrinking")
prop("C14", "REJECT form, symmetry and constants",
 "REJECT has ceil(n*n/8) bytes; every sector sees itself and the sectors it shares a two-sided line with; the table is symmetric; sectors without two-sided lines are hidden from all others; sectors with lines that have them on both sides see all with -rs=0; a map without lines between sectors, or -rz, gives zeroes. The table depends neither on what else is built, nor on the place of the map, nor (without their support) on lines with one sector on both sides.",
 ["inputs", "configurations"], "all maps, all reject options without RMB",
 "tests build no reject table",
 ["reject.go", "rejectSYMM.go", "rejectFAST.go", "rejectSymmDefs.go", "rejectDFS.go", "selfref.go", "level.go"],
 [("table and its serialisation", "reject.go: getREJECT, RejectGenerator"), ("mixers of self-referencing sectors", "selfref.go"), ("-rz", "level.go")],
 ["REJECT lump of the output"], BLACKBOX + "Oracle: rules, and comparison with runs on a changed map or with other lumps built as well.", "property-based testing: invariants and metamorphic relations over generated maps, shrinking")
prop("C24", "REJECT hides what cannot be seen",
 "Sectors with no way from one to the other are hidden from each other (unless graphs are switched off), and so are all pairs of sectors between which walls block every sight line, except for a few now and then, as blocking by several walls together is approximate: at most six pairs of a map or one in eight of its hidden ones, and in a small part of all maps only.",
 ["inputs", "configurations"], "all maps without self-referencing sectors, with and without graphs, no RMB",
 "tests build no reject table; a table that hides too little still works and only costs time in game",
 ["reject.go", "rejectLOS.go", "rejectDFS.go", "rejectSYMM.go", "rejectFAST.go"],
 [("line of sight", "rejectLOS.go"), ("graphs", "rejectDFS.go"), ("clipping of pairs of lines", "reject.go: adjustLinePair")],
 ["REJECT lump of the output"], BLACKBOX + "Oracle: exhaustive search for sight lines through gaps between the walls' ends, with walls shortened by 1.5 units, on the input map.", "property-based testing: oracle by exhaustive ray casting over generated maps, shrinking")
prop("C15", "RMB effects apply as the manual says",
 "With -rm, the options of in.rej (or in.REJ) change the REJECT table of each level just as the RMB manual and the program's own documentation say, on top of what the table is without them: BLIND and SAFE with BAND and INVERT, LENGTH, DISTANCE, LINE, GROUP, INCLUDE, EXCLUDE and VORTEX with the documented priorities; options before the first map marker are for every level, those after it for that level; abbreviations, case, comments, sector lists and line endings make no difference. GROUP alone changes nothing. NOPROCESS takes the table from the named map or wad (if of the right size and all ASSERTs hold, otherwise it is built), and only the effects on top of it apply. REPORT lists in the .rpt file the mutually visible pairs farther apart than told.",
 ["inputs", "configurations", "histories"], "all maps with all lists of these options, all maps and wads as the source of NOPROCESS",
 "tests only parse options; effects depend on the map's neighbourhood relation, on groups and on the order of effects",
 ["rejectRMB.go", "rmbparse.go", "rmbunit.go", "reject.go", "rejectDFS.go", "rejectFAST.go", "rejectSYMM.go", "filecontrol.go", "vigilantbsp.go"],
 [("parser", "rmbparse.go: LoadRMB"), ("effects and distances", "rejectRMB.go: ProcessOptionsRMB, CreateDistanceTable"), ("groups in sight tests", "reject.go: markVisibilityGroup, rejectDFS.go"), ("source of NOPROCESS", "reject.go: NoProcess_TryLoad, rejectRMB.go")],
 ["REJECT lumps of the output", "the .rpt file"], BLACKBOX + "Oracle: reference model of the effects applied to the table the program builds for the same map with LINE lines made one-sided in flags and without the other effects; ray casting for DISTANCE.", "property-based testing: model-based, generated RMB files over generated maps, shrinking")
prop("C17", "Malformed input is refused or handled, never a crash",
 "Damaged wad files (truncated, wrong counts and offsets), levels with references out of range or partial records, RMB files with wrong words or numbers and wrong command lines end in an error message and a nonzero exit status, or in a sound output wad: no runtime fault, no hang, no changed input. A level that cannot be built because of references out of range is kept as it was and the other levels are still rebuilt; a syntax error in the RMB file and an invalid argument stop the run before anything is written.",
 ["inputs", "configurations"], "all files, option files and command lines",
 "tests parse a few well-formed lists; the ways to be malformed are endless",
 ["vigilantbsp.go", "wad.go", "level.go", "rmbparse.go", "cmdparser.go", "filecontrol.go", "rejectRMB.go", "blockmap.go"],
 [("directory", "wad.go: TryReadWadDirectory, FindDamagedLevels"), ("RMB parser", "rmbparse.go"), ("command line", "cmdparser.go: Configure"), ("reading of lumps", "level.go")],
 ["exit status, messages", "output file", "input file"], BLACKBOX + "A panic with the message that the RMB file has syntax errors counts as the tool's way to abort.", "property-based fuzzing: structured generators plus corruption, invariants on the outcome, shrinking")
prop("C22", "The spelling of the command line makes no difference",
 "With -d, the bytes of the output depend on the settings the command line stands for and not on how it is spelt: omitted options have the documented defaults; the documented alternatives (x+, x-, bare letters, -bo=1 for -bo=8,8, -ba for -bas, c=V for c=v without multi-tree, c=z for c=z6, --detailnodes- and so on), sub-options joined or given apart, values overridden by later ones, invalid values that are reported and ignored, groups switched off and on again, the order of the arguments, -v, thread counts, accelerators, -m against the complementary -!m, and writing in place or with -o give the same bytes.",
 ["configurations"], "all settings, all spellings of them; maps are generated as well",
 "the tests parse a few map lists; the option parser has hundreds of paths and global state that later options meet",
 ["cmdparser.go", "config.go", "vigilantbsp.go", "zenscore.go"],
 [("parser", "cmdparser.go: FromCommandLine, parseBlockmapParams, parseNodesParams, parseRejectParams"), ("defaults", "config.go")],
 ["output file"], BLACKBOX, "property-based testing: metamorphic relation between generated spellings of generated settings, shrinking")
prop("C19", "Scroller speed follows the tags",
 "When blockmap and nodes are both rebuilt, a wall with action 48 gets as many dummy linedefs as its tag asks for (tag minus one), and the wall nearest to a linedef with action 1048 and the same tag gets as many as the last two digits of that tag say (at least one), whatever was there before: dummies are added at the end or removed, through any history of edits and rebuilds. All other linedefs stay as they are and in order. Dummies are in no block, in no seg and block no sight; otherwise linedefs do not change. With blockmap or nodes alone, linedefs are not touched and dummies are still left out.",
 ["inputs", "configurations", "histories"], "all maps in Doom format with these actions, all edits of tags between rebuilds, all build options",
 "tests have no scrollers; the number of lines to add or remove depends on earlier builds",
 ["level.go", "blockmapgen.go", "bblocks.go", "node_intro.go", "nodegen.go", "reject.go", "solidblocks.go"],
 [("groups of scrollers, dummies", "level.go: RefreshScrollerSpeed"), ("lines left out", "linesToIgnore in bblocks.go, node_intro.go, reject.go")],
 ["LINEDEFS, BLOCKMAP, SEGS, NODES, REJECT lumps of the output"], BLACKBOX + "Oracle: reference model of the numbers of dummies, and the build of the same map without dummies.", "property-based testing: model-based histories of edits and rebuilds, metamorphic comparison, shrinking")
prop("C21", "Multi-tree keeps the best tree",
 "Of the trees multi-tree builds, the one in the output is the best in the documented order (no protected line split, fewest subsectors, then least difference of the heights of the root's two sides, then least height, then fewest segs; of equal trees the one from the linedef tried first), among roots of the kind asked for: the root's partition line runs along a one-sided line with m=1 and a two-sided one with m=2 if there is any, m=3 gives the better of these two trees and is never worse than the tree without multi-tree. --roots=N restricts the linedefs tried to N of the kind, more of them give a strictly better tree or the same one, and with as many as there are lines the tree is as good as without it. With c=v and c=V a tree that fits the vanilla format (for c=v, preferably its signed limits) is chosen over better ones that do not.",
 ["inputs", "configurations", "schedules"], "all maps with a tree within the limits of the format, all partitioners, formats and thread counts",
 "tests build no tree; which root is best depends on the whole map, and results come from worker threads in any order",
 ["multitree_plain.go", "nodegen.go", "picknode.go", "zenscore.go", "multiformat_tree.go"],
 [("candidates", "multitree_plain.go: MTPSentinel_GetRootSegCandidates, MTP_ZenRootEnumerate"), ("order of trees", "multitree_plain.go: IsBSPTreeBetter, MTP_IsBSPTreeBetter"), ("collection of results", "multitree_plain.go: MTPSentinel_MakeBestBSPTree")],
 ["NODES, SEGS, SSECTORS lumps of the output"], BLACKBOX + "Oracle: the four measures are computed from the output; runs with different sets of candidates are compared.", "property-based testing: metamorphic relations between runs over generated maps, shrinking")
prop("C25", "Culling takes out only lines that do not matter",
 "With -br the blockmap is the one without it minus lines, each of which is two-sided, blocks nobody, has no action and either has one sector on both sides without being part of the outline of a self-referencing sector, or lies (never in Hexen format or if any line acts on several sectors) between two untagged sectors of equal heights that are no timed doors; such lines are removed unless a self-referencing sector may be near. With -ni=2 only two-sided lines with one sector, no textures and no precious tag lose their segs, both sides alike, never the outline of a self-referencing sector; with -ni=1 the outline is lost only where the manual says. Free-standing chains of such lines are taken out. Everything else in the output stays as it was, and the tree still tells which sector a point is in.",
 ["inputs", "configurations"], "all maps with rooms, joined sectors, self-referencing sectors side by side, nested and touching walls, and lines of one sector inside",
 "tests cull nothing; a lost line shows only in game, as a missing floor or as a way through",
 ["selfref.go", "blockmapgen.go", "node_intro.go"],
 [("perimeters", "selfref.go: deepAnalysis, getPerimeter, removeAppendages, split"), ("lines removed", "blockmapgen.go: RemoveLinesFromBlockmap, hasMultiSectorSpecial"), ("lines culled", "node_intro.go: createSegs")],
 ["BLOCKMAP, SEGS, NODES, SSECTORS lumps of the output"], BLACKBOX + "Oracle: the generator knows what each line is for; comparison with the build without culling.", "property-based testing: generated maps with classified lines, metamorphic comparison, shrinking")
prop("C23", "Threads share no data without synchronisation",
 "Node, blockmap and reject building of a level, the workers of multi-tree and those of the search over blockmap offsets run at the same time on the same level: in no run, whatever the options, numbers of threads and processors, do two of them access the same memory without synchronisation when one of them writes, and no run hangs. What comes out under a different schedule with -d is the same.",
 ["inputs", "configurations", "schedules"], "all levels and options, all numbers of threads",
 "tests start no threads; a race shows only under some schedules, on other machines, as a rare wrong lump",
 ["level.go", "blockmapgen.go", "multitree_plain.go", "multiformat_tree.go", "writebus.go", "nodegen.go", "reject.go"],
 [("stages started at the same time", "level.go: DoLevel"), ("workers of multi-tree", "multitree_plain.go: MTPSentinel_MakeBestBSPTree"), ("workers of the offset search", "blockmapgen.go: BlockmapBee"), ("writer", "writebus.go: WriteBusLoop")],
 ["report of the race detector", "output file", "end of the run"], BLACKBOX + "Oracle: the race detector of Go (build with -race), which reports races that are possible given the synchronisation seen, not only those that happen.", "property-based testing under a dynamic race detector: generated levels, options and thread counts, shrinking")
prop("C26", "Protected lines and sectors are split only when they must be",
 "At no node does the partition line split the side of a protected line (tagged 900 or above but not 998 or 999 in Doom format; on the border of a sector in which a polyobject is spawned in Hexen format, at its inner side) while a partition along some other seg there would have left every protected side whole and passed through none of their ends: with every partitioner. With m=3 no protected line is split if it is not in the tree without multi-tree or those of m=1 and m=2. Segs that are convex together and all belong to sectors tagged 900 or above are one subsector (the root aside); segs of different sectors none of which is so tagged never are.",
 ["inputs", "configurations"], "all small to middling maps in both formats (costs of other kinds add up on very big ones), all partitioners with the default split cost, extended nodes",
 "tests build no tree; polyobjects and transparent doors break in game only, depending on the choice of each partition",
 ["picknode.go", "convexity.go", "nodegen.go", "node_intro.go", "universal_interfaces.go", "zenscore.go", "multitree_plain.go"],
 [("cost of splitting a protected seg", "picknode.go: evalPartitionWorker_*, convexity.go: PickNode_SingleSector"), ("sectors with polyobjects", "universal_interfaces.go: DetectPolyobjects, markPolyobjPoint"), ("joined sectors", "nodegen.go: isItConvex"), ("order of trees", "multitree_plain.go: IsBSPTreeBetter")],
 ["NODES, SEGS, SSECTORS lumps of the output"], BLACKBOX + "Oracle: at each node the alternatives are recomputed from the segs below it; only clear ones (4 units away from any end) count.", "property-based testing: generated maps with protected lines, polyobjects and joined sectors, per-node oracle on the decoded tree, shrinking")
