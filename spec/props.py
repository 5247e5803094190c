"""The properties, and where in the source each one is decided.

P(id, title, statement, over, quantifier text, why tests cannot settle it,
  sel  = [(group, file regex, function regex[, effect regex])]  effect contracts
  rules= [names of structural rules in engine/rules.py]
  mech = [(mechanism, where)])
"""
PROPS = []
NOC = "rad-sim/sim/noc/"
SIM = "rad-sim/sim/"
BS = "rad-sim/sim/noc/booksim/"
D3 = "rad-sim/sim/dram/DRAMsim3/src/"
EX = "rad-sim/example-designs/"
DESIGNS = ["add", "mult", "mlp", "mlp_int8", "dlrm", "dlrm_two_rad", "npu"]
ANY = "."


def P(id, title, statement, over, qtext, why, files, mech, sel=(), rules=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, sel=list(sel), rules=list(rules)))


def noc(f, k=ANY, *item):
    return ("noc", "/noc/" + f, k) + item


def sim(f, k=ANY, *item):
    return ("sim", "/sim/" + f, k) + item


def bs(f, k=ANY, *item):
    return ("booksim", "/booksim/" + f, k) + item


def d3(f, k=ANY, *item):
    return ("dramsim3", "/src/" + f, k) + item


def ds(f, k=ANY, which=DESIGNS):
    return [("design:" + d, "^rad-sim/example-designs/%s/" % d + f, k) for d in which]


# ------------------------------------------------------------------ RAD-Sim NoC adapters
P("A01", "AXI-Stream beats cross the NoC unchanged and in order",
  "Every AXI-Stream beat accepted at a node's slave side is delivered exactly once at the destination port it names, with data, user and last bits, id and destination equal to what was accepted. Beats from one source to one destination are delivered in the order they were accepted. No beat is created, duplicated or merged on the way.",
  ["inputs", "schedules", "configurations"],
  "all beat contents, all interleavings of ready/valid, node/adapter/NoC clock ratios, payload widths and flit counts per beat",
  "the example designs exercise a few widths, ratios and traffic patterns and only look at a design-level checksum",
  [NOC + "axis_slave_adapter.cpp", NOC + "axis_master_adapter.cpp", NOC + "noc_utils.cpp", NOC + "sc_flit.cpp"],
  [("packetisation and injection", NOC + "axis_slave_adapter.cpp"), ("ejection and reassembly", NOC + "axis_master_adapter.cpp"),
   ("payload slicing", NOC + "noc_utils.cpp"), ("flit fields", NOC + "sc_flit.cpp")],
  [noc("axis_(slave|master)_adapter.cpp"), noc("noc_utils.cpp"), noc("sc_flit.cpp")], ["bus_layout"])

P("A02", "AXI-Stream adapters respect every queue depth and credit",
  "An AXI-Stream adapter raises ready only when it can take a beat, and never accepts a beat it cannot store or stores a flit beyond the configured adapter depth. A flit enters the network only while the downstream buffer has room on its virtual channel, and each flit taken out of the network returns exactly one credit for the channel it occupied. When several ports share a node, at most one of them is served in a cycle and every waiting one is eventually offered service.",
  ["inputs", "schedules", "configurations"],
  "all traffic, backpressure patterns, adapter depths, arbiter settings, VC counts and clock ratios",
  "overruns and lost credits need particular backpressure timing that the example designs do not generate",
  [NOC + "axis_slave_adapter.cpp", NOC + "axis_master_adapter.cpp", NOC + "radsim_noc.cpp"],
  [("input arbitration and ready", NOC + "axis_slave_adapter.cpp"), ("injection guarded by buffer state", NOC + "axis_slave_adapter.cpp"),
   ("ejection FIFO depth and credit return", NOC + "axis_master_adapter.cpp")],
  [noc("axis_(slave|master)_adapter.cpp")], ["guarded_pop"])

P("A03", "AXI-MM channel fields cross the NoC unchanged",
  "Every AXI memory-mapped transfer accepted on a read-address, write-address, write-data, read-data or write-response channel is presented exactly once at the far end on the same kind of channel with the same id, address, burst, size, length, data, response, last and user values that the channel carries. Write data goes to the destination of the write address it belongs to.",
  ["inputs", "schedules", "configurations"],
  "all field values, interleavings of the five channels, payload widths, flit counts and clock ratios",
  "only one example design uses memory-mapped ports, always with single-beat reads and zero control fields",
  [NOC + "aximm_slave_adapter.cpp", NOC + "aximm_master_adapter.cpp", NOC + "noc_utils.cpp", NOC + "sc_flit.cpp"],
  [("request packing / response unpacking", NOC + "aximm_slave_adapter.cpp"), ("request unpacking / response packing", NOC + "aximm_master_adapter.cpp")],
  [noc("aximm_(slave|master)_adapter.cpp"), noc("noc_utils.cpp"), noc("sc_flit.cpp")], ["bus_layout"])

P("A04", "AXI-MM adapters respect depths, credits and response routing",
  "A memory-mapped adapter asserts ready on at most one request or response channel per cycle and only when the transfer can be stored, injects a flit only while the downstream virtual channel has room, and returns exactly one credit per flit it removes from the network. Responses go back to the node that issued the request, and write data is accepted only after a write address.",
  ["inputs", "schedules", "configurations"],
  "all traffic mixes, backpressure patterns, adapter depths, VC counts and clock ratios",
  "the single memory-mapped example never fills the adapter queues or mixes the channels",
  [NOC + "aximm_slave_adapter.cpp", NOC + "aximm_master_adapter.cpp"],
  [("ready selection", NOC + "aximm_slave_adapter.cpp"), ("response destination queues", NOC + "aximm_master_adapter.cpp")],
  [noc("aximm_(slave|master)_adapter.cpp")], ["guarded_pop"])

P("A05", "Message classes stay in their own virtual channels",
  "Each of the five message classes (read request, write request, write data, read reply, write reply) is injected, routed and forwarded only on the virtual-channel range configured for that class. The generated configuration gives the classes consecutive disjoint ranges that cover all channels, and rejects channel counts that cannot be divided equally.",
  ["inputs", "configurations", "histories"],
  "all classes, VC counts, topologies and routing functions",
  "tests use one or three classes on a mesh with dimension-order routing; the other routing functions and classes are never run",
  [NOC + "noc_utils.cpp", BS + "routefunc.cpp", BS + "networks/anynet.cpp", BS + "networks/dragonfly.cpp", BS + "networks/flatfly_onchip.cpp", BS + "networks/cmesh.cpp", "rad-sim/config.py"],
  [("type to VC mapping", NOC + "noc_utils.cpp"), ("per-class range at the head of every routing function", BS + "routefunc.cpp"), ("partition generator", "rad-sim/config.py")],
  [noc("noc_utils.cpp"), noc("sc_flit.cpp"), bs("routefunc.cpp"), bs("networks/(anynet|dragonfly|flatfly_onchip|cmesh).cpp", r"^(min_|ugal|valiant|xyyx|adaptive|dor_no|no_bad|dor)"),
   bs("networks/.*", r"_(anynet|cmesh|flatfly|dragonflynew)\("), bs("outputset.cpp"),
   ("py:config", "config.py", "generate_booksim_config_files")], ["vc_class"])

P("A06", "Packed link fields never overlap and always fit",
  "In the generated definitions, the fields packed on the streaming and memory-mapped links occupy disjoint bit ranges inside their container, each field has the width its signal has, and sender and receiver use the same layout. Splitting a packed transfer into flits and joining the flits again reproduces every bit.",
  ["configurations", "inputs"],
  "all interface widths accepted by the configuration and all payload widths",
  "the tests build a handful of width combinations",
  ["rad-sim/config.py", NOC + "noc_utils.cpp"],
  [("layout macros written by the generator", "rad-sim/config.py"), ("payload slicing", NOC + "noc_utils.cpp")],
  [noc("noc_utils.cpp"), noc("sc_flit.cpp"), noc("axis_(slave|master)_adapter.cpp", "Packetization|OutputInterface|InputInterface"),
   noc("aximm_(slave|master)_adapter.cpp", "Packetization|OutputInterface|InputInterface"), ("py:config", "config.py", "generate_radsim_params_header")], ["bus_layout"])

P("A07", "Interface bundles connect and reset every signal consistently",
  "Connecting two interface bundles, or a bundle to a single port, joins each signal with the signal of the same name and direction and leaves none of them unconnected. Resetting a bundle drives every output it owns to its idle value, and copying or printing a bundle covers the same set of signals.",
  ["programs", "inputs"],
  "all pairs of interfaces a design can connect, all signals",
  "a mis-wired sideband signal is invisible to designs that ignore it",
  [NOC + "axis_interface.hpp", NOC + "aximm_interface.hpp"],
  [("AXI-Stream bundle", NOC + "axis_interface.hpp"), ("AXI-MM bundle", NOC + "aximm_interface.hpp")],
  [noc("ax(is|imm)_interface.hpp")], ["bundle_names"])

P("A08", "Network interface wires each adapter to its own node",
  "For every network instance, each node gets the adapters its placed ports need, each connected to the clocks, buffer state, ejection state and node number of that node, and the network advances exactly once per network cycle: inputs are read, routers evaluated and outputs written, and returned credits are sent exactly once. A flit that leaves the network at a node is handed only to that node's adapters.",
  ["configurations", "schedules", "histories"],
  "all placements, numbers of networks, nodes, ports and clock assignments",
  "tests use one network with fixed placements",
  [NOC + "radsim_noc.cpp"],
  [("adapter construction and Tick", NOC + "radsim_noc.cpp")],
  [noc("radsim_noc.cpp")], [])

# ------------------------------------------------------------------ RAD-Sim core
P("C01", "Simulation processes keep the clocked execution model",
  "Every clocked process of a module waits for its clock in every turn of its loop and once after its reset code, has a reset condition, and every combinational process re-evaluates whenever any signal it reads changes. All processes of a module run on the clock and reset the module was given.",
  ["schedules", "programs"],
  "all processes of all modules, all paths through one turn of each loop",
  "a missing wait or sensitivity shows only under particular signal activity, or hangs the simulator",
  [NOC, SIM, EX],
  [("process registration in constructors", "constructors of all modules"), ("thread bodies", "Tick/Input*/Output* processes")],
  [noc("(axis|aximm)_(slave|master)_adapter.cpp", ANY, r"clocked|sensitive|reset_signal|wait"), noc("radsim_noc.cpp", ANY, r"clocked|sensitive|reset_signal|wait"),
   sim(".*cpp", ANY, r"clocked|sensitive|reset_signal|wait"), ("dram", "/dram/", ANY, r"clocked|sensitive|reset_signal|wait")]
  + [(g, f, k, r"clocked|sensitive|reset_signal|wait") for g, f, k in ds("")],
  ["process_discipline"])

P("C02", "Every placed port is bound to the network node it was placed on",
  "Each registered streaming or memory-mapped port is bound to exactly the network, node and interface given by the placement file, with the clock given by the clock file, and its destination identifier and base address designate that same location. A port that is missing from the placement, placed twice or placed inconsistently is reported as an error instead of being connected elsewhere.",
  ["configurations", "inputs"],
  "all placement and clock files, port types, numbers of networks, nodes and ports per node",
  "the tests use the shipped placement files only",
  [SIM + "design_context.cpp", SIM + "radsim_module.cpp", SIM + "design_context.hpp"],
  [("placement and clock parsing, NoC creation, port binding", SIM + "design_context.cpp"), ("port registration", SIM + "radsim_module.cpp")],
  [sim("design_context.cpp"), sim("radsim_module.cpp"), sim("portal.cpp", "RegisterModuleInfo"), noc("radsim_noc.cpp", "::radsim_noc|GetNum|Get")], [])

P("C03", "Every configuration value reaches the reader that asks for it",
  "Each parameter written by the configuration generator is parsed into the table of the right type for the right RAD (or the shared table), and reading it by name returns exactly the written value or list element. Asking for a parameter that was not configured is a fatal error, never a default value, and every parameter the simulator reads is one the generator writes.",
  ["configurations", "inputs"],
  "all parameters, value types, RAD counts, list lengths",
  "tests run a few configurations and do not look at individual parameters",
  [SIM + "radsim_config.cpp", "rad-sim/config.py"],
  [("typed knob tables and parser", SIM + "radsim_config.cpp"), ("writer", "rad-sim/config.py")],
  [sim("radsim_config.cpp"), ("py:config", "config.py", "generate_radsim_config_file|parse_config_file|get_fraction")], ["knob_names"])

P("C04", "The generator rejects bad configurations and writes consistent files",
  "The configuration generator stops with an error for unknown parameters, unsupported topologies and virtual-channel counts that do not divide into the message classes. For accepted input it writes, for every RAD, network files, definitions, parameter file and main program that agree with each other and with the values given for that RAD's configuration, with rates and latencies converted exactly.",
  ["configurations", "inputs"],
  "all configuration files",
  "tests configure seven fixed designs",
  ["rad-sim/config.py"],
  [("parser and generators", "rad-sim/config.py")],
  [("py:config", "config.py", ANY)], [])

P("C05", "Simulation runs until every RAD is done and reports failure in its exit status",
  "The simulation continues while any RAD has not reported completion and stops once all of them have. A design that reports a failure makes the program of its primary RAD exit with a nonzero status, and one that reports none exits with zero; all RADs, systems and interconnects the configuration asks for are created exactly once.",
  ["configurations", "histories"],
  "any number of RADs, any order of completion, any verdict",
  "tests run one or two RADs that always pass",
  [SIM + "radsim_cluster.cpp", SIM + "design_context.cpp", "rad-sim/config.py", SIM + "design_top.hpp"],
  [("done and exit code", SIM + "design_context.cpp"), ("cluster", SIM + "radsim_cluster.cpp"), ("generated main", "rad-sim/config.py")],
  [sim("radsim_cluster.cpp"), sim("design_context.cpp", "rad_done|ExitCode|ReportDesign|RADSimDesignContext::RADSim"), sim("design_top.hpp"),
   ("py:config", "config.py", "generate_radsim_main")] + ds(r"[^/]*(driver|system)\.cpp"), ["driver_verdict"])

P("C06", "Logs and telemetry record each event under its own stage and level",
  "Each transaction gets one record whose initiation, packetisation, injection, ejection, depacketisation and receipt stages are filled with the time of the corresponding event and written out in the documented column order. A message is logged exactly when the configured verbosity includes its level, error and fatal messages terminate the run with a nonzero status as their level requires, and traces hold only the events of their own trace.",
  ["histories", "inputs", "configurations"],
  "all event orders, transaction numbers, verbosity levels and numbers of traces",
  "no test reads the telemetry files or varies verbosity",
  [SIM + "radsim_telemetry.cpp", SIM + "radsim_utils.cpp"],
  [("transaction records, traces", SIM + "radsim_telemetry.cpp"), ("log levels", SIM + "radsim_telemetry.cpp"), ("cycle computation", SIM + "radsim_utils.cpp")],
  [sim("radsim_telemetry"), sim("radsim_utils.cpp"), noc("(axis|aximm)_(slave|master)_adapter.cpp", ANY, "Telemetry|Record")], [])

P("C07", "Transfers between RADs arrive at the right RAD after the configured delay",
  "A beat accepted by the inter-RAD network is delivered exactly once to the RAD its destination names, with its data, user and last values and with the remote destination node made local, no earlier than the configured latency and in acceptance order. No more beats per period are accepted than the configured bandwidth allows, and the portal module forwards beats between the network and the RAD's external port without loss while backpressure is respected.",
  ["inputs", "schedules", "configurations"],
  "all beats, numbers of RADs, latencies, bandwidth fractions and backpressure patterns",
  "one two-RAD test with one traffic pattern and full bandwidth",
  [SIM + "radsim_inter_rad.cpp", SIM + "portal.cpp", SIM + "radsim_cluster.cpp", "rad-sim/config.py"],
  [("inter-RAD FIFOs and counters", SIM + "radsim_inter_rad.cpp"), ("portal", SIM + "portal.cpp"), ("fraction and latency conversion", "rad-sim/config.py")],
  [sim("radsim_inter_rad.cpp"), sim("portal.cpp"), sim("radsim_cluster.cpp"), sim("design_top.hpp"), ("py:config", "config.py", "get_fraction|generate_radsim_config_file")], ["guarded_pop"])

P("C08", "The memory controller returns what was last written, in request order",
  "Each accepted read burst yields one response per word, in request order on its channel, carrying the requester's tag, the last value written to that address (zero and a warning if none), and the last flag only on the final word. Each accepted write burst stores its data at the translated addresses and yields exactly one response; requests are accepted only while queues have room.",
  ["inputs", "schedules", "histories", "configurations"],
  "all addresses, burst lengths and sizes, channels, completion orders of the memory model and backpressure",
  "the only memory design issues single-word reads",
  ["rad-sim/sim/dram/mem_controller.cpp", "rad-sim/sim/dram/dram_axis.cpp"],
  [("request queues and callbacks", "rad-sim/sim/dram/mem_controller.cpp")],
  [("dram", "/dram/mem_controller.cpp", ANY), ("dram", "/dram/dram_axis.cpp", ANY)], ["guarded_pop"])

P("C09", "Memory controller addresses translate one-to-one",
  "For every memory configuration, translating a word address for a channel distributes the address bits to channel, rank, bank group, bank, row and column without losing or sharing bits, so distinct words of a channel get distinct locations, and the channel recovered from a translated address is the channel it was translated for.",
  ["inputs", "configurations"],
  "all addresses, channels and memory geometries",
  "tests touch few addresses of few geometries",
  ["rad-sim/sim/dram/mem_controller.cpp"],
  [("address mapping and its inverse", "rad-sim/sim/dram/mem_controller.cpp")],
  [("dram", "/dram/mem_controller.cpp", "AddressMapping|ChannelFromAddr|mem_controller::mem_controller|Callback|::Tick"), d3("memory_system.cc", "::Get"), d3("configuration.cc", "AddressMapping")], ["addr_fields"])

P("C10", "Memory test benches check what they sent",
  "The streaming and memory-mapped memory test modules drive each request only while it is accepted, compare every response against the value expected for its request, and finish only after all expected responses arrived.",
  ["schedules", "inputs"],
  "all response orders and backpressure",
  "these benches are not part of the stable tests",
  ["rad-sim/sim/dram/mem_controller_test.cpp", "rad-sim/sim/dram/dram_test.cpp"],
  [("sources and sinks", "rad-sim/sim/dram/mem_controller_test.cpp")],
  [("dram", "/dram/(mem_controller_test|dram_test).cpp", ANY)], [])

# ------------------------------------------------------------------ BookSim
P("B01", "Credit accounting matches downstream buffer occupancy",
  "For every output and virtual channel, the count of occupied downstream slots rises by one for each flit sent and falls by one for each credit received, per channel and in total, never exceeding the buffer size nor falling below zero. A channel is reported full exactly when its sharing policy leaves it no slot, and is in use from the head flit until its release, for every buffer policy.",
  ["histories", "inputs", "configurations"],
  "all sequences of flits and credits, all buffer policies, sizes and VC counts",
  "tests run only the private policy with one buffer size",
  [BS + "buffer_state.cpp", BS + "credit.cpp"],
  [("occupancy counters and policies", BS + "buffer_state.cpp")],
  [bs("buffer_state"), bs("credit")], [])

P("B02", "Input buffers keep each virtual channel's flits in order and bounded",
  "Flits leave a virtual-channel buffer in the order they entered, never more are stored than the configured capacity, and flits of different packets are never mixed within one channel. The state, route set and assigned output of a channel change only as its packet progresses and are reset for the next packet.",
  ["histories", "inputs"],
  "all arrival and departure orders, VC counts and sizes",
  "the tests only reach steady single-class traffic",
  [BS + "buffer.cpp", BS + "vc.cpp", BS + "buffer.hpp"],
  [("buffer", BS + "buffer.cpp"), ("virtual channel state", BS + "vc.cpp")],
  [bs("buffer\\.(c|h)pp"), bs("vc.cpp")], [])

P("B03", "Routers neither lose, duplicate nor create flits",
  "Every flit that enters a router leaves it exactly once, on the output port and virtual channel its packet was granted, after the configured pipeline delays, and each departure from an input buffer sends exactly one credit upstream for the channel it vacated. No stage acts on a flit before its delay has elapsed.",
  ["histories", "schedules", "configurations"],
  "all traffic, router radices, delays, speculative and hold modes",
  "the tests run one router configuration with light traffic",
  [BS + "routers/iq_router.cpp", BS + "routers/router.cpp"],
  [("router pipeline", BS + "routers/iq_router.cpp")],
  [bs("routers/(iq_router|router)")], ["iq_stages"])

P("B04", "Virtual channels are held by one packet at a time",
  "An output virtual channel is granted to at most one packet at a time, only among the channels its route allows and only when available, and all flits of the packet follow its head on that channel until the tail releases it. A switch connection is only granted to a channel with a flit ready and a downstream slot.",
  ["histories", "schedules"],
  "all contention patterns and allocator decisions",
  "needs contention that the tests do not create or check",
  [BS + "routers/iq_router.cpp", BS + "vc.cpp", BS + "buffer_state.cpp"],
  [("VC and switch allocation stages", BS + "routers/iq_router.cpp")],
  [bs("routers/iq_router.cpp", "_VCAlloc|_SWAlloc|_SWHold|_InputQueuing|_UpdateNOQ|_RouteUpdate"), bs("vc.cpp"), bs("buffer_state.cpp", "TakeBuffer|IsAvailableFor|AvailableFor|SendingFlit|ProcessCredit")], [])

P("B05", "Allocators grant only requests, at most one per input and output",
  "Every allocator's result is a matching: each grant corresponds to a request made in that round, and no input or output receives more than one grant. Clearing an allocator removes all requests and grants of the previous round, and maximum-size and wavefront allocation leave no grantable request unserved as their algorithm promises.",
  ["inputs", "histories"],
  "all request matrices, priorities, sizes and allocator types",
  "the tests use one allocator type",
  [BS + "allocators/"],
  [("request bookkeeping", BS + "allocators/allocator.cpp"), ("algorithms", BS + "allocators/")],
  [bs("allocators/")], ["factory_names"])

P("B06", "Arbiters grant the requester their policy selects",
  "An arbiter grants one of the current requests if there is any and none otherwise; higher priority always wins, and among equals the policy order (round robin, least recently served, priority, tree) decides. Its state advances only when a grant is accepted, so every persistent requester is served.",
  ["inputs", "histories"],
  "all request and priority sequences, sizes and arbiter types",
  "the tests only use one arbiter type",
  [BS + "arbiters/"],
  [("arbiters", BS + "arbiters/")],
  [bs("arbiters/")], ["factory_names"])

P("B07", "Routing steps stay inside the channels the routing algorithm allows",
  "At every hop a routing function offers only virtual channels of the flit's class and, within the class, only those its deadlock-avoidance scheme (dateline, dimension order, up/down or phase split, escape channel) reserves for that step. Injection and ejection may use the whole class range.",
  ["inputs", "configurations"],
  "all source/destination pairs, hops, classes, VC counts and routing functions",
  "tests use dimension-order routing on a mesh only",
  [BS + "routefunc.cpp", BS + "networks/"],
  [("routing functions", BS + "routefunc.cpp")],
  [bs("routefunc.cpp"), bs("networks/", r"^[a-z_]+\w*\(Router"), bs("outputset")], ["vc_class"])

P("B08", "Routing always makes progress to the destination",
  "For every topology and routing function, each step moves a packet along a link chosen by the algorithm toward its destination (or its current intermediate target), a packet at its destination router is sent to the port of its destination node, and minimal algorithms never lengthen the remaining path.",
  ["inputs", "configurations"],
  "all pairs of nodes, network sizes and routing functions",
  "tests use one routing function on small meshes",
  [BS + "routefunc.cpp", BS + "networks/"],
  [("routing functions", BS + "routefunc.cpp"), ("topology-specific routing", BS + "networks/")],
  [bs("routefunc.cpp"), bs("networks/", r"^[a-z_]+\w*\(|Route|route|find_"), bs("outputset")], ["factory_names"])

P("B09", "Topologies are wired as specified",
  "Each topology builder creates the number of routers, nodes and channels its parameters imply, connects every channel from one output port to one input port of the intended neighbours with matching flit and credit directions and latencies, and connects every node to its own router by one injection and one ejection channel.",
  ["configurations"],
  "all topologies and parameter values",
  "tests build meshes of a few sizes only",
  [BS + "networks/"],
  [("builders", BS + "networks/"), ("channel allocation", BS + "networks/network.cpp")],
  [bs("networks/", r"::"), bs("routers/router.cpp", "Add|NewRouter")], ["factory_names"])

P("B10", "Recycled flits, credits and replies start clean and are never shared",
  "An object taken from a recycling pool is not in use anywhere else and carries no field values from its earlier life, and releasing an object returns it to the pool exactly once. Freeing the pools releases every object exactly once.",
  ["histories"],
  "all sequences of allocation and release",
  "stale fields show only when a later use reads a field it did not set",
  [BS + "flit.cpp", BS + "credit.cpp", BS + "packet_reply_info.cpp", NOC + "sc_flit.cpp"],
  [("object pools", BS + "flit.cpp")],
  [bs("(flit|credit|packet_reply_info)\\.(c|h)pp"), noc("sc_flit.cpp")], ["pool_reset"])

P("B11", "Channels deliver everything in order after exactly their latency",
  "An item sent on a channel is delivered exactly once, in sending order, the configured number of cycles later, and no item is visible earlier. Injection, ejection and credit interfaces of a network move each flit or credit on the channel of the named node only, and each module is read, evaluated and written once per cycle.",
  ["histories", "configurations"],
  "all send sequences, latencies, nodes and subnetworks",
  "tests use unit latencies",
  [BS + "channel.hpp", BS + "flitchannel.cpp", BS + "pipefifo.hpp", BS + "networks/network.cpp"],
  [("delay queue", BS + "channel.hpp"), ("network interface", BS + "networks/network.cpp")],
  [bs("channel.hpp"), bs("flitchannel.cpp"), bs("pipefifo.hpp"), bs("timed_module.hpp"), bs("networks/network\\.", "Read|Write|Evaluate|Inputs|Outputs"), sim("radsim_utils.cpp", "GetSimTime")], [])

P("B12", "Network configuration files are parsed exactly or rejected",
  "Each assignment in a network configuration file or on the command line sets exactly the named, known parameter to the given value of its type, later assignments override earlier ones, and unknown parameters are an error. Reading a parameter returns the assigned value or its documented default, and every parameter the network code reads is a declared one.",
  ["inputs", "configurations"],
  "all configuration texts and parameters",
  "tests use a handful of generated files",
  [BS + "config_utils.cpp", BS + "booksim_config.cpp"],
  [("parameter tables", BS + "config_utils.cpp"), ("declarations and defaults", BS + "booksim_config.cpp")],
  [bs("config_utils"), bs("booksim_config.cpp"), bs("misc_utils.cpp")], ["booksim_keys"])

P("B13", "Synthetic traffic follows its pattern and rate",
  "Each traffic pattern sends from every source only to the destinations its definition gives, inside the network, and each injection process generates packets at its configured rate and burst structure. Pattern and process names select the corresponding implementation with its parameters, unknown names are rejected, and the same seed yields the same sequence.",
  ["inputs", "configurations"],
  "all patterns, node counts, parameters and seeds",
  "the stand-alone traffic generator is not run by the tests",
  [BS + "traffic.cpp", BS + "injection.cpp", BS + "random_utils.cpp", BS + "rng.c"],
  [("patterns", BS + "traffic.cpp"), ("injection", BS + "injection.cpp"), ("random numbers", BS + "rng.c")],
  [bs("traffic\\."), bs("injection"), bs("random_utils"), bs("rng")], ["factory_names"])

P("B14", "Stand-alone network statistics count every packet once",
  "In the stand-alone network simulator every generated packet is injected, tracked and retired exactly once, replies are generated for requests when configured, and latency, hop and throughput statistics are computed from the recorded times of exactly the measured packets and reported in their own columns and fields.",
  ["histories", "configurations"],
  "all traffic, classes, measurement phases and batch sizes",
  "the stand-alone simulator is not run by the tests",
  [BS + "trafficmanager.cpp", BS + "batchtrafficmanager.cpp", BS + "stats.cpp"],
  [("packet life cycle", BS + "trafficmanager.cpp"), ("statistics", BS + "stats.cpp")],
  [bs("(batch)?trafficmanager"), bs("stats"), bs("packet_reply_info"), bs("main.cpp")], [])

P("B15", "Event-driven and chaos routers conserve flits and credits",
  "The alternative router models forward every accepted flit exactly once to a permitted output, in order within its packet, and return exactly one credit for each buffer slot they free.",
  ["histories", "schedules"],
  "all traffic, radices and VC counts",
  "tests never select these routers",
  [BS + "routers/event_router.cpp", BS + "routers/chaos_router.cpp"],
  [("event router", BS + "routers/event_router.cpp"), ("chaos router", BS + "routers/chaos_router.cpp")],
  [bs("routers/(event|chaos)_router")], [])

P("B16", "Network activity and power figures come from the counted events",
  "Buffer and switch monitors count each read, write and traversal once under its own port and class, and the power and area report combines the counted activity of all channels and routers of the network with the configured technology values.",
  ["histories", "configurations"],
  "all traffic and technology files",
  "tests do not enable power estimation",
  [BS + "power/"],
  [("monitors", BS + "power/buffer_monitor.cpp"), ("report", BS + "power/power_module.cpp")],
  [bs("power/"), bs("module\\.")], [])

# ------------------------------------------------------------------ DRAMsim3
P("D01", "No memory command is issued before its timing constraints allow",
  "For every memory device, each issued command delays later commands to the same bank, other banks of the group, other groups, the rank and other ranks by at least the constraint the device's parameters define for that pair of commands. A command is issued only at or after all recorded constraints, including the activation window limits.",
  ["histories", "configurations"],
  "all command sequences and device files",
  "the device tests are not part of the stable set and reach few sequences",
  [D3 + "timing.cc", D3 + "channel_state.cc", D3 + "bankstate.cc", D3 + "configuration.cc"],
  [("constraint tables", D3 + "timing.cc"), ("constraint application", D3 + "channel_state.cc"), ("ready checks", D3 + "bankstate.cc")],
  [d3("timing.cc"), d3("channel_state.cc"), d3("bankstate.cc"), d3("configuration")], ["timing_tables"])

P("D02", "Bank state follows the command sequence",
  "A bank is open on exactly the row last activated and closed after precharge, auto-precharge or refresh; self refresh is entered and left only by its own commands. A request is turned into the command its bank's state requires next, and refresh requests are remembered until served.",
  ["histories"],
  "all command sequences",
  "the device tests reach few sequences",
  [D3 + "bankstate.cc", D3 + "channel_state.cc"],
  [("bank state machine", D3 + "bankstate.cc")],
  [d3("bankstate.cc"), d3("channel_state.cc"), d3("common.h")], ["cmd_switch"])

P("D03", "Each memory transaction completes exactly once via its callback",
  "Every transaction accepted by the memory model is completed by exactly one callback of its kind with its address, not before its latency has elapsed, and reads that hit pending writes complete without being lost. Transactions are refused, not dropped, when queues are full, and each reaches the channel its address selects.",
  ["histories", "inputs", "configurations"],
  "all request sequences, controllers, policies and systems",
  "the stable tests cover a single HMC case and single-word reads",
  [D3 + "controller.cc", D3 + "dram_system.cc", D3 + "memory_system.cc"],
  [("transaction queues", D3 + "controller.cc"), ("system front end", D3 + "dram_system.cc")],
  [d3("controller"), d3("dram_system"), d3("memory_system"), d3("common.h")], [])

P("D04", "Memory addresses decode to unique locations and geometry is consistent",
  "For each device file, the address decoder assigns every field its own bits in the configured order so that each address maps to one location and distinct addresses of the device to distinct locations. Derived sizes, masks and timings are computed from the file's values, and unknown or inconsistent settings stop the run.",
  ["inputs", "configurations"],
  "all addresses and device files",
  "tests use a few device files and addresses",
  [D3 + "configuration.cc", D3 + "memory_system.cc", D3 + "common.cc"],
  [("configuration and address decoding", D3 + "configuration.cc")],
  [d3("configuration"), d3("memory_system.cc"), d3("common\\.")], [])

P("D05", "Refresh is requested at its interval for every rank and bank",
  "Refresh is requested every configured interval, for every rank (all, or in turn) or bank in turn according to the policy, skipping only ranks in self refresh, and a pending refresh is served by closing and refreshing exactly the ranks or banks that asked for it before new accesses to them continue.",
  ["histories", "configurations"],
  "all policies, ranks, banks and traffic",
  "refresh intervals are longer than most tests look at and are not checked",
  [D3 + "refresh.cc", D3 + "channel_state.cc", D3 + "command_queue.cc"],
  [("refresh generator", D3 + "refresh.cc"), ("pending refresh", D3 + "channel_state.cc"), ("refresh servicing", D3 + "command_queue.cc")],
  [d3("refresh.cc"), d3("channel_state.cc"), d3("command_queue.cc"), d3("controller.cc")], [])

P("D06", "Memory statistics count each event once under a declared name",
  "Each issued command and completed request increments exactly the counters that describe it, every statistic that is updated is declared, epoch figures are reset each epoch while totals accumulate, and derived figures are computed from the declared counters and the configured energies.",
  ["histories", "configurations"],
  "all command sequences and epochs",
  "tests do not look at the statistics",
  [D3 + "simple_stats.cc", D3 + "controller.cc"],
  [("statistics", D3 + "simple_stats.cc")],
  [d3("simple_stats"), d3("controller"), d3("dram_system.cc", "Stats")], ["stat_names"])

P("D07", "Memory scheduling respects queue order and data hazards",
  "Within a command queue, an older request to the same bank and row is never overtaken by a younger one it conflicts with, row hits are preferred only as the policy permits, and a row with pending hits is not closed for a miss beyond the configured cap. A write and a read to the same address are never reordered so that the read misses the write.",
  ["histories", "schedules"],
  "all request sequences and scheduling policies",
  "the tests do not create the conflicts",
  [D3 + "command_queue.cc", D3 + "controller.cc"],
  [("queue scan", D3 + "command_queue.cc"), ("transaction scheduling", D3 + "controller.cc")],
  [d3("command_queue.cc"), d3("controller.cc")], [])

P("D08", "The stacked-memory model routes every request and response",
  "In the hybrid memory cube model every accepted request crosses its link to the vault its address selects and its response returns on the same link, each taking the number of link cycles its packet length implies, with exactly one callback per request.",
  ["histories", "inputs"],
  "all request types, links and traffic",
  "one smoke test",
  [D3 + "hmc.cc"],
  [("links, crossbar, vaults", D3 + "hmc.cc")],
  [d3("hmc.cc"), d3("controller.cc")], [])

# ------------------------------------------------------------------ example designs
P("E01", "On-chip storage of the designs keeps data intact",
  "Every FIFO of the example designs delivers the stored items exactly once and in order, reports empty, full and almost-full according to its occupancy and depth, and flags any overflow or underflow. Register files and pipelines return the value last written to the address, or the value entered the configured number of stages earlier.",
  ["histories", "schedules"],
  "all push/pop interleavings, depths and widths",
  "the designs' flow control keeps the storage away from its corner cases",
  [EX + "*/modules/fifo.cpp", EX + "*/modules/register_file.cpp", EX + "npu/modules/instruction_fifo.cpp"],
  [("FIFOs", EX + "*/modules/*fifo*.cpp"), ("register files, pipelines", EX + "*/modules/register_file.cpp")],
  ds(r"modules/(\w*fifo|afifo|axis_fifo_adapters|\w*register_file|pipeline)\.(c|h)pp"), ["fifo_shape"])

P("E02", "Design drivers give an honest verdict",
  "Each example driver feeds the whole stimulus in order under backpressure, compares every received result with the golden result at the same position, reports failure if any differs, and declares the design done only after all expected results arrived.",
  ["inputs", "schedules"],
  "all stimuli, mismatching positions and timings",
  "in a passing run the failure path is never taken",
  [EX + "*/*_driver.cpp", EX + "*/*_system.cpp"],
  [("drivers", EX + "*/*_driver.cpp")],
  ds(r"[^/]*(driver|system)\.cpp"), ["driver_verdict"])

P("E03", "Example design modules lose no data between their handshakes",
  "Each module of the example designs consumes a beat exactly when valid and ready are both high, holds an offered beat until it is taken, sends every result to its configured destination exactly once, and computes results from the operands it consumed, in order.",
  ["inputs", "schedules"],
  "all stimuli and backpressure patterns",
  "one stimulus and one timing per design",
  [EX + "*/modules/"],
  [("module processes", EX + "*/modules/*.cpp")],
  ds(r"modules/(?!(\w*fifo|afifo|axis_fifo_adapters|\w*register_file|pipeline|instructions|sim_utils|decoders)\.)\w+\.(c|h)pp"), ["process_discipline"])

P("E04", "Instructions are packed, decoded and dispatched field by field",
  "Packing an instruction and unpacking it again yields the same fields, fields do not overlap and fit their container, and each decoder forwards every field to the unit that uses it, once per issued instruction and in program order.",
  ["inputs", "programs"],
  "all instruction field values and programs",
  "tests run one program per design",
  [EX + "*/modules/instructions.cpp", EX + "npu/modules/decoders.cpp"],
  [("instruction formats", EX + "*/modules/instructions.cpp"), ("decoders", EX + "npu/modules/decoders.cpp")],
  ds(r"modules/(instructions|decoders|axis_inst_dispatch|inst_loader)\.(c|h)pp", which=DESIGNS[2:]), ["field_offsets"])

P("E05", "Vector data types and stimulus helpers preserve values",
  "The vector types and conversion helpers of the designs copy, compare, concatenate, slice and print every element at its own index with its own width, and read stimulus and golden files element by element without dropping or repeating values.",
  ["inputs"],
  "all vector lengths, element types and file contents",
  "tests use one length and value set per design",
  [EX + "*/modules/sim_utils.cpp"],
  [("vector types", EX + "*/modules/sim_utils.cpp")],
  ds(r"modules/sim_utils\.(c|h)pp", which=DESIGNS[2:]), [])

P("E06", "Design tops instantiate and connect every unit",
  "Each design's top level creates every unit its parameters call for exactly once with its own identifiers, connects each unit's clock, reset and data signals to the matching ones of its neighbours, registers the design's external ports, and builds the network context once.",
  ["configurations", "programs"],
  "all units, layers and parameter values of each design",
  "one parameter set per design",
  [EX + "*/*_top.cpp"],
  [("top-level constructors", EX + "*/*_top.cpp")],
  ds(r"[^/]*(top|system)\.(c|h)pp"), [])

# ------------------------------------------------------------------ tools
P("S01", "Wrapper generation maps every RTL port to the right signal",
  "For each RTL module the port-mapping generator lists every port with its direction and width and assigns ports to the streaming or memory-mapped interface and role that their names and directions imply. The wrapper generator accepts only complete, consistent mappings and produces code that declares, connects, registers and clocks exactly the listed ports.",
  ["inputs", "programs"],
  "all Verilog sources and mapping files",
  "the Python tests use a few small modules",
  ["rad-sim/scripts/generate_port_mappings.py", "rad-sim/scripts/generate_wrapper.py"],
  [("port mapping", "rad-sim/scripts/generate_port_mappings.py"), ("wrapper", "rad-sim/scripts/generate_wrapper.py")],
  [("py:scripts", "generate_(port_mappings|wrapper).py", ANY)], [])

P("S02", "The Verilog reader extracts modules, parameters and ports faithfully",
  "The Verilog reader returns every module of a source with all its parameters and ports in declaration order, each with the mode and data type declared for it, ignoring comments, and an array file-type check and vector check answer according to the text.",
  ["inputs"],
  "all Verilog sources in the supported subset",
  "a few small sources",
  ["rad-sim/scripts/verilog_parser.py", "rad-sim/scripts/minilexer.py"],
  [("lexer and parser", "rad-sim/scripts/verilog_parser.py")],
  [("py:scripts", "(minilexer|verilog_parser).py", ANY)], [])

P("S03", "Reporting tools show the data in the files they read",
  "The plotting and placement-visualisation tools draw each recorded trace and each placed module at the position, time and label given in the files they read.",
  ["inputs"],
  "all trace and placement files",
  "not covered by tests",
  ["scripts/plot.py", "scripts/visualize_placement.py"],
  [("tools", "scripts/plot.py")],
  [("py:tools", ANY, ANY)], [])

P("Q01", "A simulation is determined by its inputs",
  "Two runs of the simulator with the same configuration, design inputs and seed execute the same cycle-by-cycle behaviour: no simulated decision depends on wall-clock time, process identity, memory addresses, uninitialised state or unordered container order.",
  ["inputs", "schedules", "configurations"],
  "all runs",
  "two runs on one machine may agree by luck",
  ["rad-sim/sim", "rad-sim/example-designs"],
  [("seeding", BS + "random_utils.cpp"), ("pools and maps", BS)],
  [bs("random_utils"), bs("rng")], ["determinism", "init_fields"])

NOT_APPLICABLE = [
    ("X01", "Deadlock freedom of the whole network", "The network delivers every injected packet eventually: no reachable combination of held virtual channels and waiting packets blocks all of them for ever.",
     ["histories", "schedules", "configurations"], "all traffic and configurations",
     "absence of cyclic waits depends on the run-time topology, routing relation and VC counts read from configuration files; the static rules decide the local premises (class partition, routing step, credit accounting) under B01-B09 but no sound static argument in reach closes the global one"),
    ("X02", "Simulated latencies and bandwidths match the modelled hardware", "Cycle counts, latencies and bandwidths reported for a workload equal those of the modelled hardware within the documented accuracy.",
     ["inputs", "configurations"], "all workloads", "a quantitative statement about run-time behaviour against external hardware; nothing in the source states the expected numbers"),
    ("X03", "Example designs compute numerically correct results", "The results an example design produces for a stimulus equal the golden results computed by its compiler scripts.",
     ["inputs"], "all stimuli", "end-to-end numerical equality quantifies over run-time data and generated stimulus files; the per-module computation is covered by E03-E05, the composition is a run-time fact"),
]
