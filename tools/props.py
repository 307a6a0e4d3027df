"""The properties and how each is decided.  `gen.py` writes properties.jsonl and MANIFEST.json from this file."""
# unit -> spec files; `+name`: the unit only uses the contracts of that file (they are discharged in the unit that owns it)
UNITS = {
    "time": ["prelude", "time"],
    "view": ["prelude", "+time", "world", "view"],
    "recv": ["prelude", "+time", "world", "+view", "chan", "recv"],
    "send": ["prelude", "+time", "world", "+view", "chan", "+recv", "send"],
    "handle": ["prelude", "+time", "world", "+view", "chan", "+recv", "+send", "handle"],
    "events": ["prelude", "+time", "world", "+view", "chan", "+recv", "+send", "+handle", "events"],
    "ctxs": ["prelude", "+time", "world", "+view", "chan", "+recv", "+send", "+handle", "frame", "ctxs"],
    "pcu": ["prelude", "+time", "world", "+view", "chan", "+recv", "+send", "+handle", "frame", "pcu"],
    "ids": ["prelude", "ids"],
    "types": ["prelude", "types"],
    "build": ["prelude", "build"],
    "store": ["prelude", "+time", "store"],
    "dram": ["prelude", "+time", "+store", "world", "+view", "chan", "+recv", "+send", "+handle", "+events", "+frame", "ports", "dram"],
    "pmu": ["prelude", "+time", "+store", "world", "+view", "chan", "+recv", "+send", "+handle", "+events", "+frame", "ports", "pmu"],
    "infer": ["prelude", "+build", "infer"],
    "wires": ["prelude", "+time", "world", "+view", "chan", "+recv", "+send", "+handle", "wires"],
    "outcome": ["prelude", "+time", "outcome"],
    "asm": ["prelude", "asm"],
    "adapt": ["prelude", "+time", "world", "+view", "chan", "+recv", "+send", "+handle", "adapt"],
}

# the units whose contracts a unit builds on
DEPS = {"view": ["time"], "recv": ["view"], "send": ["view", "recv"], "handle": ["recv", "send"], "events": ["handle"], "ctxs": ["handle"], "pcu": ["handle"], "adapt": ["handle"], "outcome": ["time"], "asm": [], "infer": ["build"], "store": ["time"], "pmu": ["store", "events", "ctxs"], "dram": ["store", "events", "ctxs"], "wires": ["handle"]}


def closure(us):
    out = []
    def go(u):
        for d in DEPS.get(u, []):
            go(d)
        if u not in out:
            out.append(u)
    for u in us:
        go(u)
    return out


T, V, C = "src/datastructures/time.rs", "src/view/", "src/channel/"
TIME = [T + "::<Time>", T + "::<.* for Time>"]
CELL = [T + "::<AtomicTime>"]
P = []


def prop(id, title, statement, over, text, why, files, mech, units=(), primary=(), support=(), fams=(), level="proof",
         note="", observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  units=list(units), primary=list(primary), support=list(support), fams=list(fams), level=level,
                  note=note, observe=list(observe), state=list(state), hook=hook))


prop("C01", "Simulated time is totally ordered, infinity is last, arithmetic is exact",
     "Comparing, equating and taking the maximum or minimum of two simulated times agrees with comparing integers extended by one infinity: "
     "infinity equals itself and is later than every finite time, whatever its internal payload. Adding or subtracting cycles "
     "(by operator or in place, with an integer or another time) is exact integer arithmetic on finite times, and a sum is infinite exactly when an operand is.",
     ["inputs"], "all pairs and triples of times, including infinite ones with arbitrary payloads, and all cycle counts that do not overflow 64 bits",
     "the unit tests compare a dozen hand-picked times; the order laws and exactness must hold for all 2^130 pairs",
     [T], [("Time::cmp / Ord / PartialOrd / PartialEq", T), ("Add, AddAssign, Sub", T)],
     units=["time"], primary=TIME, fams=["time"], observe=["comparison and arithmetic operators of the public time type"])

prop("C02", "A context's clock only moves forward, and exactly as asked",
     "Advancing a clock to a time leaves it at the later of the two; incrementing it by n adds exactly n; no operation moves it backwards. "
     "When a context ends (its time manager is dropped or cleaned up), its clock reads infinite for every observer, and the finishing time it had stays readable as the elapsed time.",
     ["histories", "inputs"], "every sequence of advance/increment/read/end operations with any arguments below the overflow horizon",
     "tests only drive clocks through a few fixed channel programs",
     [T, V + "basic.rs"], [("AtomicTime::try_advance / incr_cycles / set_infinite", T), ("TimeManager::advance / incr_cycles / tick / cleanup", V + "basic.rs")],
     units=["view"], primary=CELL + [V + "basic.rs::<TimeManager>", V + "basic.rs::<Drop for TimeManager>"], fams=["clock", "view"],
     observe=["tick(), advance(), incr_cycles() of a time manager; views of it"])

prop("C03", "Reading or waiting on another context's clock is sound",
     "Waiting for another context to reach a time returns only after its clock is at least that time (or it has ended), and the time returned is at least the requested one and one its clock had really reached. "
     "A lower bound read from another clock never exceeds what that clock had reached, and everything the other context did before reaching a reported time is visible to the one who was told it.",
     ["schedules", "histories"], "every interleaving of any number of observers with the observed context, every requested time",
     "the relaxed/acquire races that could return a stale or future time need particular interleavings; the tests run one uncontrolled schedule",
     [V + "basic.rs", V + "mod.rs", T], [("BasicContextView::wait_until / tick_lower_bound", V + "basic.rs"), ("AtomicTime acquire loads", T)],
     units=["view"], primary=[V + "basic.rs::<ContextView for BasicContextView>", V + "mod.rs", T + "::<AtomicTime>::load"],
     support=CELL + [V + "basic.rs::<TimeManager>"], fams=["view"], observe=["wait_until(), tick_lower_bound() of a view"])

prop("C04", "No wake-up is lost: whoever waits for a clock is released",
     "A context that waits for another context's clock to reach a time is released once that clock reaches the time or its context ends, "
     "no matter how registering the wait and moving the clock interleave; several contexts may wait on the same clock for different times, and each is released at its own.",
     ["schedules"], "every interleaving of waiters with the advancing context, any number of waiters and times, in any registration order",
     "a lost wake-up needs the clock to move between a waiter's check and its registration; the tests never force that",
     [V + "basic.rs"], [("check under the signal lock before parking", V + "basic.rs::wait_until"), ("waking due registrations after every clock move", V + "basic.rs::scan_and_write_signals")],
     units=["view"], primary=[V + "basic.rs::<TimeManager>", V + "basic.rs::<Drop for TimeManager>", V + "basic.rs::<ContextView for BasicContextView>::wait_until"],
     support=CELL, fams=["view"], note="Safety form of the wake-up guarantee (each clock move leaves no due registration behind; a waiter registers only while the clock is short of its time, under the lock); that an unparked thread eventually runs is the scheduler's.",
     observe=["wait_until() returns"])

prop("C05", "A composite context is only as far as its slowest part",
     "The clock of a context made of several parts is seen by others as the least of its parts' clocks: a lower bound on it is a lower bound on every part, "
     "and waiting for it to reach a time returns only when every part has, with a time no later than what all of them reached.",
     ["schedules", "inputs"], "any number and nesting of parts, any interleaving of their clocks",
     "only one test has a two-part context, with one schedule",
     [V + "parent.rs"], [("ParentView::wait_until / tick_lower_bound", V + "parent.rs")],
     units=["view", "asm"], primary=[V + "parent.rs", V + "mod.rs", "src/context/proxy.rs::<TimeViewable", "src/templates/pmu.rs::<TimeViewable"], support=[V + "basic.rs::<ContextView for BasicContextView>"], fams=["parent"],
     observe=["wait_until(), tick_lower_bound() of a composite view"])

prop("C06", "A sent element carries its due time, in order, exactly once",
     "A successful send puts exactly one element on the channel, after all earlier ones, with the data unchanged and stamped with the later of the time asked for and the sender's clock plus the channel latency. "
     "A failing send puts nothing on the channel and reports that the other side is gone. A channel to nowhere accepts every send without effect on the clock.",
     ["histories", "inputs", "configurations"], "every history of sends on every kind of channel, all latencies and requested times",
     "tests use latency 1 and in-order requested times only",
     [C + "sender/mod.rs", C + "sender/bounded.rs", C + "sender/unbounded.rs", C + "sender/void.rs"],
     [("SenderCommon::enqueue", C + "sender/mod.rs"), ("ChannelElement::update_time", C + "mod.rs")],
     units=["send"], primary=[C + "sender/", C + "mod.rs::<ChannelElement>", C + "channel_spec.rs::<InlineSpec>"], fams=["chan", "wire"],
     observe=["enqueue() results; elements seen by the receiving side"])

prop("C07", "A bounded channel never exceeds its capacity; sends wait just until space frees",
     "A bounded channel of capacity c accepts the n-th element only after the receiver has freed element n-c, and the sender's clock then is the later of its own and the time that element's release reached it. "
     "Waiting for space any number of times before a send neither uses up nor creates space. Sending fails rather than waiting when the receiver ended without freeing the space.",
     ["histories", "schedules", "inputs"], "every history of waits and sends, all capacities and latencies, both channel implementations",
     "the tests never wait for space separately from sending, and use one capacity",
     [C + "sender/bounded.rs"], [("credit counting against responses", C + "sender/bounded.rs"), ("SenderCommon::enqueue", C + "sender/mod.rs")],
     units=["send"], primary=[C + "sender/bounded.rs", C + "sender/mod.rs"], support=[C + "channel_spec.rs::<InlineSpec>"], fams=["back", "chan"],
     observe=["sender clock and results of wait_until_available()/enqueue() under back-pressure"])

prop("C08", "Elements are received once, in order, unchanged, at their time",
     "Each dequeue returns the next element not yet dequeued, with the data and stamp it was sent with, and leaves the receiver's clock at the later of its own and that stamp. "
     "The end of the channel is reported exactly when every element was taken and the sender has ended; peeking in between changes none of this.",
     ["histories", "schedules"], "every history of peeks, peek-nexts and dequeues against every sender behaviour, both implementations",
     "interleavings of peek variants with dequeues, and closing races, are not exercised by the tests",
     [C + "receiver/mod.rs", C + "receiver/acyclic.rs", C + "receiver/cyclic.rs"],
     [("AcyclicReceiver / CyclicReceiver dequeue and peek_next", C + "receiver/acyclic.rs, " + C + "receiver/cyclic.rs"), ("cached head", C + "receiver/mod.rs")],
     units=["recv"], primary=[C + "receiver/", C + "mod.rs::<TryInto"], fams=["chan", "peek"],
     observe=["dequeue(), peek_next() results and the receiver's clock"])

prop("C09", "A peek never misreports the future of a channel",
     "A non-consuming look at a channel answers with the next element, or that it is closed, or with a time at least the receiver's own clock up to which nothing can arrive any more: every later element is stamped after it. "
     "It never moves the receiver's clock and never loses an element.",
     ["schedules", "histories"], "every interleaving of the peek with the sender's sends and clock moves",
     "a wrong answer needs the sender to send and advance between two of the peek's reads",
     [C + "receiver/mod.rs"], [("tick bound taken before the queue is re-read", C + "receiver/mod.rs::peek")],
     units=["recv"], primary=[C + "receiver/mod.rs"], support=[C + "channel_spec.rs::<InlineSpec>", C + "receiver/"], fams=["peek", "chan"],
     observe=["peek() results"])

prop("C10", "Taking an element frees its place, seen by the sender after the response latency",
     "Taking an element from a bounded channel frees one place, exactly once per element and never by peeking, and the sender sees it at the receiver's clock at that moment plus the channel's response latency.",
     ["histories", "inputs"], "every history of peeks and dequeues, all latencies, both implementations",
     "tests leave the response latency at one and rarely fill a channel",
     [C + "receiver/mod.rs", C + "receiver/acyclic.rs", C + "receiver/cyclic.rs"], [("Responsive::register_recv", C + "receiver/mod.rs")],
     units=["recv"], primary=[C + "receiver/"], fams=["back", "chan"], observe=["sender clock after back-pressure"])

prop("C11", "Which channel implementation is chosen does not change simulated results",
     "For the same program, the values, stamps, errors and clocks that channel operations produce are the same whether a channel runs with the general (cyclic) or the optimised (acyclic) implementation.",
     ["programs", "configurations", "schedules"], "every acyclic channel and every history of operations on it",
     "two tests run one program under both settings",
     [C + "receiver/", C + "sender/bounded.rs"], [("both implementations", C + "receiver/acyclic.rs, cyclic.rs; " + C + "sender/bounded.rs")],
     units=["recv", "send"], primary=[C + "receiver/", C + "sender/"], support=[C + "channel_spec.rs::<InlineSpec>"], fams=["chan", "back"],
     note="Both implementations discharge one and the same postcondition, which determines results and clocks from the channel's history.",
     observe=["results and clocks with inference on and off"])

prop("C12", "A channel behaves as it was created and as its ends were attached",
     "A channel has exactly the capacity and the two latencies it was created with (latency one where none was given; zero is refused), reports the contexts attached to its two ends, "
     "and each end, from its first use on, works against the other end's context and with the implementation chosen for the channel.",
     ["configurations", "inputs"], "all capacities, latencies, ends and implementation choices",
     "tests create channels with default latency and one or two capacities",
     [C + "channel_spec.rs", C + "handle.rs", C + "mod.rs", "src/simulation/building.rs"],
     [("ChannelSpec::new / attach_*", C + "channel_spec.rs"), ("ChannelData::set_flavor", C + "handle.rs")],
     units=["wires"], primary=[C + "channel_spec.rs::<ChannelSpec>", C + "handle.rs", C + "sender/uninitialized.rs::<Un", C + "receiver/uninitialized.rs::<Un", "src/simulation/building.rs"],
     support=[C + "mod.rs"], fams=["wire", "chan"], observe=["timing and capacity of a created channel; attached endpoint ids"])

prop("C13", "Using a channel end before initialisation or after its end is refused",
     "Sending, waiting, peeking or dequeuing on a channel end before the program is initialised, or after that end was given up, is refused visibly and never produces, loses or invents an element. "
     "Dropping an end lets the other side observe the closing: pending elements stay receivable and then the channel reads closed.",
     ["histories"], "every operation on every state of a channel end",
     "no test uses a channel outside its normal life",
     [C + "sender/uninitialized.rs", C + "sender/terminated.rs", C + "receiver/uninitialized.rs", C + "receiver/terminated.rs", C + "mod.rs"],
     [("uninitialised / terminated ends", C + "sender/, receiver/"), ("Drop for Sender / Receiver", C + "mod.rs")],
     units=["handle"], primary=[C + "sender/uninitialized.rs::<SenderFlavor", C + "receiver/uninitialized.rs::<ReceiverFlavor", C + "receiver/terminated.rs", C + "sender/terminated.rs",
                                C + "mod.rs::<Sender>", C + "mod.rs::<Receiver>", C + "mod.rs::<Drop", C + "sender/mod.rs::<SenderFlavor for SenderImpl>", C + "receiver/mod.rs::<ReceiverFlavor for ReceiverImpl>"],
     fams=["dead"], observe=["panics / errors of the operations; what the other side receives"])

prop("C14", "Combining channel events reports the right next event",
     "The next event of a channel is its next element's time, or the time up to which nothing arrives, or never; events order by when they can first happen, ready ones before those not known to be. "
     "The event of all of several is ready only when each is, at the latest of their times, otherwise not before the latest possible; the event of any of several is the earliest; never is last.",
     ["inputs", "schedules"], "all lists of events, of any length and kind",
     "the repository's tests only look at single channels",
     [C + "utils.rs"], [("EventTime order, both", C + "utils.rs"), ("EventAll / EventAny", C + "utils.rs")],
     fams=["events"], units=["events"], primary=[C + "utils.rs"], support=[C + "mod.rs::<Receiver>"], observe=["next_event() of channels and combinations"])

prop("C15", "A datastore read returns the last value written up to its time",
     "Reading an address at a time yields the value of the latest write to that address no later than that time, however far writes run ahead; with none, the default value or a refusal as configured. "
     "Addresses beyond the capacity wrap around or are refused as configured, a write not later than the address's last one is refused, and no write changes what an earlier-timed read returns or another address.",
     ["histories", "inputs"], "every history of reads and writes at any addresses and times, all configurations",
     "the tests read every address once, after it was written",
     ["src/templates/datastore.rs"], [("Datastore::read / write / safe_addr", "src/templates/datastore.rs")],
     units=["store"], primary=["src/templates/datastore.rs"], fams=["store"], observe=["read() results and refusals"])

prop("C16", "A DRAM bank serves requests with its latency, bandwidth and window limits",
     "Requests are served in the order they become complete; a request's transfer starts at the later of its arrival plus the latency and the end of the previous transfer, and lasts size over bandwidth. "
     "Reads return the values held at their time, one element per cycle after the transfer; a write is acknowledged one cycle after it takes effect; at most the configured number of requests are outstanding.",
     ["programs", "inputs"], "all request streams, sizes, configurations and port counts",
     "one test with one reader, one writer and one request size",
     ["src/templates/dram.rs"], [("DRAM::run", "src/templates/dram.rs")],
     units=["dram", "asm"], primary=["src/templates/dram.rs"], support=["src/templates/datastore.rs"], fams=["dram"], observe=["times and values on the data and acknowledgement channels"], hook="dam_verif: public constructors for the bundles and the configuration")

prop("C17", "A memory unit serves reads and writes at their times and in order",
     "Each write takes effect at the time its address and data are both there, and is then acknowledged; each read is answered once, at its own time, with the last value written to that address at an earlier time. "
     "Reads and writes each take one cycle and are served in order of their times, independently of each other and of the schedule.",
     ["programs", "schedules", "inputs"], "all request streams on any number of ports, every schedule; reads at the very cycle of a write to the same address excepted (either value)",
     "one test reads each address after its acknowledgement, on one port",
     ["src/templates/pmu.rs", "src/templates/datastore.rs"], [("ReadPipeline::run, WritePipeline::run", "src/templates/pmu.rs")],
     units=["pmu", "asm"], primary=["src/templates/pmu.rs"], support=["src/templates/datastore.rs", "src/context/proxy.rs"], fams=["pmu", "rmw"], observe=["values and times on the response and acknowledgement channels"])

prop("C18", "A pipeline unit computes its stages on every input, in order, with its latency",
     "For each set of inputs a pipeline unit puts out, in order, the result of passing the registers through its configured stages, missing stages passing registers on unchanged, stamped the pipeline depth after the inputs were there; one set per cycle. "
     "It ends when an input ends, and more stages than its depth are refused.",
     ["programs", "inputs"], "all stage configurations, depths, register maps and input streams",
     "one test with two fixed stages",
     ["src/templates/pcu.rs"], [("PipelineStage::run, PCU::run", "src/templates/pcu.rs")],
     units=["pcu", "asm"], primary=["src/templates/pcu.rs"], fams=["pcu"], observe=["outputs and their stamps"])

prop("C19", "A broadcast delivers every element to every target at one time",
     "Every element of the input appears exactly once, in input order, on each target, all copies with the same data and leaving in the same cycle, once all targets have room; when the input ends the broadcast ends.",
     ["histories", "schedules", "configurations"], "any number of targets with any capacities and latencies, any input",
     "the test checks data only, with equal targets",
     ["src/utility_contexts/broadcast_context.rs"], [("BroadcastContext::run_falliable", "src/utility_contexts/broadcast_context.rs")],
     fams=["bcast"], units=["ctxs", "asm"], primary=["src/utility_contexts/broadcast_context.rs"], support=[C + "mod.rs::<Sender>", C + "mod.rs::<Receiver>"], observe=["elements and stamps on the targets"])

prop("C20", "Generators and traces emit exactly their iterator, at the stated times",
     "A generator sends exactly the iterator's values in order, one per cycle; a trace sends each value so that it arrives no earlier than its given time, never before an earlier one, and several may share a cycle. "
     "Both end with an error when the receiving side is gone, and running one twice is an error.",
     ["inputs", "histories"], "all iterators and trace times, including time zero and out-of-order ones",
     "tests use short integer ranges and increasing times",
     ["src/utility_contexts/generator_context.rs", "src/utility_contexts/trace_context.rs"], [("GeneratorContext / TraceContext run_falliable", "src/utility_contexts/")],
     fams=["gen"], units=["ctxs", "asm"], primary=["src/utility_contexts/generator_context.rs", "src/utility_contexts/trace_context.rs"], observe=["elements and stamps on the output; result of the run"])

prop("C21", "A checker passes exactly when the channel carries the expected elements",
     "A checker succeeds exactly when the channel delivers, in order, at least as many elements as expected and each equals (or, for the approximate one, satisfies the given relation to) its expected value. "
     "A mismatch or an early end of the channel is an error, at that element; running one twice is an error.",
     ["inputs"], "all expected sequences, delivered sequences and relations",
     "the tests only run checkers that should pass",
     ["src/utility_contexts/checker_context.rs", "src/utility_contexts/approx_checker_context.rs"], [("CheckerContext / ApproxCheckerContext run_falliable", "src/utility_contexts/")],
     fams=["check"], units=["ctxs", "asm"], primary=["src/utility_contexts/checker_context.rs", "src/utility_contexts/approx_checker_context.rs"], observe=["result of the run"])

prop("C22", "Consumers drain their channel; function contexts run their function once",
     "A consumer takes every element of its channel, one per cycle, and ends when the channel does. "
     "A function context runs its function exactly once, against its own clock; without one, or run again, it reports an error.",
     ["inputs", "histories"], "all channel contents; all uses of a function context",
     "no test checks how much is drained or that a second run fails",
     ["src/utility_contexts/consumer_context.rs", "src/utility_contexts/function_context.rs"], [("run / run_falliable", "src/utility_contexts/")],
     fams=["consume"], units=["ctxs", "asm"], primary=["src/utility_contexts/consumer_context.rs", "src/utility_contexts/function_context.rs"], observe=["elements taken, clock, result of the run"])

prop("C23", "Initialisation accepts exactly well-connected programs",
     "Initialising a program succeeds exactly when every channel has a sending and a receiving context (channels to nowhere: a sender) and all of these, composite parts included, are part of the program; "
     "otherwise it names a channel end that is not connected or a context that is missing. On success every context of the program has been initialised exactly once.",
     ["programs"], "all program graphs, including composite contexts and channels to nowhere",
     "the tests only build valid programs",
     ["src/simulation/programdata.rs", "src/simulation/building.rs"], [("ProgramData::check", "src/simulation/programdata.rs"), ("ProgramBuilder::initialize", "src/simulation/building.rs")],
     units=["infer", "asm"], primary=["src/simulation/programdata.rs", "src/templates/pmu.rs::<Context for PMU>::ids", "src/context/mod.rs::<trait Context>::ids", "src/simulation/building.rs::<ProgramBuilder>::initialize#once("], support=["src/simulation/building.rs", "src/datastructures/identifier.rs::<trait Identifiable>"], fams=["prog", "init"],
    note="Identifiers of different contexts are distinct (C21).", observe=["result of initialize()"])

prop("C24", "Inference picks the optimised channels only where no cycle runs through them",
     "With inference on, a channel gets the optimised implementation only if no path of channels and contexts leads from it back to itself (contexts that report their own input-to-output connections count with these), "
     "and the general one otherwise; with inference off all get the general one.",
     ["programs"], "all program graphs and reported connections",
     "two tests use one acyclic pipeline",
     ["src/simulation/building.rs"], [("strongly connected components of the channel graph", "src/simulation/building.rs::initialize")],
     units=["infer", "asm"], primary=["src/simulation/building.rs::<ProgramBuilder>::initialize!once(", "src/templates/pmu.rs::<Context for PMU>::edge_connections", "src/context/mod.rs::<trait Context>::edge_connections"], support=["src/simulation/programdata.rs"], fams=["infer"],
    note="petgraph's graph and strongly connected components are used by their contract; maps iterate in any order, which the proof does not use.",
    observe=["no deadlock and same results with inference on; debug view of channels"])

prop("C25", "A run reports exactly which contexts failed and how long it took",
     "After a run, the program counts as passed exactly when no context returned an error (a panic of a body that cannot return errors counts as one), each failing context is reported exactly once with its own identifier and error, and the elapsed cycles are the latest finishing time among the contexts that succeeded, parts of composite ones included.",
     ["programs", "fault_sequences", "schedules"], "all programs and all sets of failing contexts",
     "one test has one failing context",
     ["src/simulation/initialized.rs", "src/simulation/executed.rs", "src/context/mod.rs", "src/context/summary.rs"],
     [("Initialized::run", "src/simulation/initialized.rs"), ("elapsed_cycles / passed", "src/simulation/executed.rs"), ("ContextSummary::max_time", "src/context/summary.rs"), ("run_falliable shim", "src/context/mod.rs")],
     units=["outcome", "asm"], primary=["src/simulation/executed.rs", "src/simulation/initialized.rs", "src/context/", "src/templates/pmu.rs::<Context for PMU>::summarize", "src/templates/pmu.rs::<Context for PMU>::run"], support=TIME,
     fams=["outcome"], note="Threads are run one after the other in the proof of run() (they only append to the two result queues); what a context's body ends with is an arbitrary fact of the execution.",
     observe=["passed(), run_failures(), elapsed_cycles()"])

prop("C26", "Context and channel identifiers are unique",
     "No two contexts, and no two channels, created anywhere in the process ever get the same identifier, also when created concurrently.",
     ["schedules", "histories"], "every interleaving of creations on any number of threads",
     "tests create a handful of contexts on one thread",
     ["src/datastructures/identifier.rs", C + "channel_id.rs"], [("atomic fetch_add counters", "src/datastructures/identifier.rs, " + C + "channel_id.rs")],
     fams=["ids"], units=["ids"], primary=["src/datastructures/identifier.rs", C + "channel_id.rs", C + "channel_spec.rs"], observe=["ids of contexts and channels"])

prop("C27", "Data types report their exact size; conversions at channels keep data and time",
     "Each built-in data type reports its width in bits, a pair the sum of its parts, an array its element count times the element width. "
     "Sending or receiving through a converting adapter transfers the converted value with the same stamp, at the same time, and reports closing and emptiness like the channel itself.",
     ["inputs", "configurations"], "all built-in types, nestings and shapes; all elements",
     "tests check two pair types and one matrix shape, and never use an adapter",
     ["src/types/scalar.rs", "src/types/tensor.rs", "src/types/mod.rs", C + "adapters.rs", C + "mod.rs"],
     [("StaticallySized::SIZE, dam_size", "src/types/"), ("RecvAdapter, SendAdapter, convert", C + "adapters.rs")],
     units=["types", "adapt"], primary=["src/types/", C + "adapters.rs", C + "mod.rs::<ChannelElement>::convert", C + "mod.rs::<ChannelElement>::try_convert"],
     support=[C, V] + TIME,
     fams=["types"], note="The element count of an array (ndarray) and the user's conversions are external; conversions are taken to be functions of the value.",
     observe=["dam_size(); elements through an adapter"])

# ------------------------------------------------------------------ not claimed
NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason, observe=[], state=[], hook=None))


na("C90", "Well-formed programs terminate",
   "A program without circular waiting among its contexts, given enough channel capacity, runs to completion under every schedule.",
   ["programs", "schedules"], "all programs without circular waits, all schedules", "liveness over all schedules cannot be sampled",
   [C, V], [("park/unpark, blocking channel reads", V + "basic.rs")],
   "whole-program liveness: contracts of this family are partial-correctness statements per call; the safety half (no lost wake-up) is C04")
na("C91", "A simulation's outcome is independent of the thread schedule",
   "Two runs of the same deterministic program produce the same stamps, values and finishing times.",
   ["programs", "schedules"], "all programs whose contexts are deterministic functions of what they receive", "a relation between two whole runs",
   [C, V], [("history-determined channel operations", C)],
   "a relation between two executions of the whole program; the per-operation half (results and clocks are functions of the channel histories) is part of the contracts behind C06-C11, the composition over unbounded programs is not expressible as a function contract here")
na("C92", "The coroutine back end behaves like the thread back end",
   "A program gives the same results with the coroutine execution back end as with operating-system threads.",
   ["configurations"], "all programs", "the back end is selected by a feature this sandbox does not build",
   ["src/shim/coroutines.rs"], [("shim", "src/shim/")],
   "depends on the `may` crate's runtime (assembly context switches, not built here); outside the reach of the verifier and of a bounded run")
