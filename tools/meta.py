#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl and MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
C = "src/helics/core/"
A = "src/helics/application_api/"
S = ["schedules"]
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe))))


TIMEFILES = [C + "TimeCoordinator.cpp", C + "BaseTimeCoordinator.cpp", C + "ForwardingTimeCoordinator.cpp", C + "TimeDependencies.cpp", C + "FederateState.cpp"]
prop("C01", "Causality: no data ever arrives in a federate's past",
     "When a federate is granted a time, nothing stamped before that time can still be sent to it by any federate it receives values or messages from, directly or through at most one other federate, whatever their timing options. A publication or message sent later never carries a stamp earlier than the time already granted to its receiver (less the receiver's input delay).",
     ["schedules", "programs", "configurations"],
     "for every federation (links up to two hops and no cycle beyond two federates for mixed time steps; any number of federates in lock step), every program of requests and sends, every timing option, placement on cores and brokers, and every interleaving",
     "The timing tests run a handful of programs on whatever interleaving the machine happens to produce; the races between requests, grants and disconnects that break causality need particular orders of protocol messages.",
     TIMEFILES, [("time dependency table and conservative grant test", C + "TimeDependencies.cpp"), ("grant evaluation", C + "TimeCoordinator.cpp")], ["values, messages and times seen by federates"])
prop("C02", "A time request returns at the earliest time it should",
     "A time request returns exactly at the requested time, clipped to the federate's timing options, unless an unseen value or message for that federate has an earlier stamp, in which case it returns at that stamp (again on the federate's time grid). It never returns later than that, never earlier, and never early without something new to see.",
     ["schedules", "programs", "configurations"],
     "for every federation, program, timing option and interleaving explored as for C01",
     "Tests assert granted times for fixed programs; the exact grant depends on which events have arrived when the request is evaluated.",
     TIMEFILES, [("next event computation", C + "TimeCoordinator.cpp"), ("value and message wake-up times", C + "FederateState.cpp")], ["granted times"])
prop("C03", "Time is monotone and obeys period, offset, delta and uninterruptible",
     "Each granted time is strictly later than the previous one, is a point of the federate's period and offset grid, and is at least the federate's minimum step after the previous grant. An uninterruptible federate is never granted a time earlier than it requested.",
     ["schedules", "programs", "configurations"],
     "for every combination of period, offset, delta, delays and flags, every program of requests, with or without interrupting data",
     "Tests cover a few option values one at a time; combinations with interrupting data are not sampled.",
     TIMEFILES + [C + "CoreFederateInfo.hpp"], [("period and offset rounding", C + "TimeCoordinator.cpp")], ["granted times", "the federate's current time"])
prop("C04", "No request blocks forever",
     "If every federate keeps calling the API and finally leaves, then every start-up call, time request and finalize returns and every core and broker disconnects by itself. This holds for every order in which threads run.",
     ["schedules", "programs", "configurations"],
     "for every federation and program as for C01 and every fair interleaving of federate, core and broker threads",
     "A deadlock shows only under particular interleavings; tests run one interleaving and time out flakily.",
     TIMEFILES + [C + "CommonCore.cpp", C + "CoreBroker.cpp"], [("time request propagation", C + "BaseTimeCoordinator.cpp"), ("disconnect protocol", C + "CoreBroker.cpp")], ["every call returns"])
prop("C05", "Initialization and execution start together and initial data is visible",
     "No federate leaves the initialization entry before every expected federate asked for it, and none starts executing (time zero) before every federate it depends on asked to. What was published before its publisher asked to execute is readable at time zero.",
     ["schedules", "programs", "configurations"],
     "for every federation, placement and interleaving of the start-up calls",
     "Tests start federates from one thread in a fixed order.",
     [C + "CommonCore.cpp", C + "CoreBroker.cpp", C + "FederateState.cpp", C + "TimeCoordinator.cpp"],
     [("initialization grant", C + "CoreBroker.cpp"), ("execution entry check", C + "TimeCoordinator.cpp")], ["return of enterInitializingMode and enterExecutingMode", "values at time zero"])
prop("C06", "Iteration repeats a time only when asked, exactly while there is something new",
     "A federate that asks to iterate if needed is given its present time again exactly when a value or message it has not seen is due by then, and otherwise moves on to the time it would have been granted. Asking for an iteration unconditionally always repeats the time. A federate that did not ask never iterates; each iteration shows the data sent since. The same holds while entering executing mode, up to the iteration limit.",
     ["schedules", "programs", "configurations"],
     "for every mix of iterative and plain requests, forced or on demand, timing options and interleavings; entry to executing mode between two federates",
     "The iteration tests use two federates in lock step with one value; whether data counts as new depends on the order of grants and requests.",
     TIMEFILES, [("iteration decision", C + "TimeCoordinator.cpp"), ("values of the next iteration", C + "FederateState.cpp")], ["iteration results, granted times, values and messages"])
prop("C07", "A reader sees the latest value published to it and no other",
     "After each grant an input holds the value of the most recent publication, among its sources, with a stamp the grant makes visible: never an older one, a later one, or one from elsewhere. Before any publication it holds its default.",
     ["schedules", "programs", "configurations"],
     "for every program of publications and requests, input and output delays, several sources, change filters and interleavings",
     "Tests publish and read back one or two values in lock step.",
     [C + "InputInfo.cpp", C + "FederateState.cpp", A + "Inputs.cpp", A + "ValueFederateManager.cpp"],
     [("time-ordered value queues", C + "InputInfo.cpp")], ["values read", "last update time"])
prop("C08", "Update flags tell exactly what is new",
     "An input reports an update after a grant exactly when a new value became visible to it since it was last read, its reported update time is the grant at which that happened, and reading it clears the report. Values suppressed by change filters raise no report.",
     ["schedules", "programs", "configurations"],
     "for every program of publications, reads and requests, with and without the change filters",
     "Tests read immediately after each update.",
     [C + "InputInfo.cpp", A + "Inputs.cpp", A + "ValueFederateManager.cpp", C + "PublicationInfo.cpp"],
     [("update bookkeeping", A + "ValueFederateManager.cpp"), ("change detection", C + "InputInfo.cpp")], ["isUpdated", "getLastUpdate"])
prop("C09", "Messages arrive exactly once, on time, in order and intact",
     "Every message sent to an existing endpoint is handed to its owner exactly once, unaltered, at the first grant that covers its time and not before. Messages of one endpoint are read in order of time; of equal times those from one sender keep their sending order.",
     ["schedules", "programs", "configurations"],
     "for every program of sends (with and without explicit times), targeted or free destinations, endpoints on any core, and every interleaving",
     "Tests send a few messages between two federates.",
     [C + "EndpointInfo.cpp", C + "FederateState.cpp", C + "CommonCore.cpp", A + "MessageFederateManager.cpp"],
     [("time-sorted endpoint queues", C + "EndpointInfo.cpp"), ("message routing", C + "CommonCore.cpp")], ["messages received"])

prop("C10", "Interfaces are connected exactly as asked, however and whenever they are linked",
     "A publication's values reach an input, and a targeted endpoint's messages reach another, exactly when the two were connected: by either end naming the other, by an alias of either, by a data or endpoint link made on any core or the broker, before or after the interfaces exist, once or repeatedly. Every way gives the same connection: each value and message arrives once, carries the names of its true source and destination, and the federates wait for each other accordingly. Links to nothing change nothing.",
     ["inputs", "schedules", "histories"],
     "for every way, place and order of making the connections, and every schedule of the federates, cores and brokers",
     "Tests connect interfaces in one way and order at a time with one broker; the resolution depends on which message of several cores and brokers arrives first.",
     [C + "CommonCore.cpp", C + "CoreBroker.cpp", C + "UnknownHandleManager.cpp", C + "HandleManager.cpp", C + "FederateState.cpp"],
     [("resolution in the core", C + "CommonCore.cpp"), ("resolution in brokers", C + "CoreBroker.cpp")], ["values and messages received", "names in messages", "grants"])
prop("C11", "Filters transform messages exactly as linked",
     "A message sent from an endpoint passes through that endpoint's source filters and then the destination filters of the endpoint it reaches, each once, in the order they were linked: delays move its time, operators change, drop or redirect it, and cloning filters add copies to their delivery addresses and leave the original alone. What comes out is delivered exactly once, on time; endpoints without filters are unaffected.",
     ["schedules", "programs", "configurations"],
     "for every assignment of delay, random-drop, reroute, clone and custom operators as source and destination filters of the endpoints of their own federate, every program of sends in lock step, and every interleaving",
     "The filter tests use one filter on one message; the combination of several filters, cloning and not, on both sides of a link is not sampled, and whether filters are applied depends on routing.",
     [C + "FilterFederate.cpp", C + "FilterCoordinator.cpp", C + "CommonCore.cpp", A + "FilterOperations.cpp", A + "MessageOperators.cpp", A + "Filters.cpp"],
     [("source and destination filter chains", C + "FilterFederate.cpp"), ("delay, drop, reroute and clone operators", A + "FilterOperations.cpp")], ["messages received"])

prop("C18", "Commands reach exactly the federate they were sent to, once and in order",
     "A command sent to a federate, by a federate, a core or a broker, is received exactly once, by that federate only, with its text and its sender; commands of one sender in one mode arrive in the order they were sent. A notify or echo command is answered to its sender and never handed to the user, and waiting for a command returns as soon as one is there.",
     ["schedules", "programs", "configurations"],
     "for every placement, any mix of senders, targets, modes and texts, commands sent before and during execution, and every interleaving",
     "Tests send one or two commands between two federates.",
     [C + "FederateState.cpp", C + "CommonCore.cpp", C + "CoreBroker.cpp"], [("command queue of a federate", C + "FederateState.cpp"), ("routing of commands", C + "CoreBroker.cpp")], ["getCommand and waitCommand"])
prop("C19", "A setting reads back as it was last set and changes no other",
     "Time and integer properties, flags, tags and information strings of federates, and the options, tags and information of publications, inputs and endpoints read back as last set; a setting nobody wrote keeps its value. Only settings that name the same thing or exclude each other move together (interruptible and uninterruptible, observer and source only, single and multiple connections).",
     ["inputs", "histories"],
     "for every sequence of writes and reads of about forty settings on several federates and interfaces before execution",
     "Tests write one setting and read it back; cross effects between settings and order of writes are not sampled.",
     [C + "FederateState.cpp", C + "TimeCoordinator.cpp", C + "InputInfo.cpp", C + "PublicationInfo.cpp", C + "EndpointInfo.cpp", C + "CommonCore.cpp", A + "Federate.cpp"],
     [("federate options", C + "FederateState.cpp"), ("time options", C + "TimeCoordinator.cpp"), ("interface options", C + "InputInfo.cpp")], ["getters"])
prop("C21", "Asynchronous calls have the effect of the plain calls",
     "A program whose entries, time requests and finalize are made as asynchronous call and completion sees the same grants, iterations, values, flags and messages as the specification of the plain calls allows: the same causality, exact grant times, and nothing lost or blocked.",
     ["schedules", "programs", "configurations"],
     "for federations, programs, options and interleavings as for C01 to C09, with any part of the calls made asynchronously",
     "Tests use the asynchronous calls in a few fixed programs; they run on another thread and race with the rest.",
     [A + "Federate.cpp", C + "FederateState.cpp", C + "TimeCoordinator.cpp"], [("asynchronous calls", A + "Federate.cpp")], ["grants, values and messages after the completing call"])
prop("C22", "A call is served in the modes that allow it and refused without effect otherwise",
     "A federate moves only between its documented modes: every entry, request, completion and finalize call, plain or asynchronous, made in a mode that allows it ends in the mode, time and result the life cycle prescribes, and in any other mode is refused with InvalidFunctionCall and changes neither mode nor time. Publishing and sending are refused outside initializing and executing mode. The callbacks for entering initialization and execution and for mode changes are made exactly once for each change.",
     ["programs", "schedules"],
     "for every sequence of legal and illegal calls on up to three federates whose requests do not depend on each other, with forced and conditional iterations",
     "Tests call each function once in the wrong mode at most; sequences and pending stages are not sampled.",
     [A + "Federate.cpp", A + "ValueFederate.cpp", A + "Endpoints.cpp", C + "CommonCore.cpp"], [("mode checks", A + "Federate.cpp")], ["mode, current time, results, exceptions and callbacks after each call"])
prop("C24", "A SmallBuffer behaves as the byte string it stands for",
     "After any sequence of constructions, assignments, appends, moves, swaps, borrowing and releasing of memory, locking and resizing, every buffer holds exactly the bytes that sequence implies, other buffers and borrowed memory are unaffected, and nothing is read, written, freed twice or leaked outside the memory it owns. A locked buffer never reallocates; impossible requests throw and change nothing.",
     ["inputs", "histories"],
     "for every sequence of operations on several buffers, with contents around and beyond the inline size, owned, borrowed and given memory, locked or not",
     "The unit tests exercise single operations on fresh buffers; representation changes (inline, allocated, borrowed, locked) combine over sequences.",
     [C + "SmallBuffer.hpp"], [("inline/allocated/borrowed representation", C + "SmallBuffer.hpp")], ["content, capacity, lock and error state of each buffer", "borrowed memory"])
prop("C25", "The registry of unresolved connections forgets nothing and resolves exactly what it should",
     "Every interface waiting for a partner of a given name, and every link between names, is reported until it is cleared, with its handle and flags, as often as it was added; clearing a name, a federate or a selection removes exactly those. Whether anything, anything non-optional or anything required is left is reported exactly.",
     ["inputs", "histories"],
     "for every sequence of additions, links, clearings and queries over several names, kinds, federates and flags",
     "Tests add one connection of each kind and query it.",
     [C + "UnknownHandleManager.cpp", C + "UnknownHandleManager.hpp"], [("multimaps of unknown targets and links", C + "UnknownHandleManager.cpp")], ["every query of the registry"])
prop("C26", "Profiling messages reach the file once, in order and complete",
     "Messages added to a profiling buffer end up in the output file it was given exactly once and in the order added, one per line, when written, when the buffer is full and when it is destroyed. Appending keeps what the file held; an unusable file is reported without losing messages.",
     ["inputs", "histories"],
     "for every sequence of messages, output file changes, writes and destructions",
     "Tests write one short profile.",
     [C + "ProfilerBuffer.cpp", C + "ProfilerBuffer.hpp"], [("buffered write", C + "ProfilerBuffer.cpp")], ["content of the output files"])

prop("C28", "Published values are converted to the type asked for as documented",
     "A value published as any of the supported types on a publication of any type and read as any type gives what the conversion table of docs/developer-guide/typeConversions.md says for that pair (vector to double is the magnitude, complex vector to vector interleaves and so on), and a value read as the type it was published as comes back bit for bit, whatever its content (empty, huge, special values, embedded bytes).",
     ["inputs"],
     "for every value and every combination of published, registered and requested type",
     "Tests convert a few values between a few types; the table has hundreds of combinations and unbounded values.",
     [A + "helicsPrimaryTypes.cpp", A + "helicsTypes.cpp", A + "ValueConverter_impl.hpp", A + "Publications.cpp", A + "Inputs.cpp"],
     [("extraction", A + "helicsPrimaryTypes.cpp"), ("textual forms", A + "helicsTypes.cpp")], ["values read from inputs"])

prop("C32", "Commands survive the wire",
     "A command framed and concatenated with others on a byte stream comes out of the receiver with the same fields, in order, each as soon as its last byte has arrived and never before, however the stream is cut into pieces. Every serialised form (bytes, vector, packet, JSON, from a machine of the other byte order) decodes to the same command and reports the bytes it used, also into an object used before; truncated input is refused and a short output buffer never overrun. Messages and packed commands keep all their parts.",
     ["inputs", "histories"],
     "for every command content and every fragmentation of the stream (packets below 16 MB)",
     "Tests serialise a few fixed commands; contents, sizes, encodings and fragmentations are unbounded.",
     [C + "ActionMessage.cpp", C + "ActionMessage.hpp"], [("codec", C + "ActionMessage.cpp")], ["fields of decoded commands", "bytes consumed"])

NA = {}
COMP_TECH = "TLA+ specification of the component checked with TLC trace validation of recorded operation sequences"
COMP_NOTE = "Seeded operation sequences are replayed on the real component (built with AddressSanitizer and UBSan where it stands alone) and TLC decides every observation against the component's TLA+ specification; the sequences are sampled, the oracle is exact."
LEVEL_NOTE = "Every history recorded from the real library under controlled schedules is decided by TLC against the TLA+ specification; the schedules and programs are sampled (seeded), so this is exploration of the implementation against an exact specification. Trusted: TLC, the scheduler's interposition of pthread primitives, the stand-ins for third-party headers."
TECH = "TLA+ specification (FedCore) checked with TLC; TLC trace validation of recorded executions of the real library"
API_TECH = "TLA+ specification ({}) checked with TLC; TLC trace validation of recorded executions of the real library"
OVERRIDE = {i: dict(technique=API_TECH.format(m)) for i, m in (("C18", "Commands"), ("C19", "Settings"), ("C22", "Modes"))}


def main():
    from vlib import props
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = []
    for p in P:
        i = p["id"]
        if i in props.PROPS:
            o = OVERRIDE.get(i, dict(technique=COMP_TECH, level_note=COMP_NOTE) if props.PROPS[i].get('comp') else {})
            checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                               technique=o.get("technique", TECH), level=props.PROPS[i]["level"], level_note=o.get("level_note", LEVEL_NOTE)))
        else:
            na.append(dict(property=i, reason=NA[i]))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks")


if __name__ == "__main__":
    main()
