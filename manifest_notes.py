SEARCH = "Bounded random search with shrinking: no violation among the generated cases; says nothing about cases outside of the generator's bounds (see DESIGN.md). Trusts the harness, the kernel and the compiler."
VT = " Time is a virtual clock by symbol interposition."
DELAY = " Schedules are those of the kernel plus random delays injected before system calls by symbol interposition."
M = "model-based property testing: "
P = "property-based testing: "
NOTES.update({
 "C01": (P + "random expressions and labels against a reference evaluator", SEARCH),
 "C02": ("stateful property-based testing against a list model", SEARCH),
 "C03": (M + "random bus histories, set of receivers against a model", SEARCH),
 "C04": (M + "random bus histories with departures, unicast receivers against a model", SEARCH),
 "C05": (P + "random concurrent workloads with injected delays, order/loss/duplication invariant over the history", SEARCH + DELAY),
 "C06": (P + "round trip of random payloads over every path of the bus", SEARCH),
 "C07": (P + "random attachments, identity of the kernel objects received compared by (st_dev, st_ino) and access", SEARCH),
 "C08": (M + "random histories of writes and maps through several handles against a byte array", SEARCH),
 "C09": (M + "random histories of region handles against a count model", SEARCH + VT),
 "C10": (M + "random registry histories in virtual time against a model", SEARCH + VT),
 "C11": (M + "random registry histories in virtual time, callback counts against a model", SEARCH + VT),
 "C12": (M + "random bus histories in virtual time, waiting messages against a model", SEARCH + VT),
 "C13": (P + "random message types and malformed payloads over the bus against a reference decoder", SEARCH),
 "C14": (P + "random tokens and versions (real and hand-made handshakes) against the admission rule", SEARCH),
 "C15": (P + "random sets of identifiers, messages observed per bus", SEARCH),
 "C16": (P + "random histories of time-limited receives and joins with measured durations", SEARCH + " Upper limits on durations are generous and only believed when reproducible."),
 "C17": ("stateful fault-injection testing: random histories of killed processes, routing invariants afterwards", SEARCH + " Moments of death are sampled, not enumerated."),
 "C18": ("structured and mutational fuzzing of the wire protocol in both directions, oracle: liveness of the others, descriptor count", SEARCH),
 "C19": (M + "random departure histories, routing model and descriptor count", SEARCH + VT),
 "C20": (M + "random sequences of C API calls against a model and the Rust view of the same bus", SEARCH),
 "C21": (M + "random programs run by a node process through the binding, log of settled promises against a model", SEARCH),
 "C22": (M + "random bus histories with EINTR and delays injected into system calls", SEARCH + DELAY),
 "C23": (P + "random messages around and beyond the limits of the transport mixed with ordinary traffic", SEARCH),
 "C24": (P + "round trips and random byte strings for every message type, allocation counted", SEARCH),
 "C25": (P + "random histories, descriptors and mappings counted before and after, inherited ones in spawned processes", SEARCH),
 "C26": (M + "random histories with refused system calls and a reached limit of open files, model of counts and contents, liveness afterwards", SEARCH + " Refusals are injected by interposed libc symbols, the limit of open files is the real one."),
})
