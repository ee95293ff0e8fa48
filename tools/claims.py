COMMON = " Explores randomly generated cases (seeded, shrunk on failure); trusts the harness's model, the loopback network and the libc shims."
T = {
'C01': ("stateful property-based testing against an independent MD5 model", "Every kind of wrong greeting in random histories over 1-3 slots, with forced challenges and cut segments; exact reply bytes; nothing relayed." + COMMON),
'C02': ("differential property-based testing: generated patterns against an independent backtracking matcher", "Generated regular expressions and callsigns decided by an independent matcher and PCRE-free reasoning; exact notice, reopen with other patterns." + COMMON),
'C03': ("stateful property-based testing with an exact datagram ledger", "Every datagram leaving the proxy is captured and compared with the model, per destination and in order." + COMMON),
}
T.update({
'C04': ("stateful property-based testing with an exact message ledger", "Datagrams of all sizes from random senders; exact list of messages per session and port." + COMMON),
'C05': ("model-based stateful property testing of the TCP relay with injected faults and perturbed schedules", "Random histories of opens, data, closes, resets and replacements; model of every reply and byte." + COMMON),
'C06': ("property-based testing with injected partial writes and schedule perturbation; parser and ledger oracle", "Concurrent traffic towards slow clients; every byte received must parse and be accounted for." + COMMON),
'C07': ("metamorphic property-based testing (same bytes, different segmentation)", "The same client bytes sent twice with different cuts, pipelining and shortened reads must have equal effects." + COMMON),
'C08': ("model-based stateful property testing with simultaneous clients and perturbed schedules", "Served connections and external addresses against a capacity model." + COMMON),
'C09': ("model-based stateful property testing", "Slot assignment against a model of the idle list and last callsigns." + COMMON),
})
T.update({
'C10': ("model-based stateful property testing with tagged traffic", "Sessions on several slots, one after another and concurrently, with traffic tagged per session; isolation checked on every delivered byte." + COMMON),
'C11': ("structured and mutational fuzzing under AddressSanitizer and UBSan with a relaying witness session", "Hostile greetings, message streams, datagrams, remote hosts and disconnects while a well-behaved session must keep relaying exactly." + COMMON),
'C12': ("stateful property-based testing of the life cycle from generated states with time bounds", "Close, shutdown, drop and reopen from random states with clients, remote hosts and registrars that stall." + COMMON),
'C13': ("stateful property-based testing with a resource ledger", "Every descriptor, thread, block, file, pattern and address list of the code is tracked through libc shims and compared at idle points and after freeing." + COMMON),
})
T.update({
'C14': ("property-based testing with generated configurations against an independent reader", "Generated files in many spellings are loaded by the real code and every resulting field is compared with an independent reading of the documentation." + COMMON),
'C15': ("property-based fuzzing of configurations with injected read and allocation faults", "Damaged, truncated, boundary and unreadable configurations must be refused without effects." + COMMON),
'C16': ("differential property-based testing against an independent MD5 and reference encoders", "Digests of generated lengths and contents, hex conversion both ways, password responses." + COMMON),
'C17': ("property-based testing against a fake registrar that parses every report", "Generated names, comments and comments' characters; every report is parsed strictly and compared with the configuration and the history." + COMMON),
'C18': ("model-based stateful property testing against a fake registrar with perturbed schedules", "Random histories of logins, refusals, departures and restarts; the last report must match the real occupancy." + COMMON),
})
T.update({
'C19': ("property-based testing of generated thread schedules under a deterministic scheduler, with a shadow ledger of wakes and runs", "Fibers replace threads, locks, condition variables and time; every load and store of the code is a scheduling point drawn from the case (random, priority-based and bursty schedules, spurious wake-ups, clock jumps)." + COMMON),
'C20': ("property-based testing of generated thread schedules under a deterministic scheduler, with holder counting", "Random lock/wait/wake programs of 2-5 threads over generated interleavings at every load and store; holders counted, lost wake-ups and stuck acquisitions detected exactly." + COMMON),
})
T.update({'C21': ("stateful property-based testing against a model of the selected medium", "Random operation sequences on one or two logs; console, files, syslog and open files compared with a model after every operation." + COMMON)})
T.update({'C22': ("property-based testing of the connection layer with generated payloads, segmentations, injected partial transfers and unblocking moments", "Random receives, sends, datagrams, closes from another thread, timeouts, refused operations and names over loopback." + COMMON)})
T.update({'C24': ("property-based fault injection over generated life cycles with a resource ledger and complete-service probes", "One generated call of 17 kinds fails in each phase; negative result or complete service, nothing left behind, everything usable afterwards." + COMMON)})
T.update({'C23': ("stateful property-based testing of the real daemon with generated command lines, configurations, client histories and signals", "The daemon built from the tree runs as a process per case; exit status, output, streams, ports and log destinations are compared with a model of the documented options." + COMMON)})
T.update({'C25': ("stateful property-based testing of the client against a generated server with an independent MD5 and a resource ledger", "Random histories of the bundled client against a server played by the harness: challenges in pieces, early ends, failing calls, disconnects while waiting." + COMMON)})
T.update({'C26': ("property-based testing of generated concurrent histories with injected delays, judged by ThreadSanitizer's happens-before analysis", "The library runs in a process of its own under ThreadSanitizer; simultaneous clients, remote hosts, registrar and application calls at generated moments." + COMMON)})
