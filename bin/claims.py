T["C20"] = ("TLA+ specification (set of free integers) refined by the run-length algorithm, model-checked with TLC; every spec transition replayed on the real allocator and recorded histories validated by TLC",
            "Exhaustive for small ranges at the specification level and per transition on the code; sampled histories for large ranges. Trusts TLC and the observation through the public API.")
CONN = ("TLA+ specification of the endpoint (Conn.tla) and of the property as a monitor over observables (Props.tla); call histories driven into the real connection object are recorded and validated line by line by TLC",
        "Sampled histories (random, adversarial driver), every line judged by the specification. Trusts TLC, the harness's independent packet encoder and the driver's contract.")
for p in ("C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19"):
    T[p] = CONN
CODEC = ("TLA+ specification of packets (Codec.tla: values, bytes, property table, rules), model-checked by TLC on its boundary packets (Decode inverts Encode), whose vectors are replayed on the real builders and parsers; random, damaged and exhaustively enumerated inputs of the real codec are recorded and judged by TLC against the specification",
         "Exhaustive over the property table, reason codes, option bytes and short bodies; sampled beyond. Trusts TLC and the harness's mapping between builder calls / accessors and the specification's fields.")
for p in ("C02", "C03", "C04", "C18"):
    T[p] = CODEC
T["C01"] = ("TLA+ specification of two endpoints, the packets in flight and the applications (Pair.tla over Conn.tla) with the property as a monitor (PairMon.tla) and termination as a liveness property, model-checked by TLC on small workloads with transport losses; every transition's schedule replayed on two real connection objects and, with random schedules, judged by TLC with the same monitor",
            "Exhaustive for small workloads (2 to 5 operations, 1 to 3 losses, 12 to 24 configurations); sampled beyond. Trusts TLC and the harness's event loop and byte channels.")
