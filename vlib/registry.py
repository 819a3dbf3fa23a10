"""property -> (module, function, evidence level); and manifest texts."""
CHECKS = {
    "C01": ("runeng", "c01", "exploration"),
    "C02": ("c02", "c02", "exploration"),
    "C03": ("runeng", "c03", "exploration"),
    "C04": ("runeng", "c04", "fault_enumeration"),
    "C05": ("runeng", "c05", "fault_enumeration"),
    "C06": ("c06", "c06", "exploration"),
    "C07": ("c07", "c07", "exploration"),
    "C08": ("c07", "c08", "exploration"),
    "C09": ("c09", "c09", "exploration"),
    "C10": ("c09", "c10", "exploration"),
    "C11": ("c11", "c11", "exploration"),
    "C12": ("c12", "c12", "exploration"),
    "C13": ("c13", "c13", "exploration"),
    "C14": ("c14", "c14", "exploration"),
    "C15": ("c15", "c15", "exploration"),
    "C16": ("c16", "c16", "exploration"),
    "C17": ("c17", "c17", "exploration"),
    "C20": ("c20", "c20", "exploration"),
    "C22": ("c20", "c22", "exploration"),
    "C21": ("c21", "c21", "exploration"),
    "C18": ("c18", "c18", "exploration"),
    "C19": ("c19", "c19", "exploration"),
}
RUN = "Held on the generated declarations and histories of the run; trusts rustc, std and the direct-access reference implementations."
VER = "Held on the generated programs of the run; the oracle is the real compiler's verdict, each attack paired with an accepted twin; trusts rustc's checks."
NOTES = {
    "C01": ("runtime monitor: projections compared with direct field access on generated programs", RUN),
    "C02": ("runtime monitor of destructor addresses plus monitored compiler verdicts on attack programs", RUN + " " + VER),
    "C03": ("runtime monitor: token ledger and destructor event log around replacements", RUN),
    "C04": ("fault injection: every pinned destructor panics once, event log checked", RUN),
    "C05": ("runtime monitor: destructor event log over all drop routes with injected panics", RUN),
    "C06": ("differential runtime monitor: pinned destructor body against the same body as an inherent method", RUN),
    "C07": ("runtime monitor: Unpin probes of generated declarations against their pinned field types, with monitored compiler verdicts for generic code", RUN + " " + VER),
    "C08": ("runtime monitor: Unpin probes of generated declarations with explicit requests, with monitored compiler verdicts", RUN + " " + VER),
    "C09": ("monitored compiler verdicts on safe attack programs with accepted twins", VER),
    "C10": ("monitored compiler verdicts on safe attack programs with accepted twins", VER),
    "C11": ("runtime monitor of reference alignment plus monitored compiler verdicts on packed declarations", RUN + " " + VER),
    "C12": ("runtime monitor of the documented effects of accepted arguments plus monitored compiler verdicts against an independent reference parser", RUN + " " + VER),
    "C13": ("monitored compiler verdicts on uses of projections from every place of a module tree and from another crate", VER),
    "C14": ("runtime monitor of trait and destructor probes, inventory of expanded items, monitored compiler verdicts on absent API", RUN + " " + VER),
    "C15": ("differential monitor of compiler verdicts: annotated declaration against its plain twin", VER),
    "C16": ("runtime monitor: projections of conditionally compiled declarations against an independently evaluated shape, under every configuration", RUN),
    "C17": ("differential runtime monitor: the annotated type against a plain twin of the same text (layout, traits, derives, moves, constants), with monitored verdicts, diagnostics and documentation", RUN + " " + VER),
    "C20": ("monitored compiler verdicts on lifetime programs and on random histories predicted by a loan model", VER),
    "C22": ("runtime monitor: thread-safety probes of projection results against tuples of plain references, with monitored verdicts for generic code", RUN + " " + VER),
    "C21": ("differential monitor of compiler diagnostics against plain twins, and of client behaviour in environments with shadowed names, other editions and no prelude", RUN + " " + VER),
    "C18": ("undefined-behaviour interpreter (two aliasing models, leak and race detection), address sanitizer and monitored optimised builds on generated histories and hand-written programs", "Held on the executions of the run; trusts the interpreter and sanitizer; aliasing judged by the two published models."),
    "C19": ("fuzzing with monitors for panics, CPU limits, determinism and parsability of the expansion, inside the compiler and in process", "Held on the mutants of the run; in-process alarms count only when the compiler shows them; trusts the parser library for parsability."),
}
