"""The deciding method of each claimed property, and what its level note adds."""
CLAIMS = {
    "C01": ("generated engines and texts, invariants of every returned slot", ""),
    "C02": ("generated engines, texts and filters, metamorphic relations between equivalent filters", ""),
    "C03": ("generated engines and texts, differential against the parsers run one by one and a reference resolution of slots", ""),
    "C04": ("generated engines and texts, differential against the scores of each parser", ""),
    "C05": ("generated engines, texts and numbers of alternatives, relations between calls with and without alternatives", ""),
    "C06": ("generated histories of calls, threads and cache turnovers against new engines", "Schedules of threads are those the system happens to give."),
    "C07": ("generated patterns and texts against a reference matcher", ""),
    "C08": ("generated utterance tables and texts against a reference enumeration of the subsets of entities", ""),
    "C09": ("generated parsers and texts against the classifier's reference scores and the slot fillers run alone", ""),
    "C11": ("generated models and texts against reference features", ""),
    "C12": ("generated models and texts against reference features", ""),
    "C13": ("generated texts and label sequences, round trip of slots through their labels", ""),
    "C14": ("generated configurations and texts against reference features", ""),
    "C15": ("generated taggers and texts, enumeration of all the label sequences against reference probabilities", "At most 250 sequences by text."),
    "C16": ("generated engines, texts and taggers against a reference resolution of custom values", ""),
    "C17": ("generated engines, texts and taggers against a reference resolution of builtin values", ""),
    "C18": ("generated engines and texts against the values of the entity in the text", ""),
    "C30": ("generated texts of any characters and lengths, no panic nor error", "Bounded lengths, see DESIGN.md."),
    "C31": ("metamorphic: random changes of the case of ASCII letters", "Taggers and word cooccurrences, which depend on the case, are left out."),
    "C19": ("generated histories of injections against a model of the values of each entity", "Thresholds are forced to 1; an engine that only uses stems recognises the stemmed forms."),
    "C20": ("generated injections with obstacles and with a fault at every system call that changes files, against the model of C19 and byte comparison", "One fault by injection, or no room from some call on."),
    "C21": ("generated version strings around the supported one", ""),
    "C22": ("generated damages (structural changes of JSON, cut, swapped, removed and replaced files) of generated engines, run in a child process: an error or an answer, never a panic, an abort or a hang", "30 s and 3 GB of address space for each load and its calls."),
    "C23": ("generated archives of generated engines, differential against the folder; generated data that is no archive", ""),
    "C24": ("generated entry names; the system calls that change files are recorded and refused outside of the temporary folder", ""),
    "C25": ("generated resource files and queries against a reference reading of the files", ""),
    "C26": ("generated entities, texts and sequences of requests against reference positions in the text and a new parser", ""),
    "C27": ("generated engines and calls, structures of the C API read back and compared with the library; bytes held counted around each call", ""),
    "C28": ("generated sequences of valid and failing calls of the C API, run in a child process, against the same calls without the failures", "Addresses where results are written are assumed valid."),
    "C29": ("generated engines and histories of calls of the Python wrapper in Python processes, compared with the library; memory of the process compared over repeated calls", "Texts without NUL; archives as bytearray."),
    "C34": ("a C program compiled with gcc against the header, answering generated histories of calls; compared with the library", "Texts without NUL."),
    "C35": ("generated engines, texts and blanks; metamorphic relation between the answers with and without the blanks", ""),
    "C36": ("generated engines and histories of calls; every call of the libc functions that change files recorded and refused, and the folder compared", "Files changed by threads the library would start are seen in the folder of the engine only."),
    "C37": ("generated engines asked thousands of different texts, then dropped; bytes held counted by the allocator of the check", "The bytes are those of the Rust allocator in the thread that asks."),
}
