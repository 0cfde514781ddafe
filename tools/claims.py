NOT_APPLICABLE = {}
NOTES = 'All checks are generated-input searches (Hypothesis) over the code in /repo; see DESIGN.md.'
TRUST = ' Trusts CPython, Hypothesis and the small reference model in the check; finds violations, does not prove absence.'
CHECKS['C11'] = ('stateful property-based testing against a sorted-dict model (Hypothesis)', 'exploration',
  'Thousands of generated histories of up to 40 operations on trees of all degrees, both base-class implementations.' + TRUST)
CHECKS['C01'] = ('property-based testing: generated object graphs, round trip against a plain model (Hypothesis)', 'exploration',
  'About 5000 generated graphs over 13 class shapes and all storage kinds, both base-class implementations.' + TRUST)
CHECKS['C02'] = ('stateful model-based testing of one connection with eviction (Hypothesis)', 'exploration',
  'Thousands of generated histories of reads, writes, evictions, aborts and commits with tiny and large caches, compared with a two-level dictionary model.' + TRUST)
CHECKS['C03'] = ('stateful model-based testing with injected commit failures (Hypothesis)', 'exploration',
  'Thousands of generated histories with unpicklable values, failing __getstate__, foreign objects, refusals and conflicts at arbitrary positions.' + TRUST)
CHECKS['C04'] = ('model-based schedule exploration of several clients of a real server, ops injected between any two requests (Hypothesis)', 'exploration',
  'Thousands of generated schedules of up to four clients against the serialisation order the server produced.' + TRUST)
CHECKS['C09'] = ('stateful model-based testing of id allocation over clients, packs and reopening (Hypothesis)', 'exploration',
  'Thousands of generated allocation histories over all storages.' + TRUST)
CHECKS['C05'] = ('model-based schedule exploration with an explicit conflict oracle (Hypothesis)', 'exploration',
  'Thousands of generated schedules of up to four clients; every conflict error must be explained by the model and every abort must recover.' + TRUST)
CHECKS['C06'] = ('generated commit histories with recorded file operations, every crash image replayed (Hypothesis, LD_PRELOAD recorder)', 'fault-enumeration',
  'Every cut of the recorded operations of generated histories (all bytes near boundaries), with loss of unsynced writes.' + TRUST)
CHECKS['C07'] = ('generated histories; truncations, torn tails and live copies of the files reopened with and without repair (Hypothesis)', 'fault-enumeration',
  'Thousands of damaged files per run against the list of committed states.' + TRUST)
CHECKS['C08'] = ('stateful model-based testing of packs with commits between all steps and crash images (Hypothesis)', 'fault-enumeration',
  'Thousands of generated graphs and schedules of pack steps, commits, loads and crashes.' + TRUST)
CHECKS['C10'] = ('property-based testing of shelves and offset maps against dictionaries (Hypothesis)', 'exploration',
  'Thousands of generated item sets, stores, reopenings and offset assignments.' + TRUST)
CHECKS['C14'] = ('stateful property-based testing against plain sequences and sets (Hypothesis)', 'exploration',
  'Thousands of generated operation sequences on every packed structure, reopened and iterated concurrently.' + TRUST)
CHECKS['C25'] = ('generated commit and pack histories with a fault injected into every kind of file operation (Hypothesis, LD_PRELOAD injector)', 'fault-enumeration',
  'Thousands of injected single faults (whole or partial) at generated positions.' + TRUST)

CHECKS['C12'] = ('property-based differential testing against the builtin containers, with commits, aborts and ghosting (Hypothesis)', 'exploration',
  'Thousands of generated operation sequences on the three containers next to dict, list and set.' + TRUST)
CHECKS['C13'] = ('property-based differential testing: C base classes, Python base classes and plain objects side by side (Hypothesis)', 'exploration',
  'Thousands of generated sequences of attribute operations on 15 class shapes and more than forty names.' + TRUST)
CHECKS['C15'] = ('property-based round-trip testing over generated splits, delays and cuts of the byte stream (Hypothesis)', 'exploration',
  'Tens of thousands of generated value sequences through fake and real sockets and files that split everything anywhere.' + TRUST)
CHECKS['C16'] = ('protocol fuzzing of a live server (grammar-based with mutations) next to well-behaved clients, against an independent parser (Hypothesis)', 'exploration',
  'Thousands of generated histories of hostile peers; the parser in the check decides which commits may take effect.' + TRUST)
CHECKS['C17'] = ('differential and model-based testing of storage calls through a live server (Hypothesis)', 'exploration',
  'Thousands of generated call sequences of up to five clients with split sockets, compared with a direct storage and with a model of invalidations.' + TRUST)
CHECKS['C18'] = ('model-based testing of traversal and inspection tools on generated record graphs and object graphs with arbitrary caches (Hypothesis)', 'exploration',
  'Thousands of generated graphs, commits, packs and cache states on every storage, direct and served.' + TRUST)
CHECKS['C19'] = ('stateful model-based testing of opens, commits and packs by several processes, with operations injected at lock and rename calls (Hypothesis)', 'exploration',
  'Thousands of generated schedules over one to three processes against a single-writer model and snapshots of all files.' + TRUST)
CHECKS['C20'] = ('model-based schedule exploration of computed attributes over several clients, with operations during computations (Hypothesis)', 'exploration',
  'Thousands of generated schedules of up to three clients against the history of the cells that the values depend on.' + TRUST)
CHECKS['C21'] = ('property-based round-trip testing of copies, tools and converters on generated graphs and files (Hypothesis)', 'exploration',
  'Thousands of generated graphs and files through every format, tool and script, compared with the model of the graph.' + TRUST)
CHECKS['C22'] = ('stateful model-based testing of server processes on addresses of all kinds (Hypothesis)', 'exploration',
  'Thousands of generated histories of starting, stopping, interrupting and killing servers, with arbitrary things at the paths.' + TRUST)
CHECKS['C23'] = ('model-based schedule exploration of packs on a live server with a byte threshold (Hypothesis)', 'exploration',
  'Thousands of generated histories of commits, requests, pack steps and failures against a model of the byte count, and servers started from the command line.' + TRUST)
CHECKS['C24'] = ('stateful model-based testing of instance identity and cache shrinking (Hypothesis)', 'exploration',
  'Thousands of generated histories of finding, using, dropping and shrinking against a model of what is held, used and loaded, and walks over many objects with small caches.' + TRUST)
CHECKS['C26'] = ('fuzzing of operation programs on the extension types with Python\'s debugging allocator and AddressSanitizer (Hypothesis)', 'exploration',
  'Thousands of generated programs with failing and reentrant callbacks; crashes, internal errors, surviving objects and growing allocations are violations.' + TRUST)
