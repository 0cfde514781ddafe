#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, quant, why, files, mech, state=(),
      observe=()):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=quant),
        why_tests_cant=why,
        anchors=dict(
            files=files.split(),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None))

PROPS = [
P('C01', 'Committed object graphs survive close and reopen exactly',
  "Any graph of persistent instances committed from the root is rebuilt identically by every later connection to that storage (after closing and reopening, or through a storage server): same classes, attribute and slot values, sharing, cycles and object identity per object id, for every storage kind and both implementations of the persistent base class. Each stored record lists exactly the persistent objects its state refers to (apart from itself).",
  'inputs programs configurations',
  'every finite graph of persistent objects (any topology, value types, slot declarations, sizes) x every storage kind x both base class implementations',
  'Tests store a handful of tiny fixed graphs; sharing, cycles, slot inheritance, large and repeated records and pickler recycling across sizes are not enumerated.',
  'durus/connection.py durus/serialize.py durus/persistent.py durus/_persistent.c durus/shelf.py durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py durus/client_storage.py',
  [('ObjectWriter / ObjectReader', 'durus/serialize.py'), ('pack_record / unpack_record', 'durus/serialize.py'), ('Connection.commit', 'durus/connection.py')],
  [('record', 'oid + class/state pickles + referenced oids', 'durus/serialize.py')]),
P('C02', 'Commit, abort and cache eviction follow transaction semantics',
  "Within one connection, reads always return the connection's own latest uncommitted write or else the last committed value; commit makes exactly the changed and newly reachable objects durable, and abort restores exactly the last committed state. Cache eviction, ghosting and reloading at any moment are invisible to the program, never lose an uncommitted change, and never write an object that was not changed.",
  'histories programs configurations',
  'every interleaving of reads, attribute/item writes, deletions, object creation, attach/detach, commit, abort, ghosting and cache shrinking, for every cache size',
  'Tests run short scripted sequences with a large cache; the interaction of tiny caches, ghosts, aborts and new objects needs arbitrary histories.',
  'durus/connection.py durus/persistent.py durus/_persistent.c',
  [('Connection.commit/abort/_sync', 'durus/connection.py'), ('Persistent ghost state machine', 'durus/persistent.py, durus/_persistent.c'), ('Cache.shrink', 'durus/connection.py')],
  [('_p_status', 'UNSAVED/SAVED/GHOST', 'durus/persistent.py'), ('changed', 'objects to store at the next commit', 'durus/connection.py')]),
P('C03', 'A commit that raises changes nothing and can be recovered from',
  "When commit raises for any reason (unpicklable value, object of another connection, failing __getstate__, conflict, storage refusal), the storage keeps exactly the previously committed state, now and after later commits and reopening. After abort, or after removing the cause and committing again, the connection works as if the failed commit had not been attempted, and no object that it had tried to store is silently lost.",
  'histories inputs fault_sequences',
  'every transaction content, every position of the failing object in it, every failure cause, followed by abort/retry/more commits, on every storage',
  'Tests only cover write conflicts; failures in the middle of serialisation and the state of new objects afterwards are not sampled.',
  'durus/connection.py durus/serialize.py durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py durus/client_storage.py durus/storage.py',
  [('Connection.commit', 'durus/connection.py'), ('Storage.begin/store/end', 'durus/storage.py')],
  [('pending records', 'records accepted but not yet committed', 'durus/file_storage*.py, durus/sqlite_storage.py')]),
P('C04', 'Concurrent clients never lose updates or mix states',
  "For connections sharing a storage server, every transaction that stores changes behaves as if it ran alone on the state left by the commits before it in commit order: every value it read was the latest committed one at its commit, and no concurrent committed change is overwritten unseen. Data read within one transaction, committed or not, never combines values from two different committed states (until a conflict error tells that it has failed).",
  'schedules histories',
  'every schedule of reads, writes, commits, aborts and cache evictions of two to four clients over any set of objects, with incremental packing in between',
  'Tests script two or three clients with one or two objects; stale reads depend on the order of invalidations, ghosts, loads and commits.',
  'durus/connection.py durus/client_storage.py durus/storage_server.py',
  [('invalidation sets per client', 'durus/storage_server.py'), ('Connection._handle_invalidations', 'durus/connection.py'), ('ReadConflictError on load of an invalid oid', 'durus/storage_server.py')],
  [('invalid', 'oids changed by others and not yet reported to this client', 'durus/storage_server.py'), ('_p_serial', 'transaction in which the object was last accessed', 'durus/connection.py')]),
P('C05', 'Conflicts are precise and abort always recovers',
  "A connection sees a conflict error only when an object it accessed in the current transaction (or the object it is loading now) was changed or removed by somebody else since; transactions over disjoint objects always commit. After a conflict, abort brings the connection to the latest committed state, the same work redone then succeeds when nobody interferes, and objects created in the failed transaction are unsaved and can be stored again.",
  'schedules histories',
  'every schedule of transactions of several clients, including new objects, blind writes, reads of ghosts and repeated conflicts',
  'Tests check single conflicts; spurious conflicts, blind writes, repeated conflicts and reuse of new objects depend on the schedule.',
  'durus/connection.py durus/client_storage.py durus/storage_server.py durus/error.py',
  [('Connection._handle_invalidations', 'durus/connection.py'), ('ClientStorage.end', 'durus/client_storage.py'), ('StorageServer.handle_C', 'durus/storage_server.py')],
  [('invalid_oids', 'objects known to be stale until abort', 'durus/connection.py')]),
P('C06', 'Commits are atomic and durable across crashes at any point',
  "If the process or machine stops at any moment during any sequence of commits, reopening the file (with the documented repair option, or without it when it opens) yields exactly the state of some prefix of the commits, containing at least every commit that had returned. Without repair, a file that cannot be read completely is reported by an exception, never by silently altered data; after recovery, further commits work.",
  'crash_points histories',
  'every byte-level crash point of the write sequence of any commit history, with and without loss of writes that were not synced, for all file-based storages',
  'No test injects a crash; crash points are the bytes of every write call.',
  'durus/shelf.py durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py durus/file.py',
  [('transaction framing', 'durus/shelf.py, durus/file_storage2.py'), ('fsync at commit', 'durus/file_storage.py, durus/file_storage2.py'), ('sqlite transaction', 'durus/sqlite_storage.py')],
  [('tail of the file', 'last transaction may be partial', 'durus/shelf.py')]),
P('C07', 'Damaged or copied files recover to a committed state; files only grow',
  "A prefix of a storage file that contains its initial part, or such a prefix followed by an incomplete transaction (as left by an interrupted write or by copying a live file), opens with repair to exactly the last complete transaction in it; without repair it is either read identically or refused, and then left untouched. Between packs a storage file only grows at its end, so a sequential copy taken while commits happen is such a file, and a read-only open never alters any file.",
  'inputs crash_points histories',
  'every truncation length, every partial trailing transaction, every copy schedule, each storage format, repair on and off, read-only on and off',
  'Tests repair one hand-made truncation per format; other lengths and copies during commits are not tried.',
  'durus/shelf.py durus/file_storage.py durus/file_storage2.py durus/file.py',
  [('read_transaction_offsets / _build_index', 'durus/shelf.py, durus/file_storage2.py'), ('append-only writes', 'durus/shelf.py, durus/file_storage2.py')],
  []),
P('C08', 'Packing keeps every reachable object and drops the rest',
  "After a pack, every object reachable from the root has exactly its latest committed record, whatever commits clients make between any two steps of an incremental pack, and objects that were unreachable when the pack began and stay so are gone. A crash at any point during a pack leaves, on reopening, exactly the committed state, and a client that still holds a removed object gets a conflict error when it loads it, never other data, until it has synchronised.",
  'histories schedules crash_points',
  'every object graph, every interleaving of pack steps with commits, loads, object creation and relinking, every crash point of the pack, each storage that packs',
  'Tests pack tiny graphs with at most a single commit at one step and never crash.',
  'durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py durus/shelf.py durus/storage_server.py durus/connection.py',
  [('get_packer', 'durus/file_storage.py, durus/file_storage2.py, durus/sqlite_storage.py'), ('pack_extra', 'durus/file_storage*.py'), ('rename of the packed file', 'durus/file.py')],
  [('pack_extra', 'oids committed since the pack began', 'durus/file_storage.py'), ('invalid', 'oids removed by packs', 'durus/file_storage.py')]),
P('C09', 'An object id never denotes two objects',
  "A storage never hands out an object id that is stored or reserved by any client, nor one that a pack removed before every connected client has been told of the removal, and a connection never uses an id of an object that it still holds; two objects never share an id across commits, conflicts, aborted transactions, packing, reconnecting clients and reopening. Committing a new object therefore never replaces the record of a different one.",
  'histories schedules configurations',
  'every history of allocation, commit, conflict, disconnect, pack and reopen over any number of clients, each storage',
  'Tests allocate a few ids in a fresh storage; reuse appears only after specific pack/reopen/conflict histories.',
  'durus/shelf.py durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py durus/storage.py durus/storage_server.py durus/client_storage.py',
  [('Shelf.next_name / OffsetMap.gen_holes', 'durus/shelf.py'), ('StorageServer._new_oids', 'durus/storage_server.py'), ('ClientStorage.oid_pool', 'durus/client_storage.py'), ('_last_oid', 'durus/sqlite_storage.py')],
  [('allocated_unused_oids', 'ids handed out and not yet stored', 'durus/file_storage.py')]),
P('C10', 'A shelf is a durable mapping with an exact offset index',
  "A shelf built from any items and changed by any sequence of stores equals the corresponding dictionary under lookup, membership, iteration and items, before and after reopening; positions it reports point at the corresponding records, unused names it offers are fresh and never repeat, and iterations are not disturbed by lookups and stores in between. Its offset map reports exactly the entries assigned and exactly the remaining slots as holes.",
  'inputs histories',
  'every initial item set (dense, sparse, empty), every store sequence, every reopen point',
  'Tests use two or three fixed items; hole chains and word widths depend on sizes and gaps.',
  'durus/shelf.py durus/utils.py',
  [('Shelf.generate_shelf/store', 'durus/shelf.py'), ('OffsetMap.gen_stitch/gen_holes', 'durus/shelf.py')],
  [('memory_index', 'positions of names stored after the index', 'durus/shelf.py')]),
P('C11', 'A BTree is a sorted mapping that stays balanced',
  "Under any sequence of insertions, deletions (of present and missing keys), updates, clears and degree changes, a BTree of any node size equals a sorted dictionary for lookup, length, iteration in both directions, range and from-key queries, minimum and maximum. It stays balanced within the depth and occupancy bounds of its degree, also when some nodes were stored by old releases without counts, and every change is part of the next commit or undone by the next abort.",
  'histories inputs',
  'every operation sequence, key type with total order, node degree, commit/abort placement, and tree with legacy nodes',
  'Tests insert and delete a few fixed or random keys; the delete cases depend on the exact tree shape.',
  'durus/btree.py',
  [('BNode.delete / insert_item / split_child', 'durus/btree.py'), ('_count maintenance', 'durus/btree.py')],
  [('items, nodes, _count', 'content of a node', 'durus/btree.py')]),
P('C12', 'Persistent containers match builtins and record every mutation',
  "PersistentDict, PersistentList and PersistentSet give the same results, contents and error types as dict, list and set for the operations they share, including aliasing arguments (an object combined with itself) and failing operations. Whenever an operation changes the contents, the change is in the next commit (visible to other connections and after reopening) and is undone by abort.",
  'inputs histories',
  'every sequence of container operations with any arguments, interleaved with commit, abort and ghosting',
  'Tests call each method once or twice on small values without a connection.',
  'durus/persistent_dict.py durus/persistent_list.py durus/persistent_set.py',
  [('_p_note_change before mutation', 'durus/persistent_dict.py, durus/persistent_list.py, durus/persistent_set.py')],
  [('data / s', 'wrapped builtin', 'durus/persistent_*.py')]),
P('C13', 'Persistent attribute access is exact in both implementations',
  "For instances of any persistent class (with a dict, slots, both, inherited slots in any spelling), getting, setting and deleting attributes of any name behaves as for plain objects, loads a ghost when needed, marks the object changed exactly when data is written, and records the access in its connection. The C and the pure Python base classes behave identically for every sequence of such operations.",
  'programs inputs histories',
  'every class shape, attribute name (including internal prefixes, dunder and non-ASCII names) and operation sequence, on unsaved, saved and ghost objects',
  'Tests touch a few attributes of two classes, and run each implementation separately without comparing.',
  'durus/persistent.py durus/_persistent.c',
  [('__getattribute__/__setattr__', 'durus/persistent.py'), ('pb_getattro/pb_setattro', 'durus/_persistent.c'), ('_p_gen_data_slots', 'durus/persistent.py')],
  [('_p_status', 'UNSAVED/SAVED/GHOST', 'durus/persistent.py')]),
P('C14', 'Packed arrays and integer sets match plain models',
  "Byte, ByteArray, BitArray, WordArray, IntArray and IntSet behave like plain sequences or sets of bytes, bits, fixed words and integers under every sequence of reads, writes, slices, growth and iteration, reject indexes out of range and values that do not fit with an error and no change, and keep their contents when reopened on the same file. Accesses interleaved with an iteration do not disturb it.",
  'inputs histories',
  'every size, word width, value, index and operation order, in memory or on a file with a prefix',
  'Tests check a few fixed sizes; width boundaries, growth and interleaved iteration are not sampled.',
  'durus/utils.py',
  [('seek/read/write on the backing file', 'durus/utils.py')], []),
P('C15', 'Framing and record encodings round-trip under any chunking',
  "Reading back from a file or a socket whatever the writing functions wrote returns the same values and consumes exactly those bytes, however the transport splits or delays them, for every length and integer in range. Premature end of input and out-of-range values raise an error; packing and unpacking records and object id lists are inverse.",
  'inputs schedules',
  'every value, every split of the byte stream into recv/send chunks, every truncation point',
  'Tests use tiny values over one transport; partial sends and receives and large lengths are not forced.',
  'durus/utils.py durus/serialize.py',
  [('read/write/write_all', 'durus/utils.py'), ('pack_record/unpack_record/split_oids', 'durus/serialize.py')], []),
P('C16', 'No client can break the server for others',
  "Whatever bytes a client sends, however they are split, and whenever it disconnects, the server keeps serving the other clients correctly, and stored data changes only by complete, well-formed commits of ids the sender may write. A misbehaving client is at most disconnected itself.",
  'inputs schedules fault_sequences',
  'every byte string sent on a connection (valid, mutated, truncated commands), every disconnect point, while other clients work',
  'Tests send a few malformed commands at most.',
  'durus/storage_server.py durus/utils.py durus/file_storage.py',
  [('StorageServer.serve error handling', 'durus/storage_server.py'), ('handle_* command parsing', 'durus/storage_server.py')],
  [('clients/sockets', 'connected clients', 'durus/storage_server.py')]),
P('C17', 'Client storage through a server equals direct storage',
  "Every sequence of storage calls (id allocation, load, bulk load, commit, sync, traversal, pack) made through a client and server returns the same records and raises the same kinds of errors as on the storage itself. After any error the connection stays in step: later replies belong to later requests.",
  'histories inputs schedules',
  'every call sequence with existing, missing and invalidated ids, any record sizes, several clients, each storage behind the server',
  'Tests make a few successful calls; errors in the middle of bulk replies are not sampled.',
  'durus/client_storage.py durus/storage_server.py durus/storage.py durus/utils.py',
  [('request/response protocol', 'durus/client_storage.py, durus/storage_server.py')], []),
P('C18', 'Traversal and inspection tools report the stored graph exactly',
  "The record generator (from any starting object and batch size), crawler, referring-object search, reference index, class census, instance generator and reference toucher report exactly the reachable or stored objects, classes and references, each once, on every storage, whatever part of the graph is already cached or changed. A traversal during which transactions are committed still reports everything that is there all the time, once, with records that were current meanwhile.",
  'inputs configurations histories',
  'every object graph, start object, batch size, cache state and storage kind',
  'Tests run each tool on one small graph in one storage.',
  'durus/storage.py durus/connection.py durus/file_storage.py durus/file_storage2.py durus/sqlite_storage.py durus/client_storage.py durus/serialize.py',
  [('gen_oid_record', 'durus/storage.py, durus/file_storage*.py, durus/sqlite_storage.py'), ('get_reference_index etc.', 'durus/storage.py'), ('get_crawler, gen_every_instance, touch_every_reference', 'durus/connection.py')], []),
P('C19', 'A file has at most one writer, and read-only means read-only',
  "While one file storage has a file open for writing, every other attempt to open it for writing fails and changes nothing, at any time including during and after packs, and succeeds once the first is closed; read-only opens are always possible. A storage opened read-only refuses commits, does nothing for a pack, and never changes, creates or renames files.",
  'histories configurations',
  'every sequence of opens, closes, commits and packs (complete or in progress) by several storages in one or several processes, each file format',
  'Tests check a single double open.',
  'durus/file.py durus/file_storage.py durus/file_storage2.py durus/shelf.py',
  [('File.obtain_lock', 'durus/file.py'), ('File.rename', 'durus/file.py')],
  [('has_lock', 'flock held', 'durus/file.py')]),
P('C20', 'Computed attributes are never stale after synchronisation',
  "A computed attribute returns either a value computed in this connection or a freshly computed one, never a value computed before an invalidation that a synchronised connection has received; invalidating and committing makes every other connection recompute after its next synchronisation. The value itself is never stored, and invalidations conflict and abort like other changes.",
  'schedules histories',
  'every schedule of get, invalidate, commit, abort, ghosting over several connections',
  'Tests use two connections and one invalidation.',
  'durus/persistent.py durus/connection.py durus/storage_server.py',
  [('ComputedAttribute.invalidate/get', 'durus/persistent.py')], []),
P('C21', 'Format detection, conversion and command-line tools preserve data',
  "Every storage file is recognised as its own format whatever its contents, and copying records into another storage, packing with the command-line tool, renumbering and the Python 3 converter all give a storage holding the same object graph. The interactive client executes its startup file and what is typed in. Files of unknown format are refused and left unchanged.",
  'inputs configurations',
  'every object graph, every pair of formats, every file content',
  'Tests do not run the tools or conversions at all, apart from one detection case.',
  'durus/__main__.py durus/file_storage2.py durus/sqlite_storage.py bin/db_renumber.py bin/db_to_py3k.py durus/shelf.py',
  [('get_storage_class', 'durus/__main__.py'), ('create_from_records', 'durus/file_storage2.py, durus/sqlite_storage.py'), ('scripts', 'bin/')], []),
P('C22', 'Server addresses bind, connect and clean up correctly',
  "A server can be started on any supported kind of address (TCP, IPv6, file system socket, abstract socket, inherited socket), clients given the same address reach it, and stopping it frees the address. A stale socket file is replaced, but neither a live server nor a file that holds data is ever disturbed, and a requested umask or ownership applies to the socket only, leaving the process umask unchanged even on failure.",
  'configurations histories fault_sequences',
  'every address form, prior state of the path, owner/group/umask setting, and order of start, stop, second start',
  'Tests use one TCP port and one socket path.',
  'durus/storage_server.py durus/systemd_socket.py durus/__main__.py',
  [('SocketAddress classes', 'durus/storage_server.py'), ('get_systemd_socket', 'durus/systemd_socket.py')], []),
P('C23', 'Automatic packing starts exactly when due and never gets stuck',
  "With a byte threshold set, the server starts packing by itself once the bytes committed since the last pack reach it, and not before; with the threshold zero it never does. Automatic or requested, a pack proceeds while clients are idle, client requests are served between its steps, requests for a pack during a pack are harmless, and when it ends the count starts again.",
  'schedules histories configurations',
  'every threshold, commit size sequence, pack request and client schedule, each storage',
  'Tests do not set a threshold.',
  'durus/storage_server.py',
  [('StorageServer.serve', 'durus/storage_server.py'), ('bytes_since_pack', 'durus/storage_server.py')],
  [('packer', 'incremental pack in progress', 'durus/storage_server.py')]),
P('C24', 'One live instance per object, and the cache stays bounded',
  "While a program holds an object, every path to its id in that connection yields that same instance, across aborts, commits, cache shrinking, garbage collection and crawls. When more objects are cached than the target size, repeated shrinking turns unmodified objects that are not in use in the current transaction into ghosts, those unused for longer first when all are considered, until the target is met or none is left; other objects keep their state, objects that were used stay loaded until then, and dropped objects leave the cache.",
  'histories programs',
  'every sequence of loads, traversals, drops of references, collections, shrinks and size changes, for every cache size',
  'Tests load a few objects with one cache size.',
  'durus/connection.py durus/serialize.py durus/_persistent.c',
  [('ObjectDictionary', 'durus/connection.py'), ('Cache.shrink/_build_heap', 'durus/connection.py'), ('persistent_load', 'durus/serialize.py')],
  [('recent_objects', 'strong references to recently used objects', 'durus/connection.py')]),
P('C25', 'Failing writes never corrupt committed data',
  "When any single write, sync, truncate, rename or open made during a commit or pack fails or stops half way (disk full, I/O error), the commit or pack raises, all previously committed data stays readable at once and after reopening, and, once the fault is gone, later commits in the same or a new process succeed and are durable.",
  'fault_sequences histories',
  'every system call of every commit and pack in any history, with each error code and partial write length, each file-based storage',
  'No test injects I/O failures.',
  'durus/shelf.py durus/file_storage.py durus/file_storage2.py durus/file.py durus/sqlite_storage.py',
  [('revert in Shelf.store', 'durus/shelf.py'), ('end()', 'durus/file_storage2.py, durus/sqlite_storage.py')], []),
P('C26', 'The extension is memory safe and leaks nothing',
  "No sequence of operations on persistent objects and connections crashes the interpreter, whatever the attribute names, types and states, including failing loads, callbacks and reentrant use. Objects no longer referenced are freed, and reference counts stay balanced over any number of repetitions.",
  'programs inputs histories',
  'every operation sequence on the extension types, including error paths',
  'Tests check a few normal calls; error paths and reference balance are not sampled.',
  'durus/_persistent.c durus/persistent.py durus/serialize.py',
  [('pb_* functions', 'durus/_persistent.c'), ('call_if_persistent, _setattribute...', 'durus/_persistent.c')], []),
]

CHECKS = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
            f.write(json.dumps(p) + '\n')
    sys.path.insert(0, HERE)
    checks, missing = [], []
    for p in PROPS:
        if p['id'] in CHECKS:
            technique, level, note = CHECKS[p['id']]
            checks.append(dict(
                property=p['id'], quick_cmd='./check %s' % p['id'],
                thorough_cmd='./check %s --tier thorough' % p['id'],
                evidence_file='evidence/%s.json' % p['id'],
                technique=technique, level=level, level_note=note))
        else:
            missing.append(dict(property=p['id'],
                                reason=NOT_APPLICABLE.get(p['id'], 'check not built yet')))
    manifest = dict(version=1, setup_cmd='./setup', checks=checks,
                    not_applicable=missing, notes=NOTES)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
main()
