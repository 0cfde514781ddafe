"""Property id -> module and reporting details."""

ENTRIES = {
    'C11': dict(module='btree'),
    'C01': dict(module='roundtrip'),
    'C02': dict(module='transactions'),
    'C03': dict(module='failures'),
    'C04': dict(module='concurrent'),
    'C05': dict(module='conflicts'),
    'C06': dict(module='crashes', shim=True, assumptions=['crash model: a prefix of the recorded calls, cut at a byte, optionally without the last unsynced writes of each file; directory operations reach the disk in order']),
    'C07': dict(module='damage', shim=True),
    'C08': dict(module='packs', shim=True),
    'C09': dict(module='oids'),
    'C25': dict(module='faults', shim=True),
    'C10': dict(module='shelves'),
    'C12': dict(module='containers'),
    'C13': dict(module='attributes'),
    'C14': dict(module='arrays'),
    'C15': dict(module='framing'),
    'C16': dict(module='hostile'),
    'C17': dict(module='remote'),
    'C18': dict(module='tools'),
    'C19': dict(module='locks'),
    'C20': dict(module='computed'),
    'C21': dict(module='convert'),
    'C22': dict(module='addresses'),
    'C23': dict(module='gcbytes'),
    'C24': dict(module='cacheid'),
    'C26': dict(module='memsafe', modes=('c', 'asan')),
}
