import sys
import threading

import pykeramics
import pykeramics.datetime
import pykeramics.vfs
from pykeramics import vfs

assert pykeramics.vfs is sys.modules['pykeramics.vfs'] and pykeramics.datetime is sys.modules['pykeramics.datetime']
TYPES = ['APM', 'EXT', 'EWF', 'FAKE', 'GPT', 'MBR', 'OS', 'QCOW', 'VHD', 'VHDX']
for a in TYPES:
    for b in TYPES:
        if (getattr(vfs.VfsType, a) == getattr(vfs.VfsType, b)) != (a == b):
            raise SystemExit('%s and %s are the same, or not' % (a, b))

def time_of(value):
    if value is None:
        return 'None'
    kind = type(value)
    if kind is pykeramics.datetime.PosixTime64Ns:
        return '%s %d %d' % (kind.__name__, value.timestamp, value.fraction)
    return '%s %d' % (kind.__name__, value.timestamp)

def entry_of(entry):
    if entry is None:
        return 'None'
    name = entry.name
    return '|'.join(['-' if name is None else '=' + name.to_string().encode('utf-8').hex(), time_of(entry.modification_time),
                     time_of(entry.access_time), time_of(entry.change_time), time_of(entry.creation_time)])

locations = {}

def location_of(parts):
    if parts not in locations:
        kind, path = parts[-1].split(':')
        kind = getattr(vfs.VfsType, kind)
        path = vfs.VfsPath(kind, bytes.fromhex(path).decode('utf-8'))
        if len(parts) == 1:
            locations[parts] = vfs.VfsLocation(kind, path)
        else:
            # The one below is used for all that are in it.
            locations[parts] = location_of(parts[:-1]).new_with_layer(kind, path)
    return locations[parts]

resolver = vfs.VfsResolver()

def answer(what, location):
    try:
        if what == 'system':
            return type(resolver.open_file_system(location)).__name__
        if what == 'other':
            # A resolver of its own.
            return entry_of(vfs.VfsResolver().get_file_entry_by_location(location))
        return entry_of(resolver.get_file_entry_by_location(location))
    except RuntimeError:
        return 'RuntimeError'
    except BaseException as e:
        return 'raises %s: %s' % (type(e).__name__, str(e).replace('\n', ' '))

for line in sys.stdin.read().splitlines():
    threaded, what, rest = line.split(' ', 2)
    location = location_of(tuple(rest.split(' ')))
    if threaded == 'thread':
        got = []
        thread = threading.Thread(target=lambda: got.append(answer(what, location)))
        thread.start()
        thread.join()
        print(got[0])
    else:
        print(answer(what, location))
