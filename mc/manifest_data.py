CHECKS = {
    'P24': ('model_checking', 'explicit-state exploration of the real cache/blob store against a reference model',
            'Every operation sequence over 3 keys/2 values (state-deduplicated) and every write split over small sizes '
            'was executed on the real code and compared with a dictionary/recency and byte string model.'),
}
CHECKS['P04'] = (
    'model_checking', 'bounded exhaustive exploration of seek/read sequences on the real file objects',
    'Every sequence of seek/read operations up to depth 2-3 over every part layout and buffer size, and every pair '
    '(fresh) and triple (de Bruijn walk) of operations on members opened from 34 kinds of mounts, against a position model.')

CHECKS['P01'] = (
    'model_checking', 'bounded exhaustive enumeration of archives (own TAR writer) against a reference tree',
    'Every single member over names x types x dialects x attributes x compressions, every sequence of up to 3 (4) members '
    'of an alphabet of colliding members, every end/concatenation variant, and GNU tar written archives are mounted and '
    'compared with a reference tree that is derived from the members, not from any TAR reader.')

CHECKS['P12'] = (
    'model_checking', 'bounded exhaustive enumeration of member histories on the real version layer',
    'Every history of up to 4 (5) members over colliding file, folder, link and version-like names is mounted with and without '
    'the version view and every version, version folder and ordinary path is compared with the reference history.')

CHECKS['P11'] = (
    'model_checking', 'bounded exhaustive enumeration of unions of reference sources and real archives',
    'Every union of up to three small trees (mutable or not, with every single mutation, every kind of listing and every cache '
    'limit) and pairs of real archives of several formats are compared path by path and version by version with the definition.')

CHECKS['P14'] = (
    'model_checking', 'exhaustive exploration of mount/unmount histories on the real subvolume layer and FUSE commands',
    'Every history of mount, unmount and query operations over nested mount points up to a bounded depth is run on the real '
    'SubvolumesMountSource and through the commands of FuseMount, with every open handle followed, against a map of mounts.')

CHECKS['P25'] = (
    'model_checking', 'exhaustive exploration of write splits, handle interleavings and command sequences',
    'Every split of command lines into writes, every interleaving of two writers, every log read split and every bounded command '
    'sequence is run on the real control interface, with the started processes recorded, against the command model.')

CHECKS['P19'] = (
    'model_checking', 'exhaustive exploration of FUSE operation histories on the real FUSE class',
    'Every sequence of open/read/release/list operations up to depth 5 (6), every pair of positioned reads over several handles and '
    'every path and attribute of 21 formats x 9 mount configurations is compared with the tree the archive was built from.')

CHECKS['P15'] = (
    'model_checking', 'exhaustive exploration of FUSE operation histories with a write overlay against a file system model',
    'Every sequence of file operations up to a depth (state-deduplicated, with files held open in between) on the real FUSE class is '
    'compared with an in-memory file system model, and the model itself is replayed against a real file system.')

CHECKS['P16'] = (
    'model_checking', 'exhaustive exploration of overlay histories with remounts at every position',
    'Every history of changes with unmounts and mounts in between is run on the real code and compared with the file system model.')

CHECKS['P17'] = (
    'model_checking', 'exhaustive crash point and torn write injection into overlay operations',
    'The process is stopped before every single file system change (counted by a preloaded library) and inside every write, for '
    'every operation after every short history, and the remounted view is compared path by path with the states before and after.')

CHECKS['P18'] = (
    'model_checking', 'exhaustive exploration of overlay histories followed by a commit',
    'Every distinct overlay state up to a depth is committed with the real code into several kinds of archives, which are mounted '
    'again and compared with the view before, including every refused or unconfirmed commit.')

CHECKS['P03'] = (
    'model_checking', 'exhaustive enumeration of member sequences and open orders per format against a reference tree',
    'Every sequence of members up to a depth, over alphabets of common, awkwardly named and awkwardly sized members, is archived in 26 '
    'formats, mounted from paths and file objects, compared completely with the reference tree and read interleaved in both orders.')

CHECKS['P02'] = (
    'model_checking', 'exhaustive enumeration of archives and mount compositions, cross-checking every query of every path',
    'Every sequence of members up to a depth in 26 formats, every small archive of the repository, and every composition of unions, '
    'version views, mount points, prefixes and recursive mounts over pairs of small archives are mounted, and listing, type listing, '
    'lookup, existence, folder flag, version count, versions, sizes and content of every path are compared with each other.')

CHECKS['P07'] = (
    'model_checking', 'exhaustive enumeration of archives, index placements, index forms and options over repeated mounts',
    'Every combination of small archives in all formats that store indexes, outer compressions, index locations, plain and compressed '
    'index files, thresholds and options is mounted with and without index, twice, in parallel and read-only, and every observable of '
    'every path is compared with a mount without index.')

CHECKS['P08'] = (
    'model_checking', 'exhaustive exploration of archive change and mount histories',
    'Every history of archive states (contents x modification times) and mounts up to depth 3, every kind of member appended to large '
    'TAR archives after every kind of last member, and foreign, empty and incomplete index databases are run on the real code and '
    'compared with a mount without index.')

CHECKS['P09'] = (
    'model_checking', 'exhaustive enumeration of crash points and torn writes of the real index creation',
    'For each way of writing an index (created, replaced, extended, hashed, moved to disk, decompressed) the process is ended at each of '
    'its file system changes and inside of each write. Afterwards read-only and writing mounts of the same and of a changed archive are '
    'compared with mounts without index.')

CHECKS['P10'] = (
    'model_checking', 'exhaustive enumeration of file system states and placement options against an explicit placement model',
    'Every combination of archive kind, index placement, what is already at each possible location (indexes, foreign files, links, '
    'folders, archives) and options is mounted on the real code. The complete file system before and after is compared with what a '
    'model of the documented placement rules allows.')

CHECKS['P13'] = (
    'model_checking', 'exhaustive enumeration of nestings, member sets, depths, namings and access orders against composed single mounts',
    'Every chain of nested archives up to a length over all formats, every set of special members, each depth, naming, extension rule, '
    'eager and lazy mounting after every short order of accesses, and repeated mounts with indexes are compared completely with the tree '
    'composed of mounts of the single archives.')

CHECKS['P20'] = (
    'model_checking', 'exhaustive enumeration of archives, hash selections, histories of mounts and interruption points',
    'Every small archive in all formats with every selection of hashes, every history of mounts requesting different hashes, every crash '
    'point of the real hash computation and every failing read is run on the real code, and all attributes of all versions of all files '
    'are compared with hashes computed independently.')

NOT_APPLICABLE = {}
