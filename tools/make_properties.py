"""Writes /verif/properties.jsonl. The single source of the property texts."""
import json, os
P = []
MS = 'core/ratarmountcore/mountsource/'
def add(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': list(observe), 'hook_needed': hook}})

add('P01', 'A mounted TAR shows exactly what the archive contains',
    "For every TAR archive, the mounted tree has exactly the archive's members plus the parent folders they imply, each with the type, "
    "size, permissions, owner, modification time, link target and content recorded in the archive. Where a path occurs more "
    "than once the last occurrence wins and the earlier ones stay reachable, in order, as older versions. Nothing is lost, invented or mixed up, whatever the member "
    "order, header dialect, name length, encoding, path spelling, sparse layout or outer compression.",
    ['inputs', 'configurations'], 'all member sequences, header dialects and read options',
    'Tests look at some fifty fixed archives; a wrong offset, a lost duplicate or a wrongly generated parent depends on the order and mix of members.',
    [MS+'formats/tar.py', 'core/ratarmountcore/SQLiteIndex.py', MS+'SQLiteIndexMountSource.py'],
    [('TAR header walk producing one index row per member', MS+'formats/tar.py:_process_tar_info'),
     ('generated parent folder rows', 'core/ratarmountcore/SQLiteIndex.py:_try_add_parent_folders'),
     ('ordering of duplicates by header offset', 'core/ratarmountcore/SQLiteIndex.py:lookup')],
    [('files table', 'one row per member and version', 'core/ratarmountcore/create-index-tables.sql')],
    ['list', 'lookup', 'versions', 'open+read'])

add('P02', 'Listing, lookup, version count and existence always agree',
    "For every supported archive format and every path, what listing a folder shows, what looking up each path returns, the short type listing, the existence test, the number of versions "
    "and the folder flag describe one and the same tree. Every listed entry can be looked up, every path that can be looked up is listed in its parent, unknown paths are reported as absent everywhere, "
    "and reading a regular file gives exactly as many bytes as its stated size.",
    ['inputs', 'configurations'], 'all archive formats, all small trees with awkward names, all paths over those names',
    'Tests probe a handful of paths per format with one or two of the calls; the calls are implemented separately per format.',
    [MS+'MountSource.py', MS+'formats/zip.py', MS+'formats/ar.py', MS+'formats/asar.py', MS+'formats/sqlar.py', MS+'formats/libarchive.py',
     MS+'formats/squashfs.py', MS+'formats/folder.py', MS+'formats/git.py', MS+'formats/fat.py', MS+'formats/rar.py', MS+'formats/py7zr.py'],
    [('common mount source interface', MS+'MountSource.py'), ('index-backed list/lookup', 'core/ratarmountcore/SQLiteIndex.py')],
    [], ['list', 'list_mode', 'lookup', 'exists', 'is_dir', 'versions', 'open+read', 'read'])

add('P03', 'Every archive format serves the member content that was stored',
    "For every archive that can be mounted (ZIP, AR, ASAR, SQLAR, 7z, cpio, ISO, folder, git, ...), each stored member appears at its normalized path with its stored type, size, link target and "
    "byte-exact content, and nothing else appears except implied parent folders. Members with the same path are resolved to the last one. Reading members in any order and interleaving gives the same bytes.",
    ['inputs', 'histories'], 'all small member sets per format and all orders of opening and reading the members',
    'Tests use one or two sample archives per format and read members once in archive order.',
    [MS+'formats/zip.py', MS+'formats/ar.py', MS+'formats/asar.py', MS+'formats/sqlar.py', MS+'formats/libarchive.py', MS+'formats/py7zr.py', MS+'formats/folder.py', MS+'formats/git.py'],
    [('per-format row conversion', MS+'formats/*.py:_convert_to_row'), ('libarchive forward iteration with archive cache', MS+'formats/libarchive.py:IterableArchiveCache')],
    [('archive cache', 'partially consumed archive iterators that may be reused', MS+'formats/libarchive.py')], ['list', 'lookup', 'open+read'])

add('P04', 'An opened file behaves like its bytes under any seek and read sequence',
    "Whatever sequence of seek, tell and read calls is applied to a file opened from a mount, it returns exactly what an in-memory file with the member's content would return. "
    "This holds for plain, sparse, joined, compressed and database-backed members, for every buffer size, and also after reads past the end or refused seeks. "
    "Positioned reads return the bytes at that position, never bytes of neighbouring members.",
    ['histories', 'inputs'], 'all seek/tell/read sequences up to a depth over all small part layouts and buffer sizes',
    'Tests try selected offsets; position bookkeeping across part borders depends on the whole history of calls.',
    ['core/ratarmountcore/StenciledFile.py', 'core/ratarmountcore/SQLiteBlobFile.py', MS+'formats/squashfs.py', MS+'formats/libarchive.py', MS+'formats/tar.py', MS+'MountSource.py'],
    [('stencil bisection', 'core/ratarmountcore/StenciledFile.py:_find_stencil'), ('positioned read', MS+'MountSource.py:read')],
    [('offset', 'logical position', 'core/ratarmountcore/StenciledFile.py')], ['seek', 'tell', 'read', 'mount source read'])

add('P05', 'Concurrent readers of one mount each get their own correct bytes',
    "When several threads open, read, list and look up through one mounted archive at the same time, every call returns what it would have returned alone. "
    "No interleaving makes a reader see another reader's bytes, a wrong listing, an error or a deadlock.",
    ['schedules'], 'all interleavings of two or three client threads up to a preemption bound',
    'Thread interleavings are not controlled by tests; a missing lock shows only in rare schedules.',
    ['core/ratarmountcore/StenciledFile.py', MS+'formats/tar.py', 'core/ratarmountcore/SQLiteIndex.py', MS+'formats/ar.py', MS+'formats/asar.py', MS+'formats/squashfs.py'],
    [('shared archive file guarded by a lock', 'core/ratarmountcore/StenciledFile.py:fileObjectLock'), ('index connection shared between threads', 'core/ratarmountcore/SQLiteIndex.py')],
    [('position of the shared archive file object', 'moved by every reader', MS+'formats/tar.py')], ['read', 'list', 'lookup'])

add('P06', 'Parallel block decompression equals sequential decompression',
    "Reading an XZ or Zstandard compressed file through the parallel reader returns the same bytes, positions and end-of-file behaviour as plain decompression for every sequence of seeks and reads. "
    "This holds for any block layout, cache size and number of workers and for every order in which workers finish.",
    ['schedules', 'histories', 'inputs'], 'all seek/read sequences up to a depth, all block layouts, all completion orders of the decoding jobs',
    'Tests read selected ranges with whatever completion order happens to occur.',
    ['core/ratarmountcore/BlockParallelReaders.py', 'core/ratarmountcore/utils.py'],
    [('block lookup, block cache and prefetch', 'core/ratarmountcore/BlockParallelReaders.py:_read'), ('least recently used cache and prefetch prediction', 'core/ratarmountcore/utils.py')],
    [('block cache', 'futures per block', 'core/ratarmountcore/BlockParallelReaders.py')], ['seek', 'read', 'tell'])

add('P07', 'Mounting with an existing index equals mounting without one',
    "Opening an archive again with the index that an earlier mount stored gives exactly the same tree, versions, attributes, extended attributes and file contents as a fresh mount without any index. "
    "This holds for every archive format that stores indexes, every outer compression, every place an index can be stored, plain or compressed index files, and every index relevant option.",
    ['inputs', 'configurations'], 'all small archives x compressions x index placements x options, first and later mounts',
    'Tests reload the index for few archives and compare few paths.',
    ['core/ratarmountcore/SQLiteIndex.py', MS+'SQLiteIndexMountSource.py', MS+'formats/tar.py', 'core/ratarmountcore/SQLiteBlobFile.py'],
    [('index loading and checks', MS+'SQLiteIndexMountSource.py:_load_index'), ('seek point import/export', 'core/ratarmountcore/SQLiteIndex.py:synchronize_compression_offsets')],
    [('index file', 'SQLite database next to the archive or in a cache folder', 'core/ratarmountcore/SQLiteIndex.py')], ['list', 'lookup', 'read'])

add('P08', 'An index of a different archive state is never served',
    "When an archive file is appended to, truncated, replaced or rewritten after its index was stored, the next mount shows the archive's present content, as a fresh mount would, provided its size changed, "
    "or its modification time changed and modification time verification was requested. Neither is an index used that was made by another backend, for an archive of another size, or that is empty or incomplete.",
    ['histories', 'configurations'], 'all histories of mounts and archive changes up to a depth, with all verification options',
    'Tests exercise a few single appends; staleness depends on histories of mount, change, mount and on option combinations.',
    [MS+'formats/tar.py', MS+'SQLiteIndexMountSource.py', 'core/ratarmountcore/SQLiteIndex.py'],
    [('comparison of stored archive statistics', 'core/ratarmountcore/SQLiteIndex.py:check_archive_stats'), ('append detection and incremental update', MS+'formats/tar.py:_check_metadata')],
    [('tarstats metadata', 'size, mtime, sampled hashes of the indexed archive', 'core/ratarmountcore/SQLiteIndex.py')], ['list', 'lookup', 'read'])

add('P09', 'A crash while an index is written never corrupts later mounts',
    "If the process dies at any moment while it creates, updates or extends an index file, the next mount of the archive still shows exactly what a fresh mount shows. "
    "A partial index is recognised and rebuilt or completed, never served as if it were whole, and the staleness checks still protect it afterwards.",
    ['crash_points'], 'all points between two effects on the index database or its files, including partially written files',
    'Tests never kill the process inside index creation.',
    ['core/ratarmountcore/SQLiteIndex.py', MS+'SQLiteIndexMountSource.py', MS+'formats/tar.py'],
    [('temporary tables mark an unfinished index', 'core/ratarmountcore/SQLiteIndex.py:index_is_loaded'), ('finalize and metadata storage', MS+'SQLiteIndexMountSource.py:_finalize_index')],
    [('index tables', 'files, filestmp, parentfolders, metadata, xattrs', 'core/ratarmountcore/create-index-tables.sql')], ['list', 'lookup', 'read'])

add('P10', 'Mounting never alters archives and obeys the index placement options',
    "Mounting and reading never change, replace or delete an archive or any foreign file. With indexes restricted to use only existing ones, no index file is created, changed or removed; an in-memory index leaves no file; an explicitly named index is the only location used; "
    "a list of index folders is tried in order and no stray or temporary files remain after closing.",
    ['configurations', 'histories'], 'all combinations of index options, pre-existing index states and unwritable locations, over mount/close histories',
    'Tests check individual options; the promise concerns every combination and every leftover file.',
    ['core/ratarmountcore/SQLiteIndex.py', MS+'SQLiteIndexMountSource.py', MS+'formats/tar.py', 'core/ratarmountcore/utils.py'],
    [('candidate index paths', 'core/ratarmountcore/SQLiteIndex.py:get_index_path...'), ('writability probe', 'core/ratarmountcore/utils.py:ensure_writable_path')],
    [], ['file system state before and after'])

add('P11', 'Union mounts merge sources with the rightmost source winning',
    "In a union of any sources, a path shows the entry of the rightmost source that has it, folders show the merged names of all sources, and the version count and older versions run through all sources from newest to oldest. "
    "Listing and lookup agree, and caching of the folder structure never changes any answer, also when a mutable source changes.",
    ['inputs', 'configurations', 'histories'], 'all small layer stacks, all paths and version numbers, all cache settings, and changes of mutable layers',
    'Tests build a few fixed unions.',
    [MS+'compositing/union.py'], [('precedence and version walk', MS+'compositing/union.py:lookup'), ('folder cache', MS+'compositing/union.py:_build_folder_cache')],
    [('folder cache', 'folders per mount source', MS+'compositing/union.py')], ['list', 'lookup', 'versions', 'read'])

add('P12', 'Hidden version folders expose every version of a file in order',
    "For every file with n versions, its special versions folder lists exactly 1 to n from oldest to newest, each readable with the attributes and content of that version, and the plain path is the newest. "
    "Hard links resolve to the content and attributes of their target, chains and self references included, never looping. Real files that merely look like version paths stay reachable, and adding the version view changes no other path.",
    ['inputs'], 'all small archives with repeated names, links and names that collide with version paths',
    'Tests cover some archives with one or two updated files.',
    [MS+'compositing/versioning.py'], [('version path decoding', MS+'compositing/versioning.py:_decode_versions_path_api'), ('hard link resolution', MS+'compositing/versioning.py')],
    [], ['list', 'lookup', 'versions', 'read'])

add('P13', 'Recursive mounting shows nested archives faithfully, eagerly or lazily',
    "With recursive mounting, each nested archive down to the requested depth, and none deeper, appears as a folder with exactly the content that mounting it alone would show, while all other entries stay as they were and the archive file itself stays available as an older version. "
    "Lazy mounting, in any access order, ends in the same tree as eager mounting. Suffix stripping and mount point renaming change only the mount point names.",
    ['inputs', 'histories', 'configurations'], 'all small nestings, depths, naming options and access orders',
    'Tests walk few nested samples in one order.',
    [MS+'compositing/automount.py', MS+'formats/tar.py', 'core/ratarmountcore/compressions.py'],
    [('mount point table', MS+'compositing/automount.py:_try_to_mount_file'), ('extension rules', 'core/ratarmountcore/compressions.py:strip_suffix')],
    [('mounted table', 'mount points created so far', MS+'compositing/automount.py')], ['list', 'lookup', 'read'])

add('P14', 'Dynamic mounting and unmounting keeps exactly the mounted sources visible',
    "After any history of mounting sources at paths and unmounting them, exactly the currently mounted sources are visible at their paths, with correct content, versions and attributes, and exactly the needed parent folders exist. "
    "Refused or invalid requests change nothing, and a mount never disturbs another.",
    ['histories'], 'all mount/unmount/query histories up to a depth over nested and overlapping paths',
    'Tests replay a few fixed histories.',
    [MS+'compositing/subvolumes.py', MS+'compositing/removeprefix.py', MS+'compositing/singlefile.py'],
    [('recursive dictionary of mount points', MS+'compositing/subvolumes.py')], [('mountSources', 'nested dictionary', MS+'compositing/subvolumes.py')],
    ['list', 'lookup', 'open+read', 'xattrs'])

add('P15', 'The write overlay behaves like an ordinary writable file system',
    "A mount with a write overlay answers every sequence of file operations (create, write, truncate, rename, unlink, mkdir, rmdir, symlink, link, chmod, chown, utime, open, read, list) like an ordinary file system that initially holds the archive's tree: same visible tree, contents and attributes, and the same success or failure. "
    "Only hard links to files that exist only in the archive and renames of folders from the archive are refused (EXDEV) and then change nothing; handles opened before the first modification may still show the old content. "
    "The archive file itself never changes, and no operation touches anything outside the overlay folder (except through symbolic links the user placed in it).",
    ['histories'], 'all operation sequences up to a depth on small trees that mix archive and overlay entries',
    'There are no unit tests for the overlay; its state is split over a folder, a database and the archive, so errors need particular sequences.',
    ['ratarmount/WriteOverlay.py', 'ratarmount/FuseMount.py', MS+'compositing/union.py'],
    [('copy-on-write into the overlay folder', 'ratarmount/WriteOverlay.py:_ensure_file_is_modifiable'), ('deletion marks', 'ratarmount/WriteOverlay.py:_mark_as_deleted')],
    [('files table of the overlay database', 'deletion marks and attribute overrides', 'ratarmount/WriteOverlay.py')], ['FUSE operations'])

add('P16', 'Overlay changes persist across unmount and remount',
    "After any sequence of changes through a write overlay, unmounting and mounting again with the same overlay folder shows the same tree, contents and attributes as before the unmount, and further changes continue to behave correctly. "
    "The archive is unchanged, and an overlay folder with the same archive fully determines the view.",
    ['histories'], 'all histories of operations with a remount at every position',
    'No tests cover the overlay across remounts.',
    ['ratarmount/WriteOverlay.py', 'ratarmount/FuseMount.py'], [('overlay database and folder', 'ratarmount/WriteOverlay.py')], [], ['FUSE operations after remount'])

add('P17', 'A crash during an overlay change damages nothing else',
    "If the process dies at any point inside a change to a write overlay, a later mount with that overlay works, and every path not involved in the interrupted operation is exactly as before. "
    "Each involved path is in its old or its new state (attributes possibly independently of content, a written range possibly in part, and a renamed file under at least one of its names), so completed earlier changes, and the archive's own content, are never lost.",
    ['crash_points', 'histories'], 'all crash points between two file or database effects of every operation, after short histories',
    'No test interrupts an overlay operation.',
    ['ratarmount/WriteOverlay.py'], [('order of database and file system effects', 'ratarmount/WriteOverlay.py')], [], ['FUSE operations after remount'])

add('P18', 'Committing an overlay makes the archive equal to the overlay view',
    "After committing a write overlay, mounting the archive alone shows the tree, contents and attributes that the archive with the overlay showed before, for every sequence of overlay changes. "
    "Nothing else in the archive is lost or duplicated, and without confirmation, or when the archive cannot be committed to, the archive stays unchanged.",
    ['histories'], 'all overlay histories up to a depth followed by a commit',
    'Committing is not unit tested; it depends on how additions, deletions, folders and odd names combine.',
    ['ratarmount/WriteOverlay.py', 'ratarmount/actions.py'], [('tar --delete and --append file lists', 'ratarmount/WriteOverlay.py:commit_overlay')], [], ['mount of the archive after commit'])

add('P19', 'The FUSE interface reports exactly what the sources contain',
    "Through the FUSE operations every path's attributes, folder listing, link target, extended attributes and reads agree with the mounted sources, handles opened at the same time stay independent, and reads at any offset and size return exactly the bytes of that range. "
    "Missing paths, wrong types and modifications of read-only mounts give an error and change nothing. The control and version folders never hide real files.",
    ['histories', 'inputs'], 'all sequences of open, read, release, getattr, readdir, readlink and getxattr calls up to a depth',
    'The FUSE class has no unit tests.',
    ['ratarmount/FuseMount.py'], [('handle table', 'ratarmount/FuseMount.py:open'), ('attribute conversion', 'ratarmount/FuseMount.py:getattr')],
    [('openedFiles', 'handles to opened files', 'ratarmount/FuseMount.py')], ['FUSE operations'])

add('P20', 'Stored file hashes always match the file contents and survive interruption',
    "Whenever hashes are requested, after a completed mount every readable regular file has exactly the requested hash attributes, each equal to the hash of the file's content, for every version of a file. "
    "Interrupted or failing hash runs never leave a wrong hash, and a later mount completes the missing ones without losing attributes already there.",
    ['crash_points', 'configurations', 'inputs'], 'all algorithm subsets, all interruption points, all repeat runs with other algorithms',
    'Tests hash a few archives without interruption.',
    ['core/ratarmountcore/hashing.py', MS+'SQLiteIndexMountSource.py', 'core/ratarmountcore/SQLiteIndex.py'],
    [('hash computation and storage', MS+'SQLiteIndexMountSource.py:_compute_hashes')], [('xattrs tables', 'per file attribute values', 'core/ratarmountcore/SQLiteIndex.py')], ['list_xattr', 'get_xattr'])

add('P21', 'Split files are joined completely and in order',
    "A file split into numbered or lettered parts mounts as if the parts had been concatenated in order, whether it is an archive or any other file, whichever part is named, on disk or inside another archive. "
    "Unrelated neighbouring files are never joined, and a single file is left alone.",
    ['inputs'], 'all small sets of neighbouring file names in every numbering scheme',
    'Tests check some name sets; joining decisions depend on all neighbouring names together.',
    ['core/ratarmountcore/compressions.py', 'core/ratarmountcore/StenciledFile.py', MS+'factory.py', MS+'compositing/automount.py'],
    [('sequence detection', 'core/ratarmountcore/compressions.py:check_for_split_file_in'), ('joined file view', 'core/ratarmountcore/StenciledFile.py')], [], ['mounted content'])

add('P22', 'Damaged or truncated archives never yield wrong content',
    "For an archive cut off at any byte, mounting either fails with an error or shows only members that the intact archive has, with their true attributes, and reading returns the true bytes, a true prefix, or an error. "
    "It never crashes uncontrolled, hangs, or shows data of one member as another's. Trailing garbage or padding after the end does not change the view.",
    ['fault_sequences', 'inputs'], 'all truncation points of small archives of each format',
    'Tests have two truncated samples.',
    [MS+'formats/tar.py', MS+'formats/ar.py', MS+'formats/zip.py', MS+'formats/asar.py', 'core/ratarmountcore/StenciledFile.py'],
    [('end-of-archive and past-end checks', MS+'formats/tar.py')], [], ['mount result', 'list', 'read'])

add('P23', 'Format detection is exact and does not disturb the input',
    "The kind of an archive or compressed file is recognised by content whatever its name, the position of a probed file is always restored, and probing never changes what a later open sees. "
    "Preferring a backend or disabling one changes which backend serves an archive, never which content is shown, and something that is no archive is refused or served as a plain file.",
    ['inputs', 'configurations'], 'all formats x names x backend preferences x starting positions',
    'Tests probe each format with its usual name and default backends.',
    ['core/ratarmountcore/formats.py', 'core/ratarmountcore/compressions.py', MS+'factory.py', MS+'archives.py'],
    [('magic byte tables', 'core/ratarmountcore/formats.py:might_be_format'), ('backend selection loop', MS+'factory.py:open_mount_source')], [], ['detected formats', 'mounted content'])

add('P24', 'Bounded caches and blob stores return what was put in',
    "A size limited cache always returns the last value stored for a key it still holds, never holds more than its limit, and evicts only the least recently used entry. "
    "Data written through the chunked database store comes back unchanged for every split into writes and chunks. Access prediction suggests only what lies directly ahead and never more than allowed.",
    ['histories', 'inputs'], 'all operation sequences up to a depth over small sizes',
    'Tests contain a few fixed sequences.',
    ['core/ratarmountcore/utils.py', 'core/ratarmountcore/SQLiteBlobFile.py'], [('least recently used eviction', 'core/ratarmountcore/utils.py:LRUCache'), ('chunked blob writer and reader', 'core/ratarmountcore/SQLiteBlobFile.py')],
    [('lastUsed', 'recency order', 'core/ratarmountcore/utils.py')], ['cache and store methods'])

add('P25', 'The control interface runs exactly the command written, once',
    "Writing a command line to the control file runs exactly the arguments that were written, once, when the file is closed, for every way the bytes are split into writes and every supported separator. "
    "Anything that is not such a command is refused with an error and runs nothing, and the mount keeps working. The control folder exists only when requested and its output file shows what was logged.",
    ['inputs', 'histories'], 'all small command texts, separators and write splittings, and histories of open, write and close',
    'The control interface has no unit tests.',
    ['ratarmount/FuseMount.py'], [('command parsing', 'ratarmount/FuseMount.py:split_command_line')], [], ['spawned argument lists', 'FUSE operations'])

add('P26', 'Access through the library file system adapter equals direct access',
    "Listing, info, open and read through the fsspec file system for archives give the same entries, types, sizes and bytes as mounting the archive, for every archive, path spelling and read pattern. "
    "Missing paths raise a not-found error, and chained addresses resolve to the same content.",
    ['inputs', 'histories'], 'all small archives, all path spellings, all read ranges',
    'Tests check single files.',
    ['core/ratarmountcore/SQLiteIndexedTarFsspec.py', MS+'formats/fsspec.py'], [('thin adapter', 'core/ratarmountcore/SQLiteIndexedTarFsspec.py')], [], ['ls', 'info', 'open', 'cat', 'find'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=True) + '\n')
    print(len(P))
