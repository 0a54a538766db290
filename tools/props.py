"""The properties, in the format of /root/.vp/PROPERTIES.schema.json."""
H = ['histories', 'inputs', 'configurations']
def P(id, title, statement, over, text, why, files, mech, observe=None, note='', technique=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None), note=note)
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if technique: d['technique'] = technique
    return d

LABELS = ['libparted/labels/' + x for x in ('dos.c', 'gpt.c', 'mac.c', 'sun.c', 'bsd.c', 'dvh.c', 'rdb.c', 'pc98.c', 'atari.c', 'loop.c')]
BASE_NOTE = ('Exhaustive within the stated depth and alphabet: every operation sequence is executed on the code built from the working tree, over all ten writable label '
             'types, several sector sizes and geometries. Assumes the in-memory device behaves like a block device and that one depth-bounded alphabet is representative. ')
TBL = [('PedDisk.part_list', 'the partitions, free space and metadata areas of a table', 'include/parted/disk.in.h')]
PROPS = [
P('P01', 'Partition lists stay well-formed',
  'After every sequence of operations on a partition table (add, remove, delete, move or resize, maximize, minimize the extended partition, change flags, commit, re-read, duplicate) the partition list is sorted, '
  'without overlaps, covers the whole device exactly with partitions, metadata and free space, keeps logical partitions inside one extended partition, and stays within the limits of the label. '
  'Partition numbers are unique, every partition can be found by its number and by its sectors, and next/last/count queries agree with the list.',
  H, 'all sequences of table operations, for all label types, sector sizes and requested start, end and constraint',
  'The tests run a few dozen fixed scripts; overlap and coverage errors depend on the particular order of add/delete/resize and on boundary sectors.',
  ['libparted/disk.c'] + LABELS, [('list maintenance and metadata/free-space placeholders', 'libparted/disk.c:_disk_push_update_mode/_disk_pop_update_mode, _disk_raw_add, _check_partition'), ('partition numbering', 'libparted/labels/*.c:*_partition_enumerate')],
  ['ped_disk_next_partition', 'ped_disk_get_partition', 'ped_disk_get_partition_by_sector'], BASE_NOTE + 'The oracle is an independent re-computation of coverage, order, numbering and limits.', state=TBL),
P('P02', 'A refused operation changes nothing',
  'When an operation on a partition table fails or is refused (add, delete, move or resize, maximize, minimize, set flag, name, type, commit preconditions), it says why and the partition table is exactly what it was before the call: same partitions, geometry, numbers, flags, names and types.',
  H, 'all operation sequences and every refused request reached by them', 'The tests rarely inspect the table after an error, and never for the combinations of label, geometry and constraint that make a late step fail.',
  ['libparted/disk.c'] + LABELS, [('restore on error paths', 'libparted/disk.c:ped_disk_add_partition, ped_disk_set_partition_geom, ped_disk_maximize_partition, ped_disk_minimize_extended_partition')],
  ['ped_disk_next_partition and partition accessors before and after the call'], BASE_NOTE + 'Compares complete snapshots of the table before and after every refused call.', state=TBL),
P('P03', 'A committed table reads back identically',
  'After a successful commit, reading the label from the device again gives the same table: same type, same partitions with the same type, start, end, number, flags, name, type id or UUID and disk flags. A table that was built by accepted operations can be committed, and committing what was just read changes nothing.',
  H, 'all operation sequences followed by a commit and a fresh read, for all writable label types', 'The tests commit and re-read a handful of fixed layouts per label, mostly msdos and gpt.',
  ['libparted/disk.c'] + LABELS, [('write and read of each label', 'libparted/labels/*.c:*_write, *_read'), ('commit', 'libparted/disk.c:ped_disk_commit_to_dev')],
  ['ped_disk_commit_to_dev then ped_disk_new'], BASE_NOTE + 'A commit is tried from every reached state. Known: bsd accepts flags that the label cannot store.', state=TBL),
P('P04', 'Commit writes only to label areas',
  'Creating a new label or committing a table writes only to the sectors that belong to the label (old or new) and never into the contents of a partition or unallocated space; boot code in the first sector that is not part of the table is preserved when an existing label is modified.',
  H, 'all operation sequences ending in a commit, over disks prefilled with data', 'Tests look at the table, not at every other sector of the device.',
  ['libparted/disk.c', 'libparted/device.c'] + LABELS, [('writes of each label', 'libparted/labels/*.c:*_write, *_clobber'), ('clobber', 'libparted/disk.c:ped_disk_clobber')], ['all sectors of the device before and after'],
  BASE_NOTE + 'Every write is intercepted and compared with an independent statement of where each label may live.'),
P('P05', 'A crash during commit does not lose partitions',
  'If the machine stops at any point while a modified table is being written, the partitions that the modification does not touch are still found on the device afterwards (primary partitions for labels with one copy; for GPT the whole old or the whole new table, which can be repaired from either copy). When commit reports success, everything it wrote has been flushed.',
  ['histories', 'crash_points'], 'all histories up to the depth, crashed before each single sector write of the commit', 'No test interrupts a commit.',
  LABELS, [('write order of table copies', 'libparted/labels/gpt.c:gpt_write, libparted/labels/atari.c:atari_write and the other *_write'), ('flush', 'libparted/device.c:ped_device_sync')], ['device contents at each crash point, re-read by the library'],
  'Every crash point of every explored commit is materialised and re-read by the code itself. Assumes sector writes are atomic and ordered.', 'exhaustive crash-point enumeration over bounded operation sequences on the implementation'),
P('P06', 'What is written is valid according to the format',
  'The bytes written for a table follow the published on-disk format of the label, as an independent reader sees them: same partitions, types, names, flags and UUIDs, correct magic numbers, checksums, counts, sizes, CHS values and backup structures. A GPT whose primary or backup header is damaged is recovered completely from the other copy.',
  H, 'all operation sequences followed by a commit, for all writable label types', 'Reading back with the same code hides errors that the reader and the writer share; tests check magic bytes of a few layouts.',
  LABELS, [('writers', 'libparted/labels/*.c:*_write'), ('checksums', 'libparted/labels/efi_crc32.c, gpt.c:pth_crc32, bsd.c:alpha_bootblock_checksum, sun.c:sun_compute_checksum, dvh.c, rdb.c:_amiga_calculate_checksum')], ['raw sectors of the device'],
  BASE_NOTE + 'The oracle is a set of independent decoders written from the format descriptions (harness/decode.c).'),
P('P07', 'I/O errors are reported and leave a retry possible',
  'When any single read, write or flush fails while a table is read or committed (once or from then on), the operation reports failure or, if it succeeds regardless, its result is the one without the fault; the in-memory table stays unchanged and well-formed, and after the fault is gone the same operation succeeds with the same result.',
  ['fault_sequences', 'histories', 'configurations'], 'every I/O of every commit and re-read reached by the operation sequences, failing once or permanently', 'The tests inject at most an error on one sector of one label.',
  ['libparted/disk.c', 'libparted/device.c'] + LABELS, [('error propagation', 'libparted/labels/*.c:*_read, *_write, libparted/device.c')], ['return values, exceptions, table snapshots, device contents'],
  'Every I/O operation of every explored commit and read is failed in turn on the real code. Known: pc98 probing.', 'exhaustive fault-point enumeration over bounded operation sequences on the implementation'),
P('P08', 'Damaged labels are read safely',
  'Whatever bytes the sectors of a label hold, probing, reading, walking, editing, duplicating and writing the table terminate without memory errors, failed assertions or endless loops. A label that is recognised but cannot be read is refused with a message; '
  'what can be read is a well-formed list of partitions inside the device with distinct numbers; and nothing is written while reading unless the user agreed to a repair.',
  ['inputs', 'configurations'], 'all contents of the label sectors', 'Tests read labels that parted itself wrote, and a few damaged GPT headers.',
  LABELS + ['libparted/labels/aix.c', 'libparted/labels/efi_crc32.c', 'libparted/labels/pt-common.h', 'libparted/disk.c'],
  [('readers', 'libparted/labels/*.c:*_probe, *_read'), ('chains on the disk', 'libparted/labels/dos.c:read_table (EBR), libparted/labels/rdb.c (partition and badblock lists), libparted/labels/atari.c (XGM)'), ('checksummed headers', 'libparted/labels/gpt.c:_header_is_valid, gpt_read')],
  ['ped_disk_probe', 'ped_disk_new', 'the exception handler', 'writes seen by the device'],
  'Exhaustive over one field (1, 2, 4, 8 bytes at every offset that can hold one) and over pairs of 4-byte fields of committed tables, with boundary values, checksums repaired or left wrong, and three ways to answer questions; not over all contents.',
  'exhaustive enumeration of field damage on label sectors, on the implementation under the address sanitizer'),
P('P09', 'Only commit and clobber write to the device',
  'Opening a device, probing and reading labels and file systems, and every operation on a table in memory leave every sector of the device unchanged; only committing or clobbering writes.',
  H, 'all operation sequences; every write is counted', 'Tests do not watch for writes.',
  ['libparted/disk.c', 'libparted/filesys.c', 'libparted/device.c'] + LABELS, [('separation of table edits from commit', 'libparted/disk.c')], ['writes seen by the device'], BASE_NOTE),
P('P10', 'Duplicating a table gives an equal, independent table',
  'A duplicate of a table has the same partitions, numbers, flags, names and types, commits to the same bytes as the original, and neither later changes of the original nor of the duplicate show in the other; both can be destroyed in any order.',
  H, 'all operation sequences with a duplication at any point and operations after it', 'Only the resize command of the CLI duplicates tables, in a few tests.',
  ['libparted/disk.c'] + LABELS, [('duplicate operations', 'libparted/disk.c:ped_disk_duplicate, libparted/labels/*.c:*_duplicate, *_partition_duplicate')], ['snapshots and committed bytes of both tables'], BASE_NOTE + 'The address-sanitized build is used for object lifetime.'),
P('P11', 'Sector arithmetic and constraint solving are exact',
  'Rounding, greatest common divisors, alignments, regions (geometries) and constraints mean what they say as sets of sectors: a sector or region satisfies an intersection exactly when it satisfies both parts and the intersection is reported empty exactly when it is; '
  'rounding up, down and to the nearest aligned sector inside a region gives that sector; containment, overlap, mapping, reading and writing of regions refer to exactly their sectors; the first bad sector of a region is found; '
  'solving a constraint gives a region that satisfies it and is nearest to what was asked for, or none exactly when there is none; constraints made from regions, devices and alignments admit exactly the regions they describe.',
  ['inputs'], 'all values of small domains, also placed far from zero', 'The unit tests check a handful of alignments and no constraint with a brute-force answer.',
  ['libparted/cs/natmath.c', 'libparted/cs/geom.c', 'libparted/cs/constraint.c', 'libparted/device.c', 'include/parted/natmath.in.h'],
  [('alignment intersection by extended Euclid', 'libparted/cs/natmath.c:ped_alignment_intersect'), ('constraint solving', 'libparted/cs/constraint.c:ped_constraint_solve_nearest'), ('bad sector search', 'libparted/cs/geom.c:ped_geometry_check')],
  ['return values of the functions in natmath.h, geom.h, constraint.h and the constraint functions of device.h'],
  'Complete over the stated domains. Known: constraints that permit fewer sizes than the grain of their end may be reported unsolvable or solved below their maximum.', 'exhaustive enumeration of bounded input domains against brute-force set semantics, on the implementation'),
P('P12', 'Partitions are placed within what was asked for',
  'A partition that is added or moved satisfies the constraint it was requested with: start and end ranges, alignment, minimum and maximum size. With an exact constraint it gets exactly the requested start and end or the request is refused; with optimal alignment its start is aligned.',
  H, 'all sequences of adds, moves and maximizes over a grid of boundary sectors and six kinds of constraint', 'Constraint solving against label constraints depends on combinations of boundary sectors; the unit tests use one or two.',
  ['libparted/disk.c', 'libparted/cs/constraint.c', 'libparted/cs/natmath.c', 'libparted/cs/geom.c'] + LABELS, [('intersection of user and label constraints', 'libparted/disk.c:_ped_partition_attempt_align, libparted/labels/*.c:*_partition_align')], ['geometry of the partition after the call'], BASE_NOTE),
P('P13', 'Maximize gives the largest, minimize the smallest partition possible',
  'The maximum geometry reported for a partition is really available: maximizing gives exactly it, and no larger geometry containing the partition that satisfies the constraint is accepted by the table. Minimizing the extended partition gives the smallest one that holds all logical partitions with their table sectors, or removes an empty one.',
  H, 'all layouts reachable by the operation sequences; larger geometries are tried one by one', 'Tests do not compare with what else would have been possible.',
  ['libparted/disk.c'] + LABELS, [('maximum and minimum', 'libparted/disk.c:ped_disk_get_max_partition_geometry, ped_disk_maximize_partition, ped_disk_minimize_extended_partition')], ['geometry after the call'], BASE_NOTE + 'Optional cylinder alignment is switched off.'),
P('P14', 'Setting a flag does just that',
  'A successful change of a partition flag gives the flag the requested value, changes no unrelated flag of that partition and nothing on other partitions, except that a flag only one partition can have (boot, root, swap where the label has one) moves; a flag that is not available is refused, and setting and clearing again brings back the former flags.',
  H, 'all sequences of flag, type and file-system changes on all labels', 'Flags share on-disk type bytes; tests set each flag once on a fresh partition.',
  ['libparted/disk.c'] + LABELS, [('flags mapped to types and bits', 'libparted/labels/*.c:*_partition_set_flag, *_get_flag, *_set_system')], ['ped_partition_get_flag for all flags and partitions'], BASE_NOTE),
P('P15', 'Label limits are enforced, never truncated',
  'A partition whose start, end or size the label cannot represent is refused; one that is accepted reads back with the same sectors. This holds at and around 2^31, 2^32 and larger sector numbers and at the cylinder limits of the geometry.',
  H, 'all short operation sequences on devices of up to 10^10 sectors with boundary sectors from a grid around the limits', 'Tests of limits exist for msdos and gpt only and for a few values.',
  LABELS + ['libparted/labels/pt-tools.c', 'libparted/labels/pt-limit.gperf'], [('limit checks', 'libparted/labels/pt-tools.c:ptt_geom_sanity_check..., libparted/labels/*.c:*_align')], ['table after commit and re-read, independent decoders'], BASE_NOTE),
P('P16', 'A new label takes the place of whatever was there',
  'Whatever a device holds (another label, damaged or leftover labels, file systems, the labels of a device of another size or sector size), after a new label has been created and committed the device identifies as that label, reads without complaint as an empty one, and no other label is found beside it. A label that the device cannot have is refused with a reason. '
  'After clobbering, no label is found. If the machine stops on the way, or an operation fails, the device holds nothing, the old label with no more partitions than it had, or the new empty one, never a third table; a failure is reported and trying again succeeds.',
  ['inputs', 'crash points', 'faults'], 'all prior contents of the generator x all label types x devices; all cut points and failing operations', 'The tests make new labels over a handful of labels and look at the result with the same label only.',
  LABELS + ['libparted/disk.c'], [('clobbering', 'libparted/disk.c:ped_disk_clobber, ped_disk_commit_to_dev'), ('new labels', 'libparted/disk.c:ped_disk_new_fresh, libparted/labels/*.c:*_alloc, *_write'), ('identification', 'libparted/disk.c:ped_disk_probe, libparted/labels/*.c:*_probe')],
  ['ped_disk_probe and the probe of every label type', 'ped_disk_new', 'exceptions'], BASE_NOTE, 'exhaustive enumeration of prior contents, crash points and faults on the real code'),
P('P17', 'The kernel sees the table that was committed',
  'When ped_disk_commit_to_os (or ped_disk_commit) returns success without an Ignore, the kernel has exactly the partitions of the table, each at its place with its length (an extended partition with the one or two sectors that it is given on purpose), and no others; whatever the kernel had before and in whatever order partitions grew, shrank, moved or swapped numbers, when nothing that is in use is in the way. '
  'A partition in use is not removed and keeps its start. When the kernel differs in the end, the differing partitions are reported to the user; a failure is never silent, whichever call failed. No descriptor, task or memory is leaked. ped_device_is_busy and ped_partition_is_busy say whether something is in use.',
  ['histories', 'faults', 'configurations'], 'all pairs of kernel state and table, all sets of busy partitions, all failing kernel calls, all device kinds', 'The tests need root and a kernel with scsi_debug or device-mapper, are skipped otherwise, and see one history each.',
  ['libparted/arch/linux.c', 'libparted/disk.c', 'libparted/device.c'],
  [('synchronising with the kernel', 'libparted/arch/linux.c:_disk_sync_part_table, _blkpg_*_partition, _dm_*_partition, _kernel_get_partition_*'), ('rereading', 'libparted/arch/linux.c:_have_blkpg, _kernel_reread_part_table, linux_disk_commit'), ('use', 'libparted/arch/linux.c:linux_is_busy, linux_partition_is_busy')],
  ['partitions of the (stand-in) kernel after the call', 'result and exceptions', 'open descriptors'],
  'The kernel is a stand-in (harness/fakekernel.h) for the block layer, sysfs, device-mapper and libblkid.', 'exhaustive enumeration of kernel states, tables and failing calls on the real back end'),
P('P18', 'What a device says about itself is what the kernel says, and sessions balance',
  'A PedDevice has the length, sector sizes, model and kind the kernel reports for the path, or is refused with a report; no field is uninitialised. Opens nest: the device file is open exactly while the count is positive and no external access is going on, is read-only only when the kernel refuses writing and then says so, and is closed at the end; nothing is leaked by any sequence of calls or any failing call. '
  'Opening tells the kernel to flush its caches; alignments come from the reported topology and are valid constraints; probing lists each device once.',
  ['histories', 'faults', 'configurations'], 'all call sequences, all failing calls, all device kinds and kernel answers', 'The tests see image files, one session each.',
  ['libparted/device.c', 'libparted/arch/linux.c'],
  [('sessions', 'libparted/device.c:ped_device_open, ped_device_close, ped_device_begin_external_access, ped_device_end_external_access'), ('identification', 'libparted/arch/linux.c:linux_new, init_*, _device_get_length, _device_get_sector_size, _device_probe_type'), ('alignment', 'libparted/arch/linux.c:linux_get_minimum_alignment, linux_get_optimum_alignment'), ('probing', 'libparted/arch/linux.c:linux_probe_all')],
  ['fields of PedDevice', 'descriptors open at the stand-in kernel', 'results and exceptions'],
  'The kernel is a stand-in (harness/fakekernel.h).', 'exhaustive enumeration of call sequences, failing calls and kernel answers on the real back end'),
P('P19', 'Locations and sizes are formatted and parsed exactly',
  'A location typed in any unit denotes that sector: number times unit size, rounded down to a sector, counted from the end of the device if negative, in the default unit if none is given; its range is that sector alone for sectors, bytes and IEC units and half a unit to each side otherwise, clipped to the device; '
  'a location whose range is outside the device is refused. A location is shown rounded to the digits shown, in the unit asked for (the largest giving at least 10 for compact); sectors, bytes and CHS are shown exactly, and what is shown is parsed back to within its precision. '
  'Malformed numbers and CHS values out of range are refused with a message, whatever their size.',
  ['inputs', 'configurations'], 'all numbers, units and device sizes', 'The unit tests parse a handful of locations on one disk.',
  ['libparted/unit.c', 'include/parted/unit.h'], [('parsing', 'libparted/unit.c:ped_unit_parse_custom, parse_chs, geometry_from_centre_radius'), ('formatting', 'libparted/unit.c:ped_unit_format_custom_byte')],
  ['return values of the functions of unit.h', 'exceptions'],
  'Suffixes that name no unit are taken by parted as the default unit and are not covered. Positive numbers below 1 are refused by design.', 'exhaustive enumeration of bounded input domains against exact arithmetic, on the implementation'),
P('P21', 'A parted command does what it says or fails and changes nothing',
  'When the parted program exits with success, the disk holds exactly what the commands asked for: the label, partition, boundaries (within the precision of the unit), name, type, flags named, with every other partition, name, flag and type untouched. '
  'When a command is invalid or cannot be carried out, including because the device fails, the exit status says so and the disk is as before that command. Commands that only show something never write. '
  'The same command typed at the prompt gives the same result, and answering no to a question changes nothing.',
  ['histories', 'faults'], 'all sequences of commands, all I/O faults during the last one, all answers', 'The test suite runs fixed scripts and compares their output, mostly of single successful commands.',
  ['parted/parted.c', 'parted/ui.c', 'parted/command.c', 'libparted/unit.c', 'libparted/disk.c'],
  [('commands', 'parted/parted.c:do_mklabel, do_mkpart, do_rm, do_resizepart, do_set, do_name, do_type, do_disk_set, do_print'), ('argument parsing', 'parted/ui.c:command_line_get_*'), ('exit status', 'parted/ui.c:non_interactive_mode')],
  ['exit status', 'disk contents before and after', 'output'],
  'Commands and arguments come from a fixed list; boundaries are checked to within half a unit of what was typed.', 'exhaustive enumeration of command sequences, faults and answers on the real program'),
P('P22', 'print shows the table that is on the disk',
  'print, in the human, machine and JSON modes, in every unit, shows each partition (and with "free" each free region) exactly once with the number, boundaries, size, type, file system, name, flags and identifiers it has, and the disk with its size, sector sizes, label and flags. '
  'Machine and JSON output can be parsed back to the exact names and flags whatever characters these contain; JSON output is valid. Printing never writes, crashes or omits a part of the table.',
  ['inputs', 'configurations'], 'all tables, names and units', 'The tests compare a few fixed outputs with plain names.',
  ['parted/parted.c', 'parted/table.c', 'parted/strlist.c', 'parted/jsonwrt.c', 'libparted/unit.c'],
  [('output', 'parted/parted.c:do_print, _print_disk_info'), ('JSON strings', 'parted/jsonwrt.c:fputs_quoted_case_json'), ('human table', 'parted/table.c:table_render_row')],
  ['standard output of print', 'the table as libparted reads it'],
  'Tables, names and flags come from a fixed list; sizes are compared with ped_unit_format, which P19 decides.', 'exhaustive enumeration of tables, modes and units on the real program'),
P('P24', 'Resizing a FAT file system keeps every file',
  'After ped_file_system_resize of a FAT16 or FAT32 file system succeeded, the new place holds a consistent FAT file system of exactly the new size with every file, directory, name, attribute and byte of the old one, and every bad cluster still marked; it can be resized again, with the same object or a new one. '
  'Every size down to the smallest that the resize constraint allows works. When it is refused or fails, it says so, and unless the device failed while the start was being replaced the old file system is unharmed. Nothing outside the new geometry is written, and until its last step no sector that the old file system uses is overwritten.',
  ['inputs', 'faults', 'histories'], 'all FAT file systems, moves, sizes, answers and I/O errors', 'No stable test resizes a file system.',
  ['libparted/fs/r/fat/', 'libparted/fs/r/filesys.c'],
  [('sizes', 'libparted/fs/r/fat/calc.c'), ('moving clusters', 'libparted/fs/r/fat/clstdup.c, context.c'), ('directories and new FAT', 'libparted/fs/r/fat/resize.c, traverse.c'), ('usage', 'libparted/fs/r/fat/count.c')],
  ['the sectors of the device before and after', 'result and exceptions', 'every write and its place'],
  'File systems are built and read by independent code in harness/fsr_fat.c; 512 byte sectors.', 'exhaustive enumeration of resizes and of every failing I/O on the real code'),
P('P26', 'Transfers succeed completely or say so',
  'ped_device_read and ped_device_write return success only when exactly the requested bytes at exactly the requested place were transferred, whatever the kernel transfers at a time, or after the user chose Ignore; every error of reading, writing, seeking and flushing reaches the user, Retry tries again, Cancel fails. Nothing outside the requested sectors is written or stored. '
  'ped_device_sync succeeds only when the kernel flushed. ped_device_check returns the number of good sectors from the start, stops at the first bad one, and terminates.',
  ['inputs', 'faults'], 'all scripts of partial transfers, errors and answers; sector sizes; places up to the end of large devices', 'Image files never transfer partially or fail.',
  ['libparted/arch/linux.c', 'libparted/device.c'],
  [('transfers', 'libparted/arch/linux.c:linux_read, linux_write, _device_seek, _read_lastoddsector'), ('flushing', 'libparted/arch/linux.c:linux_sync, _flush_cache'), ('checking', 'libparted/arch/linux.c:linux_check')],
  ['bytes at the stand-in kernel and in the caller\'s buffer', 'results and exceptions'],
  'The kernel is a stand-in (harness/fakekernel.h).', 'exhaustive enumeration of scripts of kernel results and answers on the real back end'),
P('P23', 'File systems are recognised for what they are',
  'ped_file_system_probe names the file system that a region holds, for every supported type, size, place and sector size, and ped_file_system_probe_specific gives its true extent; no other type claims it. A leftover of another file system does not mislead when one of the two fits the region clearly better, and nothing is guessed when both fit equally well. '
  'Damaged superblocks, short regions and failing reads never crash, hang, trip an assertion or make probing write; a failing read never turns one file system into another.',
  ['inputs', 'faults'], 'all file system types x sizes x places x sector sizes; all pairs; all superblock fields x edge values; all failing reads', 'A test probes a few freshly made small file systems on 512-byte sectors.',
  ['libparted/filesys.c', 'libparted/fs'],
  [('choosing', 'libparted/filesys.c:ped_file_system_probe, _best_match'), ('probing', 'libparted/fs/*/*.c:*_probe')],
  ['probe results', 'exceptions', 'writes at the device'],
  'Runs on an in-memory device; superblocks are written from the published formats (harness/fsimg.h).', 'exhaustive enumeration of file system images, damage and faults on the real code'),
P('P28', 'Tables made by others are read as they are and written back unharmed',
  'A valid table is read as what it says however the tool that made it arranged it: any slots, any order of a chain of logical partitions or of partition blocks, gaps, any number and size of GPT entries, any geometry recorded, other lists and loaders beside it. Reading makes no complaint and no change. Partitions have the place, kind, number, name, boot flag and contents that the table gives them. '
  'Written back, with nothing changed or with a partition removed or added, every other partition still has what it had, and what the label does not own (boot code, disk signatures, loader and driver fields, lists of other programs) stays as it was.',
  ['inputs'], 'all tables of nine encoders with the parameters that other tools choose x {nothing, any partition deleted, a partition added in any free region}', 'The tests read tables that parted wrote, and a few odd ones.',
  LABELS + ['libparted/disk.c'], [('reading', 'libparted/labels/*.c:*_read'), ('writing back', 'libparted/labels/*.c:*_write'), ('order of partitions', 'libparted/disk.c:_disk_raw_add, ped_disk_enumerate_partitions')],
  ['ped_disk_new', 'ped_disk_commit_to_dev', 'device contents'], BASE_NOTE, 'exhaustive enumeration of encoded tables and edits on the real code'),
P('P29', 'Committed bytes depend on the table alone',
  'The same history on the same device contents writes the same bytes (random identifiers aside): nothing that is left over in uninitialised memory reaches the device or decides what is written.',
  H, 'all operation sequences followed by a commit, each with two different memory fill patterns', 'A test sees one memory image only, usually zeros.',
  LABELS + ['libparted/disk.c'], [('buffers that are written', 'libparted/labels/*.c:*_write, *_partition_new')], ['device contents after commit'], BASE_NOTE + 'Each history is executed with two different fill patterns for fresh heap and stack memory.'),
P('P30', 'A GPT of a device that grew or shrunk, or that lost a copy, is repaired as asked',
  'A GPT of which one copy is complete is read with all its partitions, after the user agreed to use that copy; one of which neither is complete is never read as if it were. Nothing is written before the user agreed to a repair, and no answer but Fix writes. '
  'After Fix the device holds two agreeing copies, the second one in the last sector, with the space gained usable, nothing left of the old second copy, and the same disk identifier, number of entries and partitions, each with its slot, place, type, identifier, attributes and name. Contents of partitions are never touched. The following edit and commit lead to a proper table again, which is read without further questions. '
  'If the machine stops while a repair or a later commit is being written and there was a second copy, no partition is lost.',
  ['inputs', 'crash points'], 'all combinations of entry number and size, sector size, growth or shrinkage, damaged structures, usable area, partitions, answers and edits, with crash points', 'The tests try one grown device and one damaged header each.',
  ['libparted/labels/gpt.c', 'libparted/disk.c'], [('reading and choosing a copy', 'libparted/labels/gpt.c:gpt_read, gpt_read_headers, _header_is_valid'), ('growth', 'libparted/labels/gpt.c:_parse_header'), ('writing', 'libparted/labels/gpt.c:gpt_write, _generate_header')],
  ['ped_disk_new', 'ped_disk_commit_to_dev', 'questions asked', 'device contents'], BASE_NOTE, 'exhaustive enumeration of damaged tables, answers, edits and crash points on the real code'),
P('P31', 'A table works up to its limit',
  'A table takes as many partitions as its format has room for, in whatever order their places are taken, and refuses one more with a reason and without any change. A new partition gets the lowest free number; numbers of the others stay (logical partitions are numbered from 5 without gaps; Amiga and Atari partitions by their place in a list). '
  'Any partition of a full table can be deleted and its place and number taken again; a table can be emptied and filled again to the same extent. Written and read at any of these points the table is the same.',
  ['histories', 'configurations'], 'full tables of every label, filled in five orders, with every partition (thorough: pair) replaced', 'The tests fill a GPT once, and no other label.',
  LABELS + ['libparted/disk.c'], [('numbering', 'libparted/labels/*.c:*_partition_enumerate'), ('limits', 'libparted/labels/*.c:*_get_max_primary_partition_count, libparted/disk.c:_partition_max_start'), ('chains', 'libparted/labels/dos.c:write_extended_partitions, rdb.c:amiga_write')],
  ['ped_disk_add_partition', 'ped_disk_delete_partition', 'ped_disk_commit_to_dev', 'ped_disk_new', 'PedPartition.num'], BASE_NOTE, 'exhaustive enumeration of fill orders and replacements on the real code'),
P('P20', 'Exceptions reach the handler, unaltered, and their answer the thrower',
  'An exception calls the handler that is set, exactly once, with the type, options and complete formatted message, however long, and the thrower gets the answer of the handler. While exceptions are fetched, no handler is called, the thrower is told that nobody answered and the exception stays pending until it is caught; thrown again after fetching has ended, it reaches the handler as first thrown. '
  'Without a handler the message and type are printed and a lone OK, Cancel or Ignore is taken; any other choice is left open. Fetching nests. '
  'Whatever an operation of the library does and whichever of its device accesses fail, exceptions reach the handler again once it has returned.',
  ['histories', 'faults', 'inputs'], 'all sequences of throwing, fetching, catching, throwing again and setting handlers; all faults', 'No unit test calls these functions; a level of fetching that one failure path leaves behind silences every later error.',
  ['libparted/exception.c', 'include/parted/exception.in.h', 'libparted/disk.c', 'libparted/filesys.c', 'libparted/cs/geom.c', 'libparted/arch/linux.c'], [('throwing', 'libparted/exception.c:ped_exception_throw, do_throw'), ('fetching', 'libparted/exception.c:ped_exception_fetch_all, ped_exception_leave_all')],
  ['return values of the functions of exception.h, the variable ped_exception, calls of the handler, standard error'],
  'A handler that itself throws, and a throw without a message, are outside the interface.', 'exhaustive enumeration of call sequences against a reference model, on the implementation; and of the fault points of library operations'),
P('P27', 'Progress is reported through nested timers',
  'After every update the user of a timer is told, with the fraction done, the time, the name of the phase and the expected end: start plus time elapsed divided by the fraction done, and never in the past. '
  'A nested timer moves its parent from the fraction at which it was made by the part it was given, in proportion to its own progress, over any depth of nesting; a timer that is not there is ignored.',
  ['histories'], 'all sequences of updates, resets, nestings and clock ticks up to the depth', 'No unit test uses a timer.',
  ['libparted/timer.c', 'include/parted/timer.in.h'], [('nesting', 'libparted/timer.c:ped_timer_new_nested, _nest_handler'), ('expected end', 'libparted/timer.c:ped_timer_update, ped_timer_touch')],
  ['calls of the timer handler; the fields of PedTimer'],
  'Fractions are sums of powers of two, which floats represent exactly; the clock is replaced by one that the exploration moves.', 'exhaustive enumeration of call sequences against a reference model, on the implementation'),
P('P32', 'Nothing is leaked, whatever fails',
  'When the disks, partitions, constraints, geometries, timers and devices that a caller got have been destroyed, all memory that the library allocated for them is released: after successful operations, after refused ones, after tables that could not be read or made no sense, after every device access or system call that failed, and whatever the user answered. '
  'A library that leaks on a failure path makes a long-running installer or storage daemon grow with each bad disk it looks at.',
  ['histories', 'faults', 'inputs'], 'all operation sequences, damaged tables, faults and answers of the explorations of P01, P07, P08, P16, P18, P20, P23, P27, P28', 'Unit tests end right after their work and do not look.',
  LABELS + ['libparted/disk.c', 'libparted/device.c', 'libparted/arch/linux.c', 'libparted/cs/*.c', 'libparted/timer.c', 'libparted/exception.c'], [('disks', 'libparted/disk.c:ped_disk_destroy, ped_disk_duplicate, ped_disk_add_partition'), ('labels', 'libparted/labels/*.c:*_read, *_write, *_duplicate, *_free'), ('devices', 'libparted/arch/linux.c:linux_new, linux_destroy')],
  ['calls of malloc, calloc, realloc, strdup and free made by the library'], BASE_NOTE, 'exhaustive enumeration of histories and faults on the real code, with a ledger of allocations'),
P('P25', 'partprobe tells the system what is on the device, or why it cannot',
  'For each device partprobe is given (or, without any, each device found), the system is told exactly the partitions of its table, or of an empty table when there is none, and with -s the line shows the label and the numbers of all partitions, logical ones in brackets. With -d the system is told nothing. '
  'It never writes to a device. When a device cannot be read, its table makes no sense or the system refuses, partprobe says why, goes on with the next device and exits with a status other than 0; a device that cannot be read is not said to have no partitions.',
  ['faults', 'inputs', 'configurations'], 'all tables, options, lists of devices and failing accesses', 'One test runs partprobe, on one device that can be read.',
  ['partprobe/partprobe.c', 'libparted/disk.c', 'libparted/labels/*.c'], [('one device', 'partprobe/partprobe.c:process_dev'), ('summary', 'partprobe/partprobe.c:summary'), ('finding the label', 'libparted/disk.c:ped_disk_probe')],
  ['exit status, standard output and error of partprobe', 'ped_disk_commit_to_os', 'device writes'], BASE_NOTE, 'exhaustive enumeration of tables, options and faults on the real program'),
]
NOT_APPLICABLE = {}
