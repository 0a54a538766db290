"""What each check runs.  quick/thorough: list of runs of a harness binary."""
BUILDS = {
    'fast': '-O2 -g1',
    'asan': '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer',
    'heap': '-O1 -g1 -fno-omit-frame-pointer -fno-optimize-sibling-calls -fno-pie -no-pie',
    'ubsan': '-O1 -g1 -fsanitize=address,undefined -fno-sanitize=alignment,shift -fno-omit-frame-pointer',
}

def R(build, binary, *args, **kw):
    return dict(build=build, bin=binary, args=[str(a) for a in args], **kw)

def ops(p, fast_q, asan_q, fast_t, asan_t):
    a = lambda b, d: [R(b, 'ops', '--prop', p, '--depth', d, what='operation sequences up to depth %d, %s build' % (d, b))] if d else []
    return dict(quick=a('fast', fast_q) + a('asan', asan_q), thorough=a('fast', fast_t) + a('asan', asan_t))

def deep(d, q, t):
    for tier, n in (('quick', q), ('thorough', t)):
        p = d[tier][0]['args'][1]
        d[tier].append(R('fast', 'ops', '--prop', p, '--deep', '--depth', n, what='operation sequences up to depth %d over a small alphabet, fast build' % n))
    return d

def also(d, *runs):
    for r in runs:
        d['quick'].append(r); d['thorough'].append(r)
    return d

def sweep(q, t, rule, bounds, extra=(), level='exploration', common=True):
    return dict(quick=q, thorough=t, level=level, rule=rule, bounds=bounds, assumptions=(COMMON if common else COMMON[:1]) + list(extra))

COMMON = ['one thread (libparted is not thread-safe by design)',
          'the device is a sparse in-memory sector array behind the library\'s architecture interface (PedArchitecture), not a kernel block device',
          'random identifiers (UUIDs, disk signatures) come from a deterministic counter']
PROBE = {'MC_PROBE': '1'}
HEAP = {'MC_HEAP': '1'}
def H(binary, *args, **kw):
    return R('heap', 'heap_' + binary, *args, env=HEAP, **kw)
KERN = ['system calls, libdevmapper and libblkid are replaced at link time by a stand-in for the kernel (harness/fakekernel.h) that keeps the partitions as the block layer does; the real kernel is not run']
SEQ_RULE = ('every sequence of operations over the alphabet of each configuration (label type, sector size, geometry, starting table) is executed, with '
            'states identified by the hash of the observable table plus device contents; a case is non-trivial when its operation succeeded and '
            'led to a state not seen before')
SEQ_BOUNDS = 'all operation sequences up to the depth given per run, over the grid of sectors, constraints, flags, names and file-system types in harness/ops.c and harness/world.c'
def mc(d, rule=SEQ_RULE, bounds=SEQ_BOUNDS, level='model_checking', extra=()):
    d.update(level=level, rule=rule, bounds=bounds, assumptions=COMMON + list(extra))
    return d

OTHER = 'amiga atari bsd dvh loop mac msdos pc98 sun'
CHECKS = {
    'P01': mc(deep(ops('P01', 3, 2, 4, 3), 5, 7)),
    'P02': mc(deep(ops('P02', 3, 2, 4, 3), 5, 7)),
    'P03': mc(ops('P03', 3, 3, 5, 4)),
    'P04': mc(ops('P04', 3, 3, 5, 4)),
    'P05': mc(ops('P05', 4, 3, 6, 4), extra=['a write of one sector is atomic and writes reach the medium in the order they were issued (the library issues no barriers between them)']),
    'P06': mc(also(ops('P06', 4, 2, 5, 4), R('fast', 'types', what='type code of every file system type on every label')), extra=['the independent decoders in harness/decode.c implement the published formats']),
    'P07': mc(ops('P07', 4, 3, 6, 5)),
    'P08': sweep([R('asan', 'bytes', '--prop', 'P08', what='one field or a pair of fields damaged, asan build')], [R('asan', 'bytes', '--prop', 'P08', what='one field or a pair of fields damaged, asan build')],
                 'every 1, 2, 4 and 8 byte field of every label sector, and pairs of fields, set to each of a list of boundary values, with repaired and with wrong checksums, each read, walked, duplicated, edited and written with three ways to answer; '
                 'a case is non-trivial when the damaged contents differ from those tried before',
                 'tables in harness/bytes.c (ten labels, sector sizes 512 to 4096); quick leaves out the zero areas, the GPT backup array; pairs are limited to fields that are not zero'),
    'P09': mc(ops('P09', 4, 3, 5, 4)),
    'P10': mc(ops('P10', 3, 3, 5, 4)),
    'P11': sweep([R('fast', 'cs', what='all cases, fast build')], [R('fast', 'cs', what='all cases, fast build'), R('asan', 'cs', what='all cases, asan build')],
                 'every value of each small domain (sectors, grains, offsets, regions, constraints, bad sectors) is computed by the code and by brute force over sets of sectors; '
                 'a case is non-trivial when the constraint has a solution',
                 'regions and constraints over 9 sectors (also placed at 12*2^32), grains to 13 and a grid to 2^40, device regions of up to 15 sectors for bad-sector checks'),
    'P12': mc(deep(ops('P12', 2, 2, 3, 3), 5, 7)),
    'P13': mc(deep(ops('P13', 3, 2, 4, 3), 5, 7)),
    'P14': mc(ops('P14', 3, 2, 4, 3)),
    'P15': mc(ops('P15', 3, 2, 4, 3)),
    'P19': sweep([R('ubsan', 'unit', what='all cases, asan and ubsan build')], [R('fast', 'unit', what='all cases, fast build'), R('ubsan', 'unit', what='all cases, asan and ubsan build')],
                 'every device, unit, boundary location, number, fraction, sign, suffix, spacing and default unit of the lists in harness/unit.c is formatted or parsed and compared with exact integer arithmetic; '
                 'a case is a device with a unit or suffix',
                 '13 devices from 1 sector to 8 PiB with four sector sizes and seven geometries; 14 units, 28 suffixes, 30 numbers (to 10^26), 9 fractions, 6 layouts, about 40 malformed strings, CHS triples around every limit',
                 extra=['fractions that are not sums of powers of two are compared up to the precision of a double']),
    'P21': mc(dict(quick=[R('fast', 'cli', '--prop', 'P21', '--depth', 2, what='command sequences up to depth 2, every I/O fault and every typed form of the last command at depth 1, fast build'), R('asan', 'cli', '--prop', 'P21', '--depth', 1, what='single commands, asan build'), R('fast', 'cli', '--prop', 'P21', '--pairs', what='two commands at one prompt, the first one changing nothing, on four disks')],
                   thorough=[R('fast', 'cli', '--prop', 'P21', '--depth', 3, what='command sequences up to depth 3, every I/O fault and every typed form of the last command, fast build'), R('asan', 'cli', '--prop', 'P21', '--depth', 2, what='command sequences up to depth 2, asan build'), R('fast', 'cli', '--prop', 'P21', '--pairs', what='all pairs of commands at one prompt, with all answers to the first, on all disks')]),
              rule='every sequence of commands over the alphabet of each disk is given to the parted program (the last one also typed at its prompt, and with each I/O operation failing), with states identified by the contents of the disk; '
                   'a case is non-trivial when its last command succeeded and led to contents not seen before',
              bounds='all sequences of the commands in harness/cli.c (about 100, with valid and invalid arguments) up to the depth given per run, on 17 disks (10 label types, 512 and 4096 byte sectors, 4 alignments)',
              extra=['the program runs as a child process whose device is the same in-memory disk; uncommitted state lives only inside one process']),
    'P22': sweep([R('fast', 'cli', '--prop', 'P22', what='all cases in the C locale, fast build'), R('asan', 'cli', '--prop', 'P22', what='all cases in the C.UTF-8 locale, asan build', env={'LC_ALL': 'C.UTF-8'})],
                 [R('fast', 'cli', '--prop', 'P22', what='all cases in the C locale, fast build'), R('asan', 'cli', '--prop', 'P22', what='all cases in the C locale, asan build'), R('asan', 'cli', '--prop', 'P22', what='all cases in the C.UTF-8 locale, asan build', env={'LC_ALL': 'C.UTF-8'})],
                 'every table of harness/cli_print.h printed in every output mode (machine, JSON, human, typed), every unit, with and without free space, and compared field by field with the table the library reads; '
                 'a case is non-trivial when its output differs from those seen before',
                 'about 60 tables: empty, populated, full, all flags set, ten labels, three sector sizes, names with separators, quotes, control, combining and non-ASCII characters'),
    'P24': sweep([R('fast', 'fsr_fat', '--prop', 'P24', what='a twentieth of the resizes, all faults')],
                 [R('asan', 'fsr_fat', '--prop', 'P24', what='asan build'), R('fast', 'fsr_fat', '--thorough', '--prop', 'P24', what='all resizes and faults')],
                 'every combination of file system, contents, move of the start, new length and answer is resized with the real code, followed by a second resize; a set of resizes is repeated with every read, write and sync failing and with every sector bad; '
                 'a case is non-trivial when the resulting file system or the outcome differs from those seen before',
                 'FAT16 and FAT32, 12 layouts x 11 contents x 23 moves x 36 lengths x 3 answers; 22 resizes with faults', extra=['file systems as mkfs.fat lays them out, without long-name entries that span directories; 512 byte device sectors']),
    'P23': sweep([R('fast', 'fsprobe', what='every image, place, size, leftover, damaged field and failing read'), R('asan', 'fsprobe', '--opt', 'few', what='asan build: fewer sizes and pairs')],
                 [R('asan', 'fsprobe', what='asan build'), R('fast', 'fsprobe', '--thorough', what='more places, every byte')],
                 'superblocks of about 50 file systems are laid out at every place, size and sector size of the grid, and every region is probed with the real code: alone, over every other file system, with every field of the superblock set to edge values, cut short, with every single read failing, inside amiga partitions with every word of the label damaged, and through copies of an ext superblock; '
                 'a case is non-trivial when image, place, size and sector size, or the damage, differ from those before',
                 '6 sector sizes, 19 sizes up to 2^40 sectors, 6 places, all pairs of file systems at 3 sizes, 14 edge values in 4 widths and both byte orders', extra=['images hold superblocks only, laid out from the formats as published; amiga file systems, NILFS2 and the end anchor of UDF are expected only when the file system fills its region'], common=False),
    'P16': sweep([R('fast', 'newlabel', what='every content, every label, crashes and failing operations for a part of them'), ],
                 [R('fast', 'newlabel', '--thorough', what='every content, every label, every crash and failing operation, every label over every new label'), R('asan', 'newlabel', what='asan build')],
                 'every prior content of the device, made by a generator of about 1500 (labels with and without partitions, labels over labels and over file systems, damaged and moved copies, labels of other devices), is replaced by every label and clobbered, with the write-out cut after every sector and with every device operation failing, once or from then on; '
                 'a case is non-trivial when the device contents afterwards differ from those seen before for that label',
                 '8 devices (40 sectors to 10^10, four sector sizes), 10 label types and clobbering; crashes within the first 20 and last 5 sectors of each write and between the writes', extra=['the file systems below are superblocks only', 'an amiga label on a device of fewer than 275 sectors is not required to be read without complaint'], common=False),
    'P17': sweep([R('fast', 'linux_kern', what='a part of the pairs of tables, every single failing call')],
                 [R('asan', 'linux_kern', what='asan build'), R('fast', 'linux_kern', '--thorough', what='all pairs of tables, every single failing call with every error')],
                 'every pair (partitions the kernel knows, table that is committed) over a small grid, with every set of partitions in use and both answers, is committed with the real Linux back end on a stand-in kernel; and again with every single kernel call failing once or from then on; '
                 'a case is non-trivial when the calls made and the outcome differ from those seen before',
                 'GPT, msdos with logical partitions, bsd with numbers up to the limit, loop; up to 3 partitions on 4 or 5 cells; 10 kinds of device (SCSI, NVMe, device-mapper, loop, file, 4096 byte sectors, kernels without partition ioctls)', extra=KERN, common=False),
    'P18': sweep([R('asan', 'linux_io', '--opt', 'dev', what='asan build')],
                 [R('asan', 'linux_io', '--opt', 'dev', what='asan build'), R('fast', 'linux_io', '--opt', 'dev', '--thorough', what='longer sequences')],
                 'every sequence of open, close, begin and end of external access, read, write, sync and destroy up to a length, with every single failing call; every kind of device with every answer of the kernel to the questions about it; '
                 'a case is non-trivial when the calls made and the outcome differ from those seen before',
                 'sequences up to 7 (8 with --thorough) calls, 4 (5) with faults', extra=KERN, common=False),
    'P26': sweep([R('asan', 'linux_io', '--opt', 'io', what='asan build')],
                 [R('asan', 'linux_io', '--opt', 'io', what='asan build'), R('fast', 'linux_io', '--opt', 'io', '--thorough', what='more choices')],
                 'every script of results of the kernel (all, a part down to an odd number of bytes, nothing, an error) and of answers of the user, up to a number of choices, is executed for reads, writes, checks and syncs of the real Linux back end; '
                 'a case is non-trivial when the outcome differs from those seen before',
                 'up to 8 choices (11 with --thorough) for 4 sector sizes, 4 lengths and 5 places up to beyond 2^50 sectors', extra=KERN, common=False),
    'P20': sweep([R('fast', 'core', '--opt', 'exc', '--depth', 6, what='sequences of 6 calls, fast build'), R('asan', 'core', '--opt', 'exc', '--depth', 5, what='sequences of 5 calls, asan build'),
                  R('fast', 'ops', '--prop', 'P07', '--depth', 3, env=PROBE, what='after every operation of depth 3 with every fault, do exceptions reach the handler'), R('fast', 'fsprobe', '--opt', 'few', env=PROBE, what='the same after probing for file systems'), R('fast', 'linux_io', '--opt', 'dev', env=PROBE, what='the same for the Linux back end'), R('fast', 'newlabel', env=PROBE, what='the same after new labels'), R('fast', 'cs', env=PROBE, what='the same after checks for bad sectors')],
                 [R('fast', 'core', '--opt', 'exc', '--depth', 7, what='sequences of 7 calls, fast build'), R('asan', 'core', '--opt', 'exc', '--depth', 6, what='sequences of 6 calls, asan build'),
                  R('fast', 'ops', '--prop', 'P07', '--depth', 4, env=PROBE, what='after every operation of depth 4 with every fault, do exceptions reach the handler'), R('fast', 'fsprobe', env=PROBE, what='the same after probing for file systems'), R('fast', 'linux_io', '--opt', 'dev', env=PROBE, what='the same for the Linux back end'), R('fast', 'newlabel', env=PROBE, what='the same after new labels'), R('fast', 'cs', env=PROBE, what='the same after checks for bad sectors'), R('fast', 'bytes', '--prop', 'P08', env=PROBE, what='the same after damaged tables'), R('fast', 'fsr_fat', '--prop', 'P24', env=PROBE, what='the same after resizes of FAT')],
                 'every sequence of throws (four kinds), fetching, leaving, catching, throwing again and setting of handlers is executed and compared with a reference model; every type with every set of options, handler and level; every message length; and after every run of the fault explorations of other properties an exception is thrown and has to reach the handler; '
                 'a case is non-trivial when its first calls, or its type, options, handler and level, or the contents of the device in the fault explorations, differ from those before',
                 'sequences up to 6 calls (7 with --thorough), nesting up to 3, 6 types x 128 sets of options x 4 handlers x 3 levels, messages of 0 to 4190 characters', common=False),
    'P27': sweep([R('fast', 'core', '--opt', 'timer', '--depth', 5, what='sequences of 5 calls'), R('asan', 'core', '--opt', 'timer', '--depth', 4, what='sequences of 4 calls, asan build')],
                 [R('fast', 'core', '--opt', 'timer', '--depth', 6, what='sequences of 6 calls'), R('asan', 'core', '--opt', 'timer', '--depth', 5, what='sequences of 5 calls, asan build')],
                 'every sequence of clock ticks, updates, touches, resets, names, nestings and destructions of three nested timers is executed and compared with a reference model; '
                 'a case is non-trivial when the state of the timers differs from those before',
                 'three timers nested in each other, fractions 0, 1/4, 1/2 and 1, three ticks of the clock, 33 calls, up to 5 of them (6 with --thorough)', common=False),
    'P28': sweep([R('fast', 'foreign', what='every table of every encoder')],
                 [R('asan', 'foreign', what='asan build'), R('fast', 'foreign', what='every table of every encoder')],
                 'every table of nine encoders, which lay tables out as other tools do (slots, chains, entry sizes, geometries, gaps, other lists), is read with the real code and compared with what it was made to say, then written back unchanged, with each partition deleted in turn and with one more partition in every free region, and read again; '
                 'a case is non-trivial when the device contents differ from those seen before',
                 'about 41000 tables with up to 12 partitions: msdos 11392, gpt 11340, mac 2592, bsd 1600, sun, dvh, amiga 3456, atari 576, pc98 4384', extra=['fields that parted does not carry are not required to survive: fragment size, cylinders per group and the raw entry of a bsd table, flags of a sun partition, the 32nd character of a mac name, bytes beyond 128 of a GPT entry'], common=False),
    'P29': mc(dict(quick=[R('fast', 'ops', '--prop', 'P29', '--depth', 3, '--opt', 'gpt', what='gpt, operation sequences up to depth 3'), R('fast', 'ops', '--prop', 'P29', '--depth', 4, '--opt', OTHER, what='all other labels, operation sequences up to depth 4')],
                   thorough=[R('fast', 'ops', '--prop', 'P29', '--depth', 4, '--opt', 'gpt', what='gpt, operation sequences up to depth 4'), R('fast', 'ops', '--prop', 'P29', '--depth', 5, '--opt', OTHER, what='all other labels, operation sequences up to depth 5')])),
    'P30': sweep([R('fast', 'gptfix', what='every damaged, grown or shrunk GPT')],
                 [R('asan', 'gptfix', what='asan build'), R('fast', 'gptfix', what='every damaged, grown or shrunk GPT')],
                 'every combination of sector size, number and size of entries, growth or shrinkage, damage, layout, partitions and edit; for each, every combination of answers to the first three questions; reading, then editing, writing and reading again are judged by an independent decoder; the machine stops after the sectors that a repair or a later commit writes, and the table is read again; '
                 'a case is non-trivial when the contents after reading, the questions or the outcome differ from those seen before',
                 '210600 combinations: 3 sector sizes x 5 numbers of entries x 2 entry sizes x 15 changes of size x 13 damages x 3 layouts x 4 sets of partitions x 3 edits', extra=['crash points: every sector outside long runs of entries, of those the first two, the last two and every thirteenth', 'when the backup is damaged and the entries change, there is no second copy to fall back on: crash points are not judged there'], common=False),
    'P31': sweep([R('fast', 'full', what='tables filled in every order, every partition replaced')],
                 [R('fast', 'full', '--thorough', what='and every pair replaced'), R('asan', 'full', what='asan build')],
                 'each label is filled to the brim in each of five orders; each partition of the full table (thorough: and each other one) is deleted and replaced, all are deleted one by one and at once, and the table is filled again; the table is written, decoded independently and read again after each step; '
                 'a case is non-trivial when the device contents differ from those seen before',
                 '19 label configurations (msdos with up to 60 logical partitions, gpt 128, mac 57, sun 7 and 8, bsd 8, dvh 14, amiga 20, pc98 16, atari 12 and with an extended partition), 5 orders, each partition; quick: pairs of up to 24 partitions, and every eighth partition of larger tables in three of the orders', common=False),
    'P32': sweep([H('ops', '--prop', 'P01', '--depth', 2, what='operation sequences of depth 2, all labels'), H('ops', '--prop', 'P07', '--depth', 3, what='every failing device access in sequences of depth 3'),
                  H('bytes', '--prop', 'P08', what='damaged tables'), H('newlabel', what='new labels, crashes and failing accesses'), H('fsprobe', '--opt', 'few', what='file systems probed'),
                  H('linux_io', '--opt', 'dev', what='devices opened, probed and closed with every failing system call'), H('foreign', what='tables of other tools'), H('core', '--opt', 'exc', '--depth', 4, what='exceptions'), H('core', '--opt', 'timer', '--depth', 4, what='timers')],
                 [H('ops', '--prop', 'P01', '--depth', 2, what='operation sequences of depth 2, all labels'), H('ops', '--prop', 'P01', '--depth', 3, '--opt', OTHER, what='operation sequences of depth 3, labels but gpt and msdos'), H('ops', '--prop', 'P07', '--depth', 4, what='every failing device access in sequences of depth 4'),
                  H('bytes', '--prop', 'P08', what='damaged tables'), H('newlabel', what='new labels, crashes and failing accesses'), H('fsprobe', what='file systems probed'),
                  H('linux_io', '--opt', 'dev', what='devices opened, probed and closed with every failing system call'), H('linux_kern', what='telling the kernel, with every failing system call'), H('foreign', what='tables of other tools'), H('full', what='full tables'), H('gptfix', what='damaged GPTs, all answers'), H('cs', what='geometries and constraints'), H('unit', what='locations'), H('core', '--opt', 'exc', '--depth', 4, what='exceptions'), H('core', '--opt', 'timer', '--depth', 4, what='timers')],
                 'the explorations of other properties are run on a build whose allocations are recorded: after every run (an operation sequence, a set of damaged tables, a script of kernel results ...) every block that the library allocated since its start has to be released; '
                 'a case is non-trivial when the device contents or the outcome differ from those seen before',
                 'those of the runs listed; allocation itself does not fail', extra=['blocks that libuuid, libblkid, libdevmapper and the C library allocate for themselves are not recorded'], common=False),
    'P25': sweep([R('fast', 'pprobe', what='every table, option and failing access')],
                 [R('fast', 'pprobe', '--thorough', what='every table, option and failing access, dry runs too'), R('asan', 'pprobe', what='asan build')],
                 'the partprobe program is run in a child process on tables of every label, blank and damaged devices, with every set of options, one, two and all devices; with a kernel that refuses; with every bad sector among the first 35 and the last five; with every access failing once and from then on; '
                 'a case is non-trivial when what it prints, tells the system and its faults differ from those before',
                 '42 devices, 6 sets of options, 3 ways to name devices', extra=['faults are explored with no option and with -s (thorough: also -d and -ds)', 'beyond 100 accesses every 29th fails'], common=False),
}
