"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level=None, technique=None, note=None, na=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, na=na, observe=observe, state=state))


WRAP = 'contract-based deductive verification of the real C (requires/ensures as Hoare triples around the real functions, callee contracts; CBMC, SAT)'
DED = 'contract-based deductive verification of the real C (CBMC code contracts, dfcc; SAT)'

prop('P01', 'Region arithmetic is exact set arithmetic on device sectors',
     'A region built, moved or resized through the public region functions always covers exactly the requested sectors (start, length and end agree), and a refused request leaves the region unchanged. The intersection of two regions contains exactly the sectors that lie in both, and the overlap, inside, equal and sector-inside tests answer exactly as set membership on the same device says. Mapping a sector offset of one region into another yields the offset that names the same device sector, or -1 when there is none.',
     ['inputs'], 'every pair of regions on every device with 64-bit sector numbers up to 2^60, every requested start/length/end, every allocation outcome',
     'The tests use a handful of small regions starting near sector 0; edge cases (touching regions, last sector, offset at the end, regions far from sector 0) are never enumerated.',
     ['libparted/cs/geom.c'], [('ped_geometry_set', 'libparted/cs/geom.c'), ('ped_geometry_intersect', 'libparted/cs/geom.c'), ('ped_geometry_test_overlap', 'libparted/cs/geom.c'), ('ped_geometry_map', 'libparted/cs/geom.c')],
     'proof', DED, 'Every obligation of the twelve region functions is discharged for all inputs (|sector| <= 2^60, which excludes machine overflow). Trusted: ped_malloc returns fresh memory or NULL; diagnostics return.')
prop('P02', 'Region I/O touches only sectors of the region',
     'Reading, writing, checking or syncing through a region never transfers a sector outside that region: an access that does not fit is refused before any device access, and an access that fits transfers exactly the sectors at the region start plus the given offset. Success is reported only if the device transfer succeeded.',
     ['inputs', 'fault_sequences'], 'every region, every offset and count from 0 to 2^60, every device outcome',
     'Tests only issue in-range accesses from label and file-system code; the bounds comparison is never exercised at the boundary or beyond.',
     ['libparted/cs/geom.c', 'libparted/device.c'], [('ped_geometry_read', 'libparted/cs/geom.c'), ('ped_geometry_write', 'libparted/cs/geom.c'), ('ped_geometry_read_alloc', 'libparted/cs/geom.c'), ('ped_geometry_check', 'libparted/cs/geom.c')],
     'proof', DED, 'All obligations of ped_geometry_read/read_alloc/write/sync/sync_fast are discharged for all inputs up to 2^60. ped_geometry_check is a bounded unit (3 sectors), reported separately and not counted as proved.')
prop('P03', 'Device open, close and external-access counting is balanced',
     'A device is physically opened on the first open and physically closed on the last close only, nested opens and closes only refresh it, and a failed open leaves the count unchanged. Beginning external access on an open device closes it physically exactly once and ending the outermost external access reopens it; sector I/O is forwarded unchanged to the device driver.',
     ['histories', 'fault_sequences'], 'every count value, every operation on it (so every history by induction), every driver outcome',
     'Tests open and close a device in one fixed nesting; failures of the underlying open or close are never injected.',
     ['libparted/device.c'], [('ped_device_open', 'libparted/device.c'), ('ped_device_close', 'libparted/device.c'), ('ped_device_begin_external_access', 'libparted/device.c'), ('ped_device_end_external_access', 'libparted/device.c')],
     'proof', WRAP, 'Nine functions, every obligation discharged for every state and driver outcome.')
prop('P04', 'Rounding and alignment give the nearest permitted sector',
     'Rounding a sector down, up or to nearest yields a multiple of the grain that is within one grain on the proper side (half a grain for nearest), for every sector including negative ones. Aligning up, down or nearest within a region yields a sector that satisfies the alignment and lies in the region whenever the region contains such a sector, is the closest such sector on the preferred side when one exists there, and reports failure only when the region contains none.',
     ['inputs'], 'every sector, every grain and offset, every region (mathematical integers, with the machine range as precondition)',
     'Alignment tests exercise a few positive sectors with power-of-two grains.',
     ['libparted/cs/natmath.c'], [('ped_round_down_to', 'libparted/cs/natmath.c'), ('ped_round_up_to', 'libparted/cs/natmath.c'), ('ped_alignment_align_nearest', 'libparted/cs/natmath.c'), ('ped_alignment_is_aligned', 'libparted/cs/natmath.c')])
prop('P05', 'Intersecting alignments is exact',
     'The intersection of two alignments accepts a sector if and only if both alignments accept it, and the intersection is empty only if no sector satisfies both. This includes single-sector alignments, coprime grains and grains larger than 2^31.',
     ['inputs'], 'every pair of alignments (offset, grain), every sector',
     'No test intersects two non-trivial alignments.',
     ['libparted/cs/natmath.c'], [('ped_alignment_intersect', 'libparted/cs/natmath.c'), ('extended_euclid', 'libparted/cs/natmath.c')])
prop('P06', 'The constraint solver returns only regions that satisfy the constraint',
     'Any region returned for a constraint satisfies its start and end alignment, start and end range and minimum and maximum size, and a requested region that already satisfies the constraint is returned unchanged. A region satisfies the intersection of two constraints if and only if it satisfies both; exact, any-region, maximum-region and min/max constraints accept exactly the regions they describe.',
     ['inputs'], 'every constraint, every requested region, every device length',
     'CLI tests exercise a few dozen constraint combinations on small devices.',
     ['libparted/cs/constraint.c'], [('ped_constraint_solve_nearest', 'libparted/cs/constraint.c'), ('ped_constraint_is_solution', 'libparted/cs/constraint.c'), ('ped_constraint_intersect', 'libparted/cs/constraint.c')])
prop('P07', 'Partition table edits never create overlap and fail atomically',
     'Adding, removing, resizing or maximising a partition either succeeds, leaving a table in which partitions lie on the device, primaries and the extended partition are pairwise disjoint, logical partitions lie inside the extended one and are pairwise disjoint, and the requested constraint is met; or it fails and leaves every partition region and the partition order unchanged. The number of primary partitions never exceeds the label limit.',
     ['inputs', 'histories'], 'every consistent table (up to the stated number of partitions) with arbitrary sector positions, every new or resized region, every constraint answer',
     'Tests edit concrete small tables; relative positions of the existing and new regions are not enumerated.',
     ['libparted/disk.c'], [('ped_disk_add_partition', 'libparted/disk.c'), ('ped_disk_set_partition_geom', 'libparted/disk.c'), ('_check_partition', 'libparted/disk.c'), ('ped_disk_remove_partition', 'libparted/disk.c')],
     'other', WRAP, 'Bounded: tables of up to 3 primaries and 2 logicals (one verifier run per table shape); inside the bound every sector position, constraint and label answer is symbolic. Trusted: label operation stubs (arbitrary answers within their contracts).')
prop('P08', 'Table walks and lookups account for every sector exactly once',
     'Walking a partition table visits every partition, metadata area and free area exactly once in disk order, and together they tile the device (and the extended partition) without gap or overlap. Looking up a sector or a partition number returns exactly the entry that covers or bears it, and counting functions agree with the walk.',
     ['inputs', 'histories'], 'every consistent table (up to the stated number of partitions) with arbitrary sector positions, every sector, every number',
     'Tests print a few concrete tables.',
     ['libparted/disk.c'], [('ped_disk_next_partition', 'libparted/disk.c'), ('ped_disk_get_partition_by_sector', 'libparted/disk.c'), ('_disk_alloc_freespace', 'libparted/disk.c')],
     'other', WRAP, 'Bounded: tables of up to 3 primaries and 2 logicals (one verifier run per table shape); every sector position and number symbolic.')
prop('P09', 'Writing a GPT produces two matching valid headers in the right places',
     'A written GPT has a primary header in sector 1 and a backup header in the last sector, each carrying correct self and alternate locations, usable range, entry-array location, size and count, and matching checksums, with both entry arrays identical and outside the usable range. The protective MBR is rewritten without changing its boot code, and any failed device write makes the whole write report failure. A fresh GPT puts the backup in the last sector and its usable range excludes both tables, and a duplicate describes the same table.',
     ['inputs', 'fault_sequences'], 'every device length and sector size, every disk GUID and partition set (up to the stated number), every device write outcome',
     'Tests read back a few concrete images; write failures are never injected.',
     ['libparted/labels/gpt.c'], [('gpt_write', 'libparted/labels/gpt.c'), ('_generate_header', 'libparted/labels/gpt.c'), ('_write_pmbr', 'libparted/labels/gpt.c'), ('gpt_alloc', 'libparted/labels/gpt.c')],
     'proof', WRAP, 'Proved for every device length, entry count, header field and write outcome; bounded only in the number of partitions walked (2) and the sector sizes run (512, 1024; 4096 in thorough).')
prop('P10', 'Only a consistent GPT header is trusted',
     'A GPT header read from disk is accepted only if its signature, size, checksum, own location, alternate location, entry size, usable range and the checksum of the entry array it points to are all consistent, the backup is looked for where the valid primary says (else in the last sector), and the usable range and entry count taken over fit the device and the supported limit. Any header bytes whatever are rejected or accepted without an out-of-bounds access or abort, every used entry becomes a partition of that number, and nothing is written back unless the user asked for a fix.',
     ['inputs'], 'every byte string in the header sectors, every device length and sector size',
     'Tests corrupt a few chosen bytes.',
     ['libparted/labels/gpt.c'], [('_header_is_valid', 'libparted/labels/gpt.c'), ('gpt_read', 'libparted/labels/gpt.c'), ('_parse_header', 'libparted/labels/gpt.c'), ('gpt_read_headers', 'libparted/labels/gpt.c')],
     'proof', WRAP, 'Header validation, array reading, header location and header parsing are proved for every byte content and device length (sector size 512); the entry loop of gpt_read is a bounded unit (3 entries), not counted as proved.')
prop('P11', 'GPT partition entries and attributes survive a write and read',
     'Encoding a GPT partition into its on-disk entry and reading that entry back yields the same first and last sector, type, unique GUID, name and attribute bits. Setting a flag makes exactly that flag read as set, clearing it makes it read as clear, and no other attribute bit changes. A flag that stands for a partition type sets that type; clearing it returns the partition to the default type of its file system (flags that share one type GUID read together).',
     ['inputs'], 'every entry content (all 128 bytes), every flag and state',
     'Tests set one flag at a time on fresh partitions.',
     ['libparted/labels/gpt.c'], [('_partition_generate_part_entry', 'libparted/labels/gpt.c'), ('_parse_part_entry', 'libparted/labels/gpt.c'), ('gpt_partition_set_flag', 'libparted/labels/gpt.c')],
     'proof', WRAP, 'Every obligation discharged for all entry contents, flags and file system types (twelve file system names). Names set through the API are bounded units (ASCII, at most 40 characters); iconv is trusted.')
prop('P12', 'MS-DOS partition entries are encoded exactly and boot code is preserved',
     'A primary or logical partition written to an MS-DOS table reads back with the same start, length, type and boot flag, and sectors that do not fit in the 32-bit fields are refused rather than truncated. Rewriting the table changes only the partition entries, signature and disk id: the boot code bytes and an existing disk identifier stay as they were (the standard code is added when the sector had none). Every written table is one whole sector in the place its chain says, with the signature, and a failed read or write makes the whole write report failure.',
     ['inputs', 'configurations'], 'every start/length/type/boot flag, every sector content, every CHS geometry and sector size',
     'Tests use a few start/length values far below the limits and mostly zeroed boot code.',
     ['libparted/labels/dos.c'], [('fill_raw_part', 'libparted/labels/dos.c'), ('msdos_write', 'libparted/labels/dos.c'), ('write_ext_table', 'libparted/labels/dos.c')],
     'proof', WRAP, 'Proved for every partition, sector content and outcome (sector sizes 512 and 1024; 4096 in thorough); the chain of extended tables by induction. The CHS conversions are bounded units (the listed geometries), not counted as proved.')
prop('P13', 'Partition flags and types stay consistent',
     'On an MS-DOS label setting an available flag makes it read as set, clearing it makes it read as clear, mutually exclusive type flags never read as set together, unavailable flags are refused, and at most one partition carries the boot flag. Changing the file system type or flags never turns an ordinary partition into the extended type (other than unhiding a hidden extended one), an extended one into another type, or any into the empty type.',
     ['inputs', 'histories'], 'every reachable partition state, every flag and state',
     'The flag test toggles each flag once on a fresh partition.',
     ['libparted/labels/dos.c'], [('msdos_partition_set_flag', 'libparted/labels/dos.c'), ('msdos_partition_get_flag', 'libparted/labels/dos.c'), ('msdos_partition_set_system', 'libparted/labels/dos.c')],
     'proof', WRAP, 'Every obligation discharged for all 256 type ids, all flags and states, twelve file system names. msdos_partition_set_flag is a bounded unit only because its walk for the boot flag is run over tables of at most four partitions.')
prop('P14', 'Label size limits are enforced for every label type',
     'A partition whose start or length exceeds what the label format can record is refused, and one within the limits is accepted, for every label type that parted can read and write; the reported maximum start and length are exactly these limits.',
     ['inputs', 'configurations'], 'every label type, every partition start and length',
     'Tests probe the limits of two label types with a few values.',
     ['libparted/labels/pt-tools.c', 'libparted/labels/pt-common.h', 'libparted/labels/pt-limit.gperf'], [('ptt_partition_max_start_len', 'libparted/labels/pt-tools.c'), ('pt_limit_lookup', 'libparted/labels/pt-limit.gperf'), ('_check_partition', 'libparted/disk.c')],
     'proof', WRAP, 'Every obligation discharged for all starts and lengths on the ten label types that parted reads or writes here, through their real operation tables; the name lookup is generated with gperf from the current pt-limit.gperf. dasd is s390 only, aix is neither read nor written.')
prop('P15', 'Clearing a label writes only zeroes and only to label sectors',
     'Clearing sectors writes zero bytes to exactly the requested sectors, once each, in bounds, and stops with failure at the first device error. Wiping old signatures before a new label is written stays on the device, covers its first 8 KiB and its last sector but nothing away from both ends, keeps the boot code in front of a GPT, happens before the label is written and exactly once. Erasing file-system signatures touches only the first three and last two sectors of the region and never the excluded region.',
     ['inputs', 'fault_sequences'], 'every device length and sector size, every range, every device outcome',
     'Tests wipe devices of two sizes only.',
     ['libparted/labels/pt-tools.c', 'libparted/disk.c'], [('ptt_clear_sectors', 'libparted/labels/pt-tools.c'), ('ptt_write_sector', 'libparted/labels/pt-tools.c'), ('ped_disk_clobber', 'libparted/disk.c'), ('ped_disk_commit_to_dev', 'libparted/disk.c'), ('ped_file_system_clobber', 'libparted/fs/r/filesys.c')],
     'proof', WRAP, 'The clearing loop is proved for any number of sectors with a loop contract (sector sizes 512, 4096, 16384); should the loop be rewritten, a bounded check of the same contract takes over. The zero content of the buffer is a bounded unit. Everything else is discharged for all device lengths and outcomes.')
prop('P16', 'Exception answers are always one of the offered choices',
     'Raising an exception returns a choice that was offered or "unhandled". Without an application handler the answer is the choice itself when OK, Cancel or Ignore is the only one, else "unhandled". While exceptions are being fetched every exception is unhandled, stays pending for the fetching caller and no handler runs; otherwise the handler runs exactly once and the exception is resolved afterwards. Fetch levels nest: handling resumes exactly when the outermost level is left. The parted program takes a single choice, never decides in script mode (other than to fix when told to) and otherwise returns the choice the user named.',
     ['inputs', 'histories'], 'every type, option set, handler answer, fetch level, pending exception and (one step from every consistent state, so by induction) every history',
     'Tests run in script mode with one handler.',
     ['libparted/exception.c', 'parted/ui.c'], [('ped_exception_throw', 'libparted/exception.c'), ('ped_exception_fetch_all', 'libparted/exception.c'), ('ped_exception_leave_all', 'libparted/exception.c'), ('exception_handler', 'parted/ui.c')],
     'proof', WRAP, 'Every obligation discharged from every consistent state. Trusted: C library formatting and memory (allocation may fail), the word the user types is one of the list shown.')
prop('P17', 'Sector/unit conversion is consistent and stays on the device',
     'The size of every unit is what its name says for the device at hand. A location typed by the user is converted to the sector containing the exact position of the number in that unit (counted from the end when negative), and the range given with it is the part on the device of half a unit either way; spaces are ignored, fractions of a unit below one and text that is no number are refused, a CHS location is accepted exactly when it is on the device, and a value whose range does not touch the device is refused when a range is asked for and clipped to the device otherwise. Sector, byte, cylinder and CHS texts name the location they were made from.',
     ['inputs', 'configurations'], 'every unit, device geometry and sector size, every numeric value',
     'Tests parse a few dozen literal strings.',
     ['libparted/unit.c'], [('ped_unit_parse_custom', 'libparted/unit.c'), ('ped_unit_get_size', 'libparted/unit.c'), ('parse_chs', 'libparted/unit.c'), ('ped_unit_format_custom_byte', 'libparted/unit.c')],
     'proof', WRAP, 'Parsing proved over all doubles (cvc5) with callee contracts; the character-level helpers are bounded (strings up to 7 characters), exact formats bounded (one geometry). Trusted: sscanf/snprintf.')
prop('P18', 'Flag, disk-flag and unit names are unique and round-trip',
     'Every partition flag, disk flag and unit has a distinct printable name, and looking that name up (in any case) returns the same flag or unit; any other text yields no flag and no unit. Iterating flags visits each exactly once. What is no flag has no name.',
     ['inputs'], 'every flag and unit value, every string',
     'Only names used by scripts are exercised.',
     ['libparted/disk.c', 'libparted/unit.c'], [('ped_partition_flag_get_by_name', 'libparted/disk.c'), ('ped_partition_flag_next', 'libparted/disk.c'), ('ped_disk_flag_get_by_name', 'libparted/disk.c'), ('ped_unit_get_by_name', 'libparted/unit.c')],
     'proof', WRAP, 'Complete: names are shorter than the symbolic text, so every text is covered. Trusted: strcasecmp (C locale), dgettext (a translation is nobody\'s name).')
prop('P19', 'The checksum is the standard CRC-32',
     'The checksum used for GPT equals the reflected CRC-32 with polynomial 0xEDB88320 (seeded with all ones and complemented) for every buffer and seed, and reads only the given bytes.',
     ['inputs'], 'every buffer content, length and seed',
     'Tests only check tables produced by the same code.',
     ['libparted/labels/efi_crc32.c', 'libparted/labels/gpt.c'], [('__efi_crc32', 'libparted/labels/efi_crc32.c'), ('efi_crc32', 'libparted/labels/gpt.c')],
     'proof', 'CBMC loop contract on the real loop with a ghost bit-serial CRC sequence (quantified definition), every obligation discharged by z3; one-byte steps by SAT', 'No bound on the buffer (2^40 bytes). When the loop is rewritten so that the invariant no longer names its variables, a bounded check (8 bytes) of the same contract decides.')
prop('P20', 'OS-level sector transfer is complete, in order and in bounds',
     'A sector read or write that reports success has transferred every byte of the requested sectors from or to the right file position in order, no matter how the operating system splits or interrupts the transfer, unless the user chose to ignore an error; nothing outside the requested sectors is ever written, even on failure. A read-only device is never written. Buffers are never overrun and staging memory is released. A surface check reports only sectors that were read; a sync that succeeds reached the disk.',
     ['inputs', 'schedules', 'histories'], 'every start, count, sector size, every sequence of short transfers, errors and answers',
     'Tests never see a short or failing transfer.',
     ['libparted/arch/linux.c'], [('linux_read', 'libparted/arch/linux.c'), ('linux_write', 'libparted/arch/linux.c'), ('linux_check', 'libparted/arch/linux.c'), ('linux_sync', 'libparted/arch/linux.c')],
     'proof', 'CBMC loop contracts on the real transfer loops against ghost contracts of the system calls; every obligation discharged', 'No bound on the number of transfers, retries or sectors. The old-kernel ioctl path is checked without retries (bounded). When a loop is rewritten beyond its invariant, a bounded check (three transfers) of the same contract decides.')
prop('P21', 'JSON output is well formed and lossless for every string',
     'Any string written as a JSON value is emitted as one valid JSON string literal that decodes to the original bytes, and any nesting of objects, arrays and values produces balanced brackets and separators.',
     ['inputs', 'histories'], 'every byte string, every nesting',
     'Tests print two disks with plain ASCII names.',
     ['parted/jsonwrt.c'], [('fputs_quoted_case_json', 'parted/jsonwrt.c'), ('ul_jsonwrt_open', 'parted/jsonwrt.c'), ('ul_jsonwrt_close', 'parted/jsonwrt.c')],
     'proof', 'CBMC loop contracts and Hoare triples on the real writer; the output is read back by a ghost JSON parser', 'Texts of every length by a loop invariant, every nesting by induction over one operation from any consistent state. The text loop falls back to a bounded check (four bytes) when it is rewritten beyond its invariant.')
prop('P22', 'File-system probing is safe on arbitrary disk contents',
     'Probing a region for a file system never reads outside that region, never writes to the device, never overruns a buffer or aborts whatever the sectors contain, and any region it reports is non-empty and starts inside the probed device.',
     ['inputs'], 'every sector content, every region and sector size',
     'Tests probe freshly made, intact file systems.',
     ['libparted/fs'], [('ext2_probe', 'libparted/fs/ext2/interface.c'), ('ntfs_probe', 'libparted/fs/ntfs/ntfs.c'), ('fat_probe', 'libparted/fs/fat/fat.c')])
prop('P23', 'Sun labels are written with a valid checksum and decode to what was written',
     'A Sun label written to disk carries a checksum that verifies, and any change of a single word makes verification fail. Partition start, length, type and flags written to the label read back unchanged, given cylinder-aligned starts.',
     ['inputs'], 'every label content, every partition',
     'Tests write a few labels.',
     ['libparted/labels/sun.c'], [('sun_compute_checksum', 'libparted/labels/sun.c'), ('sun_verify_checksum', 'libparted/labels/sun.c'), ('sun_write', 'libparted/labels/sun.c')])
prop('P24', 'Reading an MS-DOS table is exact, safe and terminates for any content',
     'Whatever bytes the first sector and the extended tables hold, reading an MS-DOS label terminates after a bounded number of sectors without an out-of-bounds access, overflow or abort. Every used entry of a table with a valid signature becomes exactly one partition of the right kind, place and number, every link to a further extended table is followed once in table order, and links back to the table itself are reported and never followed. A bad signature or an unreadable sector is never taken for an empty table without asking, any failure leaves no partitions behind, and the guessed BIOS geometry is always one the table can express.',
     ['inputs', 'fault_sequences'], 'every content of every sector read, every answer to the questions asked, every read outcome, chains of any length',
     'Tests read intact tables, and a single crafted extended chain.',
     ['libparted/labels/dos.c'], [('read_table', 'libparted/labels/dos.c'), ('msdos_read', 'libparted/labels/dos.c'), ('probe_partition_for_geom', 'libparted/labels/dos.c'), ('partition_check_bios_geometry', 'libparted/labels/dos.c')],
     'proof', WRAP, 'Every obligation discharged for all 66 table bytes, by induction over the number of extended tables that may still be read. Trusted: sector reading, the partition list (P07), the file-system probe (P22).')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['observe']:
                a['observe_at'] = p['observe']
            if p['state']:
                a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
    checks, na = [], []
    for p in P:
        if p['level']:
            checks.append(dict(property=p['id'], quick_cmd='bin/check ' + p['id'], thorough_cmd='bin/check ' + p['id'],
                               evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level=p['level'], level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason=p['na'] or 'no contract has been built for it yet'))
    m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')


main()