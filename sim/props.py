"""Which scenarios decide which property, with what budget."""

SHIM = ['gflags/glog/quipper replaced by shims', 'storage is a simulated in-memory disk behind libc interposition',
        'hash-table iteration and heap address order chosen by the simulator']


def part(target, scenarios, quick, thorough):
    return dict(target=target, scenarios=scenarios, quick=quick, thorough=thorough)


GCOV_REAL = ['gcov.cc', 'symbol_map.cc', 'profile_reader.cc', 'profile_writer.cc', 'dump_gcov.cc (main)',
             'profile_merger.cc (main)']

MERGER_REAL = ['sample_reader.cc', 'simple_spe_sample_reader.cc', 'sample_merger.cc (main)']
LLVM_REAL = ['profile_merger.cc (main)', 'llvm_profile_reader.cc', 'llvm_profile_writer.cc', 'symbol_map.cc', 'LLVM ProfileData library']
LLVM_STUB = ['gflags/glog/absl shims', 'storage is a simulated in-memory disk behind libc interposition',
             'hash-table iteration and heap address order chosen by the simulator']
RULE = 'a distinct run is a distinct hash of the whole event and I/O trace of one seeded execution, excluding skipped runs'

PROP_REAL = ['create_llvm_prof.cc (main)', 'llvm_propeller_*.cc', 'perfdata_reader.cc', 'lbr_branch_aggregator.cc', 'branch_aggregation.cc',
             'LLVM Object library (ELF, basic-block address map)']
PROP_STUB = LLVM_STUB + ['perf.data decoding: quipper stand-in that parses a protobuf of events']
PROP_ASSUME = ['perf.data decoding itself (quipper, not in the repository) is a stand-in', 'counts do not overflow 31 bits']

PROPS = {
    'P01': dict(
        level='exploration',
        parts=[part('gcov', ['afdo_truncated', 'afdo_torn_by_crash', 'afdo_read_faults'], (16000, 25), (2000000, 600))],
        rule='a distinct run is a distinct hash of the whole event and I/O trace of one seeded execution, excluding skipped runs',
        must_reach=['reach.truncations', 'reach.crashed_writes', 'reach.refused', 'reach.accepted', 'fault.read_eio', 'fault.crash'],
        real=GCOV_REAL, stub=SHIM,
        assumptions=['a partial write leaves a prefix of the bytes on disk', 'the file length is what stat and fread report']),
    'P02': dict(
        level='exploration',
        parts=[part('gcov', ['afdo_write_faults', 'afdo_merger_write_faults'], (16000, 25), (2000000, 600))],
        rule='a distinct run is a distinct hash of the whole event and I/O trace of one seeded execution, excluding skipped runs',
        must_reach=['reach.write_ok', 'reach.write_refused', 'fault.write_enospc', 'fault.write_eio', 'fault.disk_full', 'fault.close_eio',
                    'fault.open_fail', 'fault.short_write'],
        real=GCOV_REAL, stub=SHIM, assumptions=['after a successful close the bytes are durable']),
    'P03': dict(
        level='exploration',
        parts=[part('gcov', ['afdo_roundtrip', 'afdo_generations', 'afdo_summary'], (16000, 25), (2000000, 600))],
        rule='a distinct run is a distinct hash of the whole event and I/O trace of one seeded execution, excluding skipped runs',
        must_reach=['reach.roundtrips', 'order.hash_reverse', 'order.hash_shuffled'],
        real=GCOV_REAL, stub=SHIM, assumptions=['one source file per function name']),
    'P06': dict(
        level='exploration',
        parts=[part('gcov', ['afdo_merge_sum', 'afdo_merge_grouping'], (12000, 25), (2000000, 600))],
        rule='a distinct run is a distinct hash of the whole event and I/O trace of one seeded execution, excluding skipped runs',
        must_reach=['order.hash_reverse', 'order.hash_shuffled'],
        real=GCOV_REAL, stub=SHIM, assumptions=['counts do not overflow 64 bits']),
    'P04': dict(
        level='exploration',
        parts=[part('merger', ['text_roundtrip', 'text_foreign', 'text_write_faults', 'text_truncated', 'text_torn_by_crash', 'text_read_faults'],
                    (100000, 30), (4000000, 600))],
        rule=RULE, must_reach=['reach.roundtrips', 'reach.foreign', 'reach.write_ok', 'reach.write_refused', 'reach.truncations', 'reach.crashed_writes',
                               'reach.accepted', 'reach.refused', 'fault.read_eio', 'fault.write_enospc', 'fault.close_eio'],
        real=MERGER_REAL, stub=SHIM, assumptions=['a partial write leaves a prefix of the bytes on disk']),
    'P07': dict(
        level='exploration',
        parts=[part('merger', ['merger_history', 'merger_grouping'], (80000, 30), (3000000, 600))],
        rule=RULE, must_reach=['reach.merged', 'reach.merge_failed', 'reach.torn', 'reach.grouped', 'fault.crash', 'fault.open_fail'],
        real=MERGER_REAL, stub=SHIM, assumptions=['counts do not overflow 64 bits', 'one writer at a time']),
    'P10': dict(
        level='exploration',
        parts=[part('merger', ['perf_histories', 'perf_file_order', 'perf_merger'], (80000, 30), (3000000, 600))],
        rule=RULE, must_reach=['reach.compared', 'reach.ranges', 'reach.kernel', 'reach.multi_file', 'reach.orders', 'reach.lost_file',
                               'reach.merged', 'reach.merge_failed'],
        real=MERGER_REAL, stub=SHIM + ['perf.data decoding: quipper stand-in that parses a protobuf of events and applies mmap/fork/comm events'],
        assumptions=['perf.data decoding itself (quipper, not in the repository) is a stand-in']),
    'P13': dict(
        level='exploration',
        parts=[part('merger', ['spe_simple_histories'], (120000, 30), (3000000, 600))],
        rule=RULE, must_reach=['reach.compared', 'reach.lost_file', 'fault.read_eio'],
        real=['simple_spe_sample_reader.cc', 'sample_reader.cc'], stub=SHIM,
        assumptions=['perf script text as the reader documents it']),
    'P18': dict(
        level='exploration',
        parts=[part('symbolize', ['addr2line_golden', 'addr2line_generated', 'addr2line_split', 'addr2line_interleaved', 'addr2line_faults', 'addr2line_lines_only', 'elf_calls', 'elf_faults', 'range_map'],
                    (120000, 60), (4000000, 600))],
        rule=RULE, must_reach=['reach.queries', 'reach.answered', 'reach.refused', 'reach.images', 'reach.elf_refused', 'reach.elf_cut', 'reach.generated', 'reach.ranges_split', 'reach.ranges_filled', 'reach.inlined', 'reach.deep', 'reach.split', 'reach.dwp_collisions', 'reach.dwp_left_out', 'reach.dwp_v1',
                               'fault.read_eio', 'fault.open_fail', 'fault.mmap_fail', 'fault.short_read', 'fault.interrupt', 'fault.vanish'],
        real=['legacy_addr2line.cc', 'util/symbolize/*.cc'], stub=SHIM,
        assumptions=['the recorded answers of llvm-symbolizer are right for the fixture binaries', 'a mapped page past the end of the file faults']),
    'P19': dict(
        level='exploration',
        parts=[part('create', ['create_model', 'create_faults', 'create_lost_binary', 'create_spe'], (50000, 40), (4000000, 600))],
        rule=RULE, must_reach=['reach.spe_compared', 'reach.dumped', 'reach.compared', 'reach.lbr', 'reach.no_lbr', 'reach.llc_misses', 'reach.prefetch', 'reach.perf', 'reach.accepted', 'reach.other_symbols', 'reach.short_build_id',
                               'reach.refused', 'reach.functions', 'fault.open_fail', 'fault.read_eio', 'fault.mmap_fail', 'fault.write_enospc', 'fault.crash'],
        real=['create_gcov.cc', 'profile_creator.cc', 'profile.cc', 'symbol_map.cc', 'instruction_map.cc', 'sample_reader.cc', 'simple_spe_sample_reader.cc', 'profile_writer.cc',
              'profile_reader.cc', 'legacy_addr2line.cc', 'util/symbolize/*.cc', 'gcov.cc'],
        stub=SHIM + ['perf.data decoding: quipper stand-in that parses a protobuf of events and applies mmap/fork/comm events'],
        assumptions=['the recorded line tables of llvm-symbolizer are right for the fixture binaries', 'perf.data decoding itself (quipper, not in the repository) is a stand-in']),
    'P05': dict(
        level='exploration',
        parts=[part('llvm', ['llvm_merge_faults'], (60000, 25), (4000000, 400)), part('lcreate', ['lcreate_faults'], (60000, 20), (4000000, 300))],
        rule=RULE, must_reach=['reach.accepted', 'reach.refused', 'reach.functions', 'fault.open_fail', 'fault.read_eio', 'fault.write_enospc',
                               'fault.write_eio', 'fault.close_eio', 'fault.disk_full', 'fault.short_write', 'fault.crash'],
        real=LLVM_REAL, stub=LLVM_STUB, assumptions=['after a successful close the bytes are durable', 'the LLVM library decodes profiles correctly']),
    'P08': dict(
        level='exploration',
        parts=[part('llvm', ['llvm_merge', 'llvm_nesting'], (60000, 35), (4000000, 600))],
        rule=RULE, must_reach=['reach.merged', 'reach.flattened', 'reach.functions', 'reach.format_text', 'reach.format_binary', 'reach.format_extbinary',
                               'order.hash_reverse', 'order.hash_shuffled'],
        real=LLVM_REAL, stub=LLVM_STUB, assumptions=['counts do not overflow 64 bits', 'the LLVM library decodes profiles correctly']),
    'P09': dict(
        level='exploration',
        parts=[part('lcreate', ['lcreate_model', 'lcreate_faults'], (100000, 40), (4000000, 600))],
        rule=RULE, must_reach=['reach.compared', 'reach.lbr', 'reach.no_lbr', 'reach.llc_misses', 'reach.prefetch', 'reach.perf', 'reach.accepted', 'reach.other_symbols', 'reach.short_build_id',
                               'reach.refused', 'reach.functions', 'reach.symbol_list', 'reach.fs', 'reach.fs_base', 'reach.module', 'reach.kernel', 'fault.open_fail', 'fault.read_eio', 'fault.write_enospc'],
        real=['create_llvm_prof.cc', 'profile_creator.cc', 'profile.cc', 'symbol_map.cc', 'instruction_map.cc', 'addr2line.cc', 'sample_reader.cc',
              'llvm_profile_writer.cc', 'profile_symbol_list.cc', 'LLVM DebugInfo and ProfileData libraries'],
        stub=LLVM_STUB + ['perf.data decoding: quipper stand-in'],
        assumptions=['the recorded line tables of llvm-symbolizer are right for the fixture binaries', 'perf.data decoding itself (quipper) is a stand-in']),
    'P11': dict(
        level='exploration', parts=[part('propeller', ['prop_profile'], (60000, 30), (4000000, 600))],
        rule=RULE, must_reach=['reach.compared', 'reach.refused', 'reach.kernel', 'reach.pie', 'reach.arm', 'reach.mixed', 'reach.functions', 'reach.inter', 'reach.modules', 'reach.dwp', 'reach.ko'],
        real=PROP_REAL, stub=PROP_STUB, assumptions=PROP_ASSUME),
    'P12': dict(
        level='exploration', parts=[part('propeller', ['prop_read_faults'], (60000, 30), (4000000, 600))],
        rule=RULE, must_reach=['reach.accepted', 'reach.refused', 'fault.open_fail', 'fault.read_eio', 'fault.short_read', 'fault.mmap_fail', 'fault.stat_fail', 'fault.vanish'],
        real=PROP_REAL, stub=PROP_STUB, assumptions=PROP_ASSUME),
    'P14': dict(
        level='exploration', parts=[part('propeller', ['prop_layout', 'cfg_clones'], (70000, 40), (5000000, 700))],
        rule=RULE, must_reach=['reach.compared', 'reach.refused', 'reach.clusters', 'reach.many_clusters', 'reach.hot_pads', 'reach.forced', 'reach.scored', 'reach.dumps',
                               'reach.inter', 'reach.clustering', 'reach.library', 'reach.copies', 'reach.placed_copies', 'order.hash_reverse', 'order.hash_shuffled'],
        real=PROP_REAL, stub=PROP_STUB, assumptions=PROP_ASSUME),
    'P23': dict(
        level='exploration', parts=[part('propeller', ['prop_greedy', 'cfg_chains'], (70000, 45), (5000000, 700))],
        rule=RULE, must_reach=['reach.reference', 'reach.refused', 'reach.merges', 'reach.chain_splits', 'reach.rebundled', 'reach.clustered', 'reach.library', 'reach.compared_chains',
                               'reach.inter', 'order.hash_reverse', 'order.hash_shuffled'],
        real=PROP_REAL, stub=PROP_STUB, assumptions=PROP_ASSUME + ['runs in which rounding could decide between two merges are skipped']),
    'P15': dict(
        level='exploration', parts=[part('propeller', ['prop_deterministic'], (60000, 40), (4000000, 600))],
        rule=RULE, must_reach=['reach.compared', 'reach.refused', 'reach.input_orders', 'order.hash_reverse', 'order.hash_shuffled', 'reach.clustering', 'reach.inter'],
        real=PROP_REAL, stub=PROP_STUB, assumptions=PROP_ASSUME),
    'P16': dict(
        level='exploration', parts=[part('propeller', ['prop_write_faults'], (60000, 30), (4000000, 600))],
        rule=RULE, must_reach=['reach.accepted', 'reach.refused', 'fault.open_fail', 'fault.write_enospc', 'fault.write_eio', 'fault.short_write', 'fault.close_eio',
                               'fault.crash', 'fault.disk_full'],
        real=PROP_REAL, stub=PROP_STUB, assumptions=PROP_ASSUME + ['after a successful close the bytes are durable']),
    'P25': dict(
        level='exploration',
        parts=[part('propeller', ['prop_stats', 'stats_sum'], (30000, 35), (1500000, 600))],
        rule=RULE, must_reach=['reach.compared', 'reach.code', 'reach.not_a_branch', 'reach.no_code', 'reach.chain_statistics', 'reach.inter', 'reach.mixed', 'reach.refused', 'reach.summed'],
        real=PROP_REAL + ['llvm_propeller_statistics.cc', 'mini_disassembler.cc with the LLVM disassemblers'], stub=PROP_STUB, assumptions=PROP_ASSUME),
    'P17': dict(
        level='exploration', parts=[part('propeller', ['prop_status', 'status_tree'], (60000, 30), (4000000, 600))],
        rule=RULE, must_reach=['reach.compared', 'reach.refused', 'reach.looks', 'reach.progress', 'reach.http', 'reach.no_http', 'reach.faulted', 'reach.trees'],
        real=PROP_REAL + ['status_provider.cc', 'status_consumer_registry.cc'], stub=PROP_STUB,
        assumptions=PROP_ASSUME + ['a consumer reads the status between two I/O calls or allocations of the tool, not in the middle of one memory access']),
    'P20': dict(
        level='exploration', parts=[part('propeller', ['prop_spe'], (60000, 35), (4000000, 600))],
        rule=RULE, must_reach=['reach.compared', 'reach.refused', 'reach.threads', 'reach.no_context', 'reach.inferred', 'reach.arm', 'reach.kernel', 'reach.pie', 'reach.clusters'],
        real=PROP_REAL + ['spe_tid_pid_provider.cc', 'frequencies_branch_aggregator.cc', 'mini_disassembler.cc'],
        stub=PROP_STUB + ['decoding of SPE packets: quipper stand-in that takes decoded records'], assumptions=PROP_ASSUME + ['SPE packet decoding (quipper) is a stand-in']),
    'P21': dict(
        level='exploration', parts=[part('propeller', ['spe_ranges'], (60000, 25), (4000000, 400)), part('lcreate', ['lcreate_spe'], (60000, 20), (4000000, 300))],
        rule=RULE, must_reach=['reach.compared', 'reach.disassembled', 'reach.sampled', 'reach.kernel', 'reach.pie', 'reach.no_id', 'reach.profile_disassembled', 'reach.profile_sampled', 'reach.not_arm', 'reach.unusable', 'reach.not_taken', 'reach.threads',
                               'reach.refused', 'reach.fault_refused', 'reach.accepted', 'fault.open_fail', 'fault.read_eio', 'fault.mmap_fail'],
        real=['spe_sample_reader.cc', 'branch_frequencies_autofdo_sample.cc', 'perfdata_reader.cc', 'spe_tid_pid_provider.cc', 'mini_disassembler.cc', 'symbol_map.cc', 'create_llvm_prof.cc (main)', 'profile_creator.cc', 'profile.cc', 'addr2line.cc', 'llvm_profile_writer.cc',
              'LLVM disassembler (AArch64)'],
        stub=LLVM_STUB + ['perf.data and SPE packet decoding: quipper stand-in that takes decoded records'],
        assumptions=['perf.data and SPE packet decoding itself (quipper, not in the repository) is a stand-in', 'the LLVM library disassembles correctly']),
    'P22': dict(
        level='exploration', parts=[part('llvm', ['diff_overlap', 'diff_faults'], (60000, 35), (4000000, 600))],
        rule=RULE, must_reach=['reach.compared', 'reach.listed', 'reach.disjoint', 'reach.identical', 'reach.partial', 'reach.refused', 'reach.accepted', 'fault.open_fail', 'fault.read_eio',
                               'fault.short_read', 'order.hash_reverse', 'order.hash_shuffled'],
        real=['profile_diff.cc (main)', 'llvm_profile_reader.cc', 'symbol_map.cc', 'LLVM ProfileData library'], stub=LLVM_STUB,
        assumptions=['the LLVM library decodes profiles correctly', 'counts do not overflow 64 bits']),
    'P24': dict(
        level='exploration', parts=[part('gcov', ['dump_reading'], (40000, 30), (3000000, 500)), part('create', ['dump_debug'], (15000, 20), (600000, 300))],
        rule=RULE, must_reach=['reach.dumped', 'reach.debug_dumped', 'reach.refused', 'reach.accepted', 'reach.functions', 'fault.open_fail', 'fault.read_eio', 'order.hash_reverse', 'order.hash_shuffled'],
        real=GCOV_REAL + ['create_gcov.cc', 'profile_creator.cc', 'profile.cc', 'profile_writer.cc (Dump)', 'legacy_addr2line.cc'], stub=SHIM, assumptions=['counts do not overflow 64 bits', 'no two functions share a name (constructor variants do, and the listing shows one of them)']),
    'P27': dict(
        level='exploration', parts=[part('gcov', ['map_flat', 'map_inclusive'], (60000, 30), (6000000, 500))],
        rule=RULE, must_reach=['reach.flat', 'reach.kept', 'reach.cold_flattened', 'reach.hybrid_flattened', 'reach.scaled', 'reach.inclusive', 'reach.cycles', 'reach.above_32_bits',
                               'order.hash_reverse', 'order.hash_shuffled', 'order.alloc_seeded'],
        real=['symbol_map.cc', 'source_info.cc'], stub=SHIM, assumptions=['counts do not overflow 64 bits']),
    'P28': dict(
        level='exploration', parts=[part('create', ['binary_symbols', 'binary_lost'], (40000, 20), (3000000, 300)), part('lcreate', ['binary_symbols', 'binary_lost'], (30000, 20), (2000000, 300))],
        rule=RULE, must_reach=['reach.binaries', 'reach.kernel', 'reach.module', 'reach.segments', 'reach.counted', 'reach.given_names', 'reach.mappings', 'reach.merged_names', 'reach.symbol_list', 'reach.other_symbols',
                               'reach.answered', 'reach.refused', 'fault.open_fail', 'fault.read_eio', 'fault.short_read', 'fault.mmap_fail', 'fault.vanish', 'order.hash_reverse', 'order.hash_shuffled'],
        real=['symbol_map.cc', 'util/symbolize/elf_reader.cc'], stub=SHIM, assumptions=['function symbols do not overlap']),
    'P29': dict(
        level='exploration', parts=[part('lcreate', ['lcreate_options'], (40000, 20), (2000000, 300)), part('llvm', ['llvm_options'], (40000, 15), (2000000, 300)), part('propeller', ['prop_options'], (15000, 20), (2000000, 300))],
        rule=RULE, must_reach=['reach.compared', 'reach.alias', 'reach.refused', 'reach.refused_two', 'reach.refused_no', 'reach.refused_format', 'reach.refused_symbol', 'reach.refused_ignored', 'reach.refused_several',
                               'reach.refused_profiler', 'reach.refused_binary', 'reach.merged', 'reach.refused_merge', 'reach.propeller_same', 'reach.refused_propeller', 'order.hash_reverse', 'order.hash_shuffled'],
        real=['llvm_propeller_profile_generator.cc', 'llvm_propeller_profile_writer.cc', 'create_llvm_prof.cc (main)', 'profile_merger.cc (main)', 'profile_creator.cc', 'profile.cc', 'symbol_map.cc', 'addr2line.cc', 'llvm_profile_reader.cc', 'llvm_profile_writer.cc', 'LLVM ProfileData library'], stub=PROP_STUB,
        assumptions=['the LLVM library decodes profiles correctly']),
    'P30': dict(
        level='exploration', parts=[part('gcov', ['map_working_sets'], (60000, 20), (6000000, 300)), part('create', ['create_working_sets'], (30000, 30), (2000000, 400))],
        rule=RULE, must_reach=['reach.working_sets', 'reach.no_working_sets', 'reach.file_with', 'reach.file_without', 'reach.other_symbols', 'order.hash_reverse', 'order.hash_shuffled', 'order.alloc_seeded'],
        real=['symbol_map.cc', 'create_gcov.cc (main)', 'profile_creator.cc', 'profile.cc', 'profile_writer.cc', 'profile_reader.cc', 'instruction_map.cc'], stub=SHIM, assumptions=['counts times instructions do not overflow 64 bits']),
    'P26': dict(
        level='exploration', parts=[part('propeller', ['cfg_program', 'cfg_feed', 'cfg_staged'], (30000, 40), (2000000, 600))],
        rule=RULE, must_reach=['reach.graphs', 'reach.compared', 'reach.refused', 'reach.not_written', 'reach.read_back', 'reach.not_read', 'reach.torn', 'reach.fed', 'reach.collector_failed', 'reach.stages',
                               'fault.write_enospc', 'fault.write_eio', 'fault.close_eio', 'fault.disk_full', 'fault.short_write', 'fault.crash', 'fault.read_eio', 'fault.short_read'],
        real=PROP_REAL + ['llvm_propeller_program_cfg_proto_builder.cc'], stub=PROP_STUB + ['collector of samples: hands out generated buffers, fails at a chosen point'], assumptions=PROP_ASSUME),
}
