from build import SYMBOLIZE

GCOV_CORE = ['gcov.cc', 'symbol_map.cc', 'profile_reader.cc', 'profile_writer.cc', 'profile.cc', 'instruction_map.cc',
             'sample_reader.cc', 'legacy_addr2line.cc', 'source_info.cc'] + SYMBOLIZE

CREATE = ['gcov.cc', 'symbol_map.cc', 'profile.cc', 'profile_creator.cc', 'profile_writer.cc', 'instruction_map.cc',
          'sample_reader.cc', 'simple_spe_sample_reader.cc', 'legacy_addr2line.cc'] + SYMBOLIZE

GCOV_L = ['gcov.cc', 'symbol_map.cc', 'profile_writer.cc', 'source_info.cc', 'addr2line.cc'] + SYMBOLIZE

PROP_L = GCOV_L + ['llvm_profile_reader.cc', 'llvm_profile_writer.cc', 'profile_reader.cc', 'profile.cc', 'profile_creator.cc', 'instruction_map.cc',
                   'sample_reader.cc', 'profile_symbol_list.cc', 'mini_disassembler.cc', 'perfdata_reader.cc', 'spe_sample_reader.cc',
                   'spe_tid_pid_provider.cc', 'addr2cu.cc', 'branch_aggregation.cc', 'branch_frequencies_autofdo_sample.cc',
                   'frequencies_branch_aggregator.cc', 'lbr_branch_aggregator.cc', 'status_consumer_registry.cc', 'status_provider.cc'] + [
    'llvm_propeller_' + f + '.cc' for f in (
        'binary_address_mapper', 'binary_content', 'cfg', 'chain_cluster_builder', 'code_layout', 'code_layout_scorer', 'file_perf_data_provider',
        'formatting', 'node_chain', 'node_chain_assembly', 'node_chain_builder', 'options_builder', 'perf_branch_frequencies_aggregator',
        'perf_lbr_aggregator', 'profile_computer', 'profile_generator', 'profile_writer', 'program_cfg', 'program_cfg_builder',
        'program_cfg_proto_builder', 'statistics', 'telemetry_reporter')]

TARGETS = {
    'symbolize': dict(flavour='G', repo=['legacy_addr2line.cc'] + SYMBOLIZE, scen=['symbolize_scen.cc']),
    'merger': dict(flavour='G', quipper=True, repo=CREATE, mains={'sample_merger.cc': 'sample_merger_main'},
                   scen=['text_scen.cc', 'perf_scen.cc']),
    'gcov': dict(flavour='G', quipper=True,
                 repo=['gcov.cc', 'symbol_map.cc', 'profile_reader.cc', 'profile_writer.cc', 'legacy_addr2line.cc',
                       'instruction_map.cc', 'profile.cc', 'sample_reader.cc'] + SYMBOLIZE,
                 mains={'dump_gcov.cc': 'dump_gcov_main', 'profile_merger.cc': 'profile_merger_main'},
                 scen=['profile_model.cc', 'gcov_scen.cc', 'map_scen.cc']),
    'create': dict(flavour='G', quipper=True, repo=CREATE + ['profile_reader.cc'], mains={'create_gcov.cc': 'create_gcov_main'},
                   scen=['profile_model.cc', 'create_scen.cc', 'binmap_scen.cc']),
    'llvm': dict(flavour='L', repo=GCOV_L + ['llvm_profile_reader.cc', 'llvm_profile_writer.cc', 'profile_reader.cc'],
                 mains={'profile_merger.cc': 'profile_merger_main', 'profile_diff.cc': 'profile_diff_main'}, scen=['llvm_scen.cc', 'diff_scen.cc']),
    'lcreate': dict(flavour='L', quipper=True, repo=PROP_L, pb=['llvm_propeller_cfg.pb.cc', 'llvm_propeller_options.pb.cc'],
                    mains={'create_llvm_prof.cc': 'create_llvm_prof_main'}, scen=['profile_model.cc', 'lcreate_scen.cc', 'binmap_scen.cc']),
    'propeller': dict(flavour='L', quipper=True, repo=PROP_L, pb=['llvm_propeller_cfg.pb.cc', 'llvm_propeller_options.pb.cc'],
                      mains={'create_llvm_prof.cc': 'create_llvm_prof_main'}, scen=['prop_scen.cc', 'prop_cfg.cc', 'status_scen.cc', 'spe_scen.cc']),
}
