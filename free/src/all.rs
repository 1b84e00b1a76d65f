//! Written by tools/mkall.py: every accessor of every structure.
#![allow(deprecated)]
use core::fmt::Write;
use raw_cpuid::{self as rc, CpuId, CpuIdReader};

fn vendor_info(o: &rc::VendorInfo, f: &mut impl Write) {
    let _ = write!(f, "as_str={:?},", o.as_str());
    let _ = write!(f, "as_string={:?},", o.as_string());
}
fn processor_serial(o: &rc::ProcessorSerial, f: &mut impl Write) {
    let _ = write!(f, "serial_lower={:?},", o.serial_lower());
    let _ = write!(f, "serial_middle={:?},", o.serial_middle());
    let _ = write!(f, "serial_upper={:?},", o.serial_upper());
    let _ = write!(f, "serial={:?},", o.serial());
    let _ = write!(f, "serial_all={:?},", o.serial_all());
}
fn feature_info(o: &rc::FeatureInfo, f: &mut impl Write) {
    let _ = write!(f, "has_sse3={:?},", o.has_sse3());
    let _ = write!(f, "has_pclmulqdq={:?},", o.has_pclmulqdq());
    let _ = write!(f, "has_ds_area={:?},", o.has_ds_area());
    let _ = write!(f, "has_monitor_mwait={:?},", o.has_monitor_mwait());
    let _ = write!(f, "has_cpl={:?},", o.has_cpl());
    let _ = write!(f, "has_vmx={:?},", o.has_vmx());
    let _ = write!(f, "has_smx={:?},", o.has_smx());
    let _ = write!(f, "has_eist={:?},", o.has_eist());
    let _ = write!(f, "has_tm2={:?},", o.has_tm2());
    let _ = write!(f, "has_ssse3={:?},", o.has_ssse3());
    let _ = write!(f, "has_cnxtid={:?},", o.has_cnxtid());
    let _ = write!(f, "has_fma={:?},", o.has_fma());
    let _ = write!(f, "has_cmpxchg16b={:?},", o.has_cmpxchg16b());
    let _ = write!(f, "has_pdcm={:?},", o.has_pdcm());
    let _ = write!(f, "has_pcid={:?},", o.has_pcid());
    let _ = write!(f, "has_dca={:?},", o.has_dca());
    let _ = write!(f, "has_sse41={:?},", o.has_sse41());
    let _ = write!(f, "has_sse42={:?},", o.has_sse42());
    let _ = write!(f, "has_x2apic={:?},", o.has_x2apic());
    let _ = write!(f, "has_movbe={:?},", o.has_movbe());
    let _ = write!(f, "has_popcnt={:?},", o.has_popcnt());
    let _ = write!(f, "has_tsc_deadline={:?},", o.has_tsc_deadline());
    let _ = write!(f, "has_aesni={:?},", o.has_aesni());
    let _ = write!(f, "has_xsave={:?},", o.has_xsave());
    let _ = write!(f, "has_oxsave={:?},", o.has_oxsave());
    let _ = write!(f, "has_avx={:?},", o.has_avx());
    let _ = write!(f, "has_f16c={:?},", o.has_f16c());
    let _ = write!(f, "has_rdrand={:?},", o.has_rdrand());
    let _ = write!(f, "has_hypervisor={:?},", o.has_hypervisor());
    let _ = write!(f, "has_fpu={:?},", o.has_fpu());
    let _ = write!(f, "has_vme={:?},", o.has_vme());
    let _ = write!(f, "has_de={:?},", o.has_de());
    let _ = write!(f, "has_pse={:?},", o.has_pse());
    let _ = write!(f, "has_tsc={:?},", o.has_tsc());
    let _ = write!(f, "has_msr={:?},", o.has_msr());
    let _ = write!(f, "has_pae={:?},", o.has_pae());
    let _ = write!(f, "has_mce={:?},", o.has_mce());
    let _ = write!(f, "has_cmpxchg8b={:?},", o.has_cmpxchg8b());
    let _ = write!(f, "has_apic={:?},", o.has_apic());
    let _ = write!(f, "has_sysenter_sysexit={:?},", o.has_sysenter_sysexit());
    let _ = write!(f, "has_mtrr={:?},", o.has_mtrr());
    let _ = write!(f, "has_pge={:?},", o.has_pge());
    let _ = write!(f, "has_mca={:?},", o.has_mca());
    let _ = write!(f, "has_cmov={:?},", o.has_cmov());
    let _ = write!(f, "has_pat={:?},", o.has_pat());
    let _ = write!(f, "has_pse36={:?},", o.has_pse36());
    let _ = write!(f, "has_psn={:?},", o.has_psn());
    let _ = write!(f, "has_clflush={:?},", o.has_clflush());
    let _ = write!(f, "has_ds={:?},", o.has_ds());
    let _ = write!(f, "has_acpi={:?},", o.has_acpi());
    let _ = write!(f, "has_mmx={:?},", o.has_mmx());
    let _ = write!(f, "has_fxsave_fxstor={:?},", o.has_fxsave_fxstor());
    let _ = write!(f, "has_sse={:?},", o.has_sse());
    let _ = write!(f, "has_sse2={:?},", o.has_sse2());
    let _ = write!(f, "has_ss={:?},", o.has_ss());
    let _ = write!(f, "has_htt={:?},", o.has_htt());
    let _ = write!(f, "has_tm={:?},", o.has_tm());
    let _ = write!(f, "has_pbe={:?},", o.has_pbe());
    let _ = write!(f, "extended_family_id={:?},", o.extended_family_id());
    let _ = write!(f, "extended_model_id={:?},", o.extended_model_id());
    let _ = write!(f, "base_family_id={:?},", o.base_family_id());
    let _ = write!(f, "base_model_id={:?},", o.base_model_id());
    let _ = write!(f, "stepping_id={:?},", o.stepping_id());
    let _ = write!(f, "brand_index={:?},", o.brand_index());
    let _ = write!(f, "cflush_cache_line_size={:?},", o.cflush_cache_line_size());
    let _ = write!(f, "initial_local_apic_id={:?},", o.initial_local_apic_id());
    let _ = write!(f, "max_logical_processor_ids={:?},", o.max_logical_processor_ids());
    let _ = write!(f, "family_id={:?},", o.family_id());
    let _ = write!(f, "model_id={:?},", o.model_id());
}
fn cache_parameter(o: &rc::CacheParameter, f: &mut impl Write) {
    let _ = write!(f, "is_self_initializing={:?},", o.is_self_initializing());
    let _ = write!(f, "is_fully_associative={:?},", o.is_fully_associative());
    let _ = write!(f, "is_write_back_invalidate={:?},", o.is_write_back_invalidate());
    let _ = write!(f, "is_inclusive={:?},", o.is_inclusive());
    let _ = write!(f, "has_complex_indexing={:?},", o.has_complex_indexing());
    let _ = write!(f, "level={:?},", o.level());
    let _ = write!(f, "max_cores_for_cache={:?},", o.max_cores_for_cache());
    let _ = write!(f, "max_cores_for_package={:?},", o.max_cores_for_package());
    let _ = write!(f, "coherency_line_size={:?},", o.coherency_line_size());
    let _ = write!(f, "physical_line_partitions={:?},", o.physical_line_partitions());
    let _ = write!(f, "associativity={:?},", o.associativity());
    let _ = write!(f, "cache_type={:?},", o.cache_type());
    let _ = write!(f, "sets={:?},", (o.sets() as u64).min(0xffff_ffff));
}
fn monitor_mwait_info(o: &rc::MonitorMwaitInfo, f: &mut impl Write) {
    let _ = write!(f, "extensions_supported={:?},", o.extensions_supported());
    let _ = write!(f, "interrupts_as_break_event={:?},", o.interrupts_as_break_event());
    let _ = write!(f, "smallest_monitor_line={:?},", o.smallest_monitor_line());
    let _ = write!(f, "largest_monitor_line={:?},", o.largest_monitor_line());
    let _ = write!(f, "supported_c0_states={:?},", o.supported_c0_states());
    let _ = write!(f, "supported_c1_states={:?},", o.supported_c1_states());
    let _ = write!(f, "supported_c2_states={:?},", o.supported_c2_states());
    let _ = write!(f, "supported_c3_states={:?},", o.supported_c3_states());
    let _ = write!(f, "supported_c4_states={:?},", o.supported_c4_states());
    let _ = write!(f, "supported_c5_states={:?},", o.supported_c5_states());
    let _ = write!(f, "supported_c6_states={:?},", o.supported_c6_states());
    let _ = write!(f, "supported_c7_states={:?},", o.supported_c7_states());
}
fn thermal_power_info(o: &rc::ThermalPowerInfo, f: &mut impl Write) {
    let _ = write!(f, "has_dts={:?},", o.has_dts());
    let _ = write!(f, "has_turbo_boost={:?},", o.has_turbo_boost());
    let _ = write!(f, "has_arat={:?},", o.has_arat());
    let _ = write!(f, "has_pln={:?},", o.has_pln());
    let _ = write!(f, "has_ecmd={:?},", o.has_ecmd());
    let _ = write!(f, "has_ptm={:?},", o.has_ptm());
    let _ = write!(f, "has_hwp={:?},", o.has_hwp());
    let _ = write!(f, "has_hwp_notification={:?},", o.has_hwp_notification());
    let _ = write!(f, "has_hwp_activity_window={:?},", o.has_hwp_activity_window());
    let _ = write!(f, "has_hwp_energy_performance_preference={:?},", o.has_hwp_energy_performance_preference());
    let _ = write!(f, "has_hwp_package_level_request={:?},", o.has_hwp_package_level_request());
    let _ = write!(f, "has_hdc={:?},", o.has_hdc());
    let _ = write!(f, "has_turbo_boost3={:?},", o.has_turbo_boost3());
    let _ = write!(f, "has_hwp_capabilities={:?},", o.has_hwp_capabilities());
    let _ = write!(f, "has_hwp_peci_override={:?},", o.has_hwp_peci_override());
    let _ = write!(f, "has_flexible_hwp={:?},", o.has_flexible_hwp());
    let _ = write!(f, "has_hwp_fast_access_mode={:?},", o.has_hwp_fast_access_mode());
    let _ = write!(f, "has_ignore_idle_processor_hwp_request={:?},", o.has_ignore_idle_processor_hwp_request());
    let _ = write!(f, "has_hw_coord_feedback={:?},", o.has_hw_coord_feedback());
    let _ = write!(f, "has_energy_bias_pref={:?},", o.has_energy_bias_pref());
    let _ = write!(f, "dts_irq_threshold={:?},", o.dts_irq_threshold());
}
fn extended_features(o: &rc::ExtendedFeatures, f: &mut impl Write) {
    let _ = write!(f, "has_fsgsbase={:?},", o.has_fsgsbase());
    let _ = write!(f, "has_tsc_adjust_msr={:?},", o.has_tsc_adjust_msr());
    let _ = write!(f, "has_bmi1={:?},", o.has_bmi1());
    let _ = write!(f, "has_hle={:?},", o.has_hle());
    let _ = write!(f, "has_avx2={:?},", o.has_avx2());
    let _ = write!(f, "has_fdp={:?},", o.has_fdp());
    let _ = write!(f, "has_smep={:?},", o.has_smep());
    let _ = write!(f, "has_bmi2={:?},", o.has_bmi2());
    let _ = write!(f, "has_rep_movsb_stosb={:?},", o.has_rep_movsb_stosb());
    let _ = write!(f, "has_invpcid={:?},", o.has_invpcid());
    let _ = write!(f, "has_rtm={:?},", o.has_rtm());
    let _ = write!(f, "has_rdtm={:?},", o.has_rdtm());
    let _ = write!(f, "has_fpu_cs_ds_deprecated={:?},", o.has_fpu_cs_ds_deprecated());
    let _ = write!(f, "has_mpx={:?},", o.has_mpx());
    let _ = write!(f, "has_rdta={:?},", o.has_rdta());
    let _ = write!(f, "has_rdseed={:?},", o.has_rdseed());
    let _ = write!(f, "has_adx={:?},", o.has_adx());
    let _ = write!(f, "has_smap={:?},", o.has_smap());
    let _ = write!(f, "has_clflushopt={:?},", o.has_clflushopt());
    let _ = write!(f, "has_processor_trace={:?},", o.has_processor_trace());
    let _ = write!(f, "has_sha={:?},", o.has_sha());
    let _ = write!(f, "has_sgx={:?},", o.has_sgx());
    let _ = write!(f, "has_avx512f={:?},", o.has_avx512f());
    let _ = write!(f, "has_avx512dq={:?},", o.has_avx512dq());
    let _ = write!(f, "has_avx512_ifma={:?},", o.has_avx512_ifma());
    let _ = write!(f, "has_avx512pf={:?},", o.has_avx512pf());
    let _ = write!(f, "has_avx512er={:?},", o.has_avx512er());
    let _ = write!(f, "has_avx512cd={:?},", o.has_avx512cd());
    let _ = write!(f, "has_avx512bw={:?},", o.has_avx512bw());
    let _ = write!(f, "has_avx512vl={:?},", o.has_avx512vl());
    let _ = write!(f, "has_clwb={:?},", o.has_clwb());
    let _ = write!(f, "has_prefetchwt1={:?},", o.has_prefetchwt1());
    let _ = write!(f, "has_avx512vbmi={:?},", o.has_avx512vbmi());
    let _ = write!(f, "has_umip={:?},", o.has_umip());
    let _ = write!(f, "has_pku={:?},", o.has_pku());
    let _ = write!(f, "has_ospke={:?},", o.has_ospke());
    let _ = write!(f, "has_waitpkg={:?},", o.has_waitpkg());
    let _ = write!(f, "has_av512vbmi2={:?},", o.has_av512vbmi2());
    let _ = write!(f, "has_avx512vbmi2={:?},", o.has_avx512vbmi2());
    let _ = write!(f, "has_cet_ss={:?},", o.has_cet_ss());
    let _ = write!(f, "has_gfni={:?},", o.has_gfni());
    let _ = write!(f, "has_vaes={:?},", o.has_vaes());
    let _ = write!(f, "has_vpclmulqdq={:?},", o.has_vpclmulqdq());
    let _ = write!(f, "has_avx512vnni={:?},", o.has_avx512vnni());
    let _ = write!(f, "has_avx512bitalg={:?},", o.has_avx512bitalg());
    let _ = write!(f, "has_tme_en={:?},", o.has_tme_en());
    let _ = write!(f, "has_avx512vpopcntdq={:?},", o.has_avx512vpopcntdq());
    let _ = write!(f, "has_la57={:?},", o.has_la57());
    let _ = write!(f, "has_rdpid={:?},", o.has_rdpid());
    let _ = write!(f, "has_sgx_lc={:?},", o.has_sgx_lc());
    let _ = write!(f, "has_avx512_4vnniw={:?},", o.has_avx512_4vnniw());
    let _ = write!(f, "has_avx512_4fmaps={:?},", o.has_avx512_4fmaps());
    let _ = write!(f, "has_avx512_vp2intersect={:?},", o.has_avx512_vp2intersect());
    let _ = write!(f, "has_amx_bf16={:?},", o.has_amx_bf16());
    let _ = write!(f, "has_avx512_fp16={:?},", o.has_avx512_fp16());
    let _ = write!(f, "has_amx_tile={:?},", o.has_amx_tile());
    let _ = write!(f, "has_amx_int8={:?},", o.has_amx_int8());
    let _ = write!(f, "has_avx_vnni={:?},", o.has_avx_vnni());
    let _ = write!(f, "has_avx512_bf16={:?},", o.has_avx512_bf16());
    let _ = write!(f, "has_fzrm={:?},", o.has_fzrm());
    let _ = write!(f, "has_fsrs={:?},", o.has_fsrs());
    let _ = write!(f, "has_fsrcrs={:?},", o.has_fsrcrs());
    let _ = write!(f, "has_hreset={:?},", o.has_hreset());
    let _ = write!(f, "has_avx_ifma={:?},", o.has_avx_ifma());
    let _ = write!(f, "has_lam={:?},", o.has_lam());
    let _ = write!(f, "has_msrlist={:?},", o.has_msrlist());
    let _ = write!(f, "has_invd_disable_post_bios_done={:?},", o.has_invd_disable_post_bios_done());
    let _ = write!(f, "has_avx_vnni_int8={:?},", o.has_avx_vnni_int8());
    let _ = write!(f, "has_avx_ne_convert={:?},", o.has_avx_ne_convert());
    let _ = write!(f, "has_avx_vnni_int16={:?},", o.has_avx_vnni_int16());
    let _ = write!(f, "has_prefetchi={:?},", o.has_prefetchi());
    let _ = write!(f, "has_uiret_uif={:?},", o.has_uiret_uif());
    let _ = write!(f, "has_cet_sss={:?},", o.has_cet_sss());
    let _ = write!(f, "has_avx10={:?},", o.has_avx10());
    let _ = write!(f, "mawau_value={:?},", o.mawau_value());
}
fn direct_cache_access_info(o: &rc::DirectCacheAccessInfo, f: &mut impl Write) {
    let _ = write!(f, "get_dca_cap_value={:?},", o.get_dca_cap_value());
}
fn performance_monitoring_info(o: &rc::PerformanceMonitoringInfo, f: &mut impl Write) {
    let _ = write!(f, "has_any_thread_deprecation={:?},", o.has_any_thread_deprecation());
    let _ = write!(f, "is_core_cyc_ev_unavailable={:?},", o.is_core_cyc_ev_unavailable());
    let _ = write!(f, "is_inst_ret_ev_unavailable={:?},", o.is_inst_ret_ev_unavailable());
    let _ = write!(f, "is_ref_cycle_ev_unavailable={:?},", o.is_ref_cycle_ev_unavailable());
    let _ = write!(f, "is_cache_ref_ev_unavailable={:?},", o.is_cache_ref_ev_unavailable());
    let _ = write!(f, "is_ll_cache_miss_ev_unavailable={:?},", o.is_ll_cache_miss_ev_unavailable());
    let _ = write!(f, "is_branch_inst_ret_ev_unavailable={:?},", o.is_branch_inst_ret_ev_unavailable());
    let _ = write!(f, "is_branch_midpred_ev_unavailable={:?},", o.is_branch_midpred_ev_unavailable());
    let _ = write!(f, "version_id={:?},", o.version_id());
    let _ = write!(f, "number_of_counters={:?},", o.number_of_counters());
    let _ = write!(f, "counter_bit_width={:?},", o.counter_bit_width());
    let _ = write!(f, "ebx_length={:?},", o.ebx_length());
    let _ = write!(f, "fixed_function_counters={:?},", o.fixed_function_counters());
    let _ = write!(f, "fixed_function_counters_bit_width={:?},", o.fixed_function_counters_bit_width());
}
fn extended_topology_level(o: &rc::ExtendedTopologyLevel, f: &mut impl Write) {
    let _ = write!(f, "processors={:?},", o.processors());
    let _ = write!(f, "level_number={:?},", o.level_number());
    let _ = write!(f, "x2apic_id={:?},", o.x2apic_id());
    let _ = write!(f, "shift_right_for_next_apic_id={:?},", o.shift_right_for_next_apic_id());
    let _ = write!(f, "level_type={:?},", o.level_type());
}
fn extended_state_info<R: CpuIdReader>(o: &rc::ExtendedStateInfo<R>, f: &mut impl Write) {
    let _ = write!(f, "xcr0_supports_legacy_x87={:?},", o.xcr0_supports_legacy_x87());
    let _ = write!(f, "xcr0_supports_sse_128={:?},", o.xcr0_supports_sse_128());
    let _ = write!(f, "xcr0_supports_avx_256={:?},", o.xcr0_supports_avx_256());
    let _ = write!(f, "xcr0_supports_mpx_bndregs={:?},", o.xcr0_supports_mpx_bndregs());
    let _ = write!(f, "xcr0_supports_mpx_bndcsr={:?},", o.xcr0_supports_mpx_bndcsr());
    let _ = write!(f, "xcr0_supports_avx512_opmask={:?},", o.xcr0_supports_avx512_opmask());
    let _ = write!(f, "xcr0_supports_avx512_zmm_hi256={:?},", o.xcr0_supports_avx512_zmm_hi256());
    let _ = write!(f, "xcr0_supports_avx512_zmm_hi16={:?},", o.xcr0_supports_avx512_zmm_hi16());
    let _ = write!(f, "xcr0_supports_pkru={:?},", o.xcr0_supports_pkru());
    let _ = write!(f, "ia32_xss_supports_pt={:?},", o.ia32_xss_supports_pt());
    let _ = write!(f, "ia32_xss_supports_hdc={:?},", o.ia32_xss_supports_hdc());
    let _ = write!(f, "has_xsaveopt={:?},", o.has_xsaveopt());
    let _ = write!(f, "has_xsavec={:?},", o.has_xsavec());
    let _ = write!(f, "has_xgetbv={:?},", o.has_xgetbv());
    let _ = write!(f, "has_xsaves_xrstors={:?},", o.has_xsaves_xrstors());
    let _ = write!(f, "xsave_area_size_enabled_features={:?},", o.xsave_area_size_enabled_features());
    let _ = write!(f, "xsave_area_size_supported_features={:?},", o.xsave_area_size_supported_features());
    let _ = write!(f, "xsave_size={:?},", o.xsave_size());
}
fn extended_state(o: &rc::ExtendedState, f: &mut impl Write) {
    let _ = write!(f, "is_in_ia32_xss={:?},", o.is_in_ia32_xss());
    let _ = write!(f, "is_compacted_format={:?},", o.is_compacted_format());
    let _ = write!(f, "size={:?},", o.size());
    let _ = write!(f, "offset={:?},", o.offset());
    let _ = write!(f, "register={:?},", o.register());
    let _ = write!(f, "location={:?},", o.location());
    let _ = write!(f, "is_in_xcr0={:?},", o.is_in_xcr0());
}
fn rdt_monitoring_info<R: CpuIdReader>(o: &rc::RdtMonitoringInfo<R>, f: &mut impl Write) {
    let _ = write!(f, "has_l3_monitoring={:?},", o.has_l3_monitoring());
    let _ = write!(f, "rmid_range={:?},", o.rmid_range());
}
fn l3_monitoring_info(o: &rc::L3MonitoringInfo, f: &mut impl Write) {
    let _ = write!(f, "has_occupancy_monitoring={:?},", o.has_occupancy_monitoring());
    let _ = write!(f, "has_total_bandwidth_monitoring={:?},", o.has_total_bandwidth_monitoring());
    let _ = write!(f, "has_local_bandwidth_monitoring={:?},", o.has_local_bandwidth_monitoring());
    let _ = write!(f, "conversion_factor={:?},", o.conversion_factor());
    let _ = write!(f, "maximum_rmid_range={:?},", o.maximum_rmid_range());
}
fn rdt_allocation_info<R: CpuIdReader>(o: &rc::RdtAllocationInfo<R>, f: &mut impl Write) {
    let _ = write!(f, "has_l3_cat={:?},", o.has_l3_cat());
    let _ = write!(f, "has_l2_cat={:?},", o.has_l2_cat());
    let _ = write!(f, "has_memory_bandwidth_allocation={:?},", o.has_memory_bandwidth_allocation());
}
fn l3_cat_info(o: &rc::L3CatInfo, f: &mut impl Write) {
    let _ = write!(f, "has_code_data_prioritization={:?},", o.has_code_data_prioritization());
    let _ = write!(f, "capacity_mask_length={:?},", o.capacity_mask_length());
    let _ = write!(f, "isolation_bitmap={:?},", o.isolation_bitmap());
    let _ = write!(f, "highest_cos={:?},", o.highest_cos());
}
fn l2_cat_info(o: &rc::L2CatInfo, f: &mut impl Write) {
    let _ = write!(f, "capacity_mask_length={:?},", o.capacity_mask_length());
    let _ = write!(f, "isolation_bitmap={:?},", o.isolation_bitmap());
    let _ = write!(f, "highest_cos={:?},", o.highest_cos());
}
fn mem_bw_allocation_info(o: &rc::MemBwAllocationInfo, f: &mut impl Write) {
    let _ = write!(f, "has_linear_response_delay={:?},", o.has_linear_response_delay());
    let _ = write!(f, "max_hba_throttling={:?},", o.max_hba_throttling());
    let _ = write!(f, "highest_cos={:?},", o.highest_cos());
}
fn sgx_info<R: CpuIdReader>(o: &rc::SgxInfo<R>, f: &mut impl Write) {
    let _ = write!(f, "has_sgx1={:?},", o.has_sgx1());
    let _ = write!(f, "has_sgx2={:?},", o.has_sgx2());
    let _ = write!(f, "has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext={:?},", o.has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext());
    let _ = write!(f, "has_encls_leaves_etrackc_erdinfo_eldbc_elduc={:?},", o.has_encls_leaves_etrackc_erdinfo_eldbc_elduc());
    let _ = write!(f, "miscselect={:?},", o.miscselect());
    let _ = write!(f, "max_enclave_size_non_64bit={:?},", o.max_enclave_size_non_64bit());
    let _ = write!(f, "max_enclave_size_64bit={:?},", o.max_enclave_size_64bit());
    let _ = write!(f, "secs_attributes={:?},", o.secs_attributes());
}
fn epc_section(o: &rc::EpcSection, f: &mut impl Write) {
    let _ = write!(f, "physical_base={:?},", o.physical_base());
    let _ = write!(f, "size={:?},", o.size());
}
fn processor_trace_info(o: &rc::ProcessorTraceInfo, f: &mut impl Write) {
    let _ = write!(f, "has_rtit_cr3_match={:?},", o.has_rtit_cr3_match());
    let _ = write!(f, "has_configurable_psb_and_cycle_accurate_mode={:?},", o.has_configurable_psb_and_cycle_accurate_mode());
    let _ = write!(f, "has_ip_tracestop_filtering={:?},", o.has_ip_tracestop_filtering());
    let _ = write!(f, "has_mtc_timing_packet_coefi_suppression={:?},", o.has_mtc_timing_packet_coefi_suppression());
    let _ = write!(f, "has_ptwrite={:?},", o.has_ptwrite());
    let _ = write!(f, "has_power_event_trace={:?},", o.has_power_event_trace());
    let _ = write!(f, "has_topa={:?},", o.has_topa());
    let _ = write!(f, "has_topa_maximum_entries={:?},", o.has_topa_maximum_entries());
    let _ = write!(f, "has_single_range_output_scheme={:?},", o.has_single_range_output_scheme());
    let _ = write!(f, "has_trace_transport_subsystem={:?},", o.has_trace_transport_subsystem());
    let _ = write!(f, "has_lip_with_cs_base={:?},", o.has_lip_with_cs_base());
    let _ = write!(f, "configurable_address_ranges={:?},", o.configurable_address_ranges());
    let _ = write!(f, "supported_mtc_period_encodings={:?},", o.supported_mtc_period_encodings());
    let _ = write!(f, "supported_cycle_threshold_value_encodings={:?},", o.supported_cycle_threshold_value_encodings());
    let _ = write!(f, "supported_psb_frequency_encodings={:?},", o.supported_psb_frequency_encodings());
}
fn tsc_info(o: &rc::TscInfo, f: &mut impl Write) {
    let _ = write!(f, "denominator={:?},", o.denominator());
    let _ = write!(f, "numerator={:?},", o.numerator());
    let _ = write!(f, "nominal_frequency={:?},", o.nominal_frequency());
    let _ = write!(f, "tsc_frequency={:?},", o.tsc_frequency());
}
fn processor_frequency_info(o: &rc::ProcessorFrequencyInfo, f: &mut impl Write) {
    let _ = write!(f, "processor_base_frequency={:?},", o.processor_base_frequency());
    let _ = write!(f, "processor_max_frequency={:?},", o.processor_max_frequency());
    let _ = write!(f, "bus_frequency={:?},", o.bus_frequency());
}
fn dat_info(o: &rc::DatInfo, f: &mut impl Write) {
    let _ = write!(f, "has_4k_entries={:?},", o.has_4k_entries());
    let _ = write!(f, "has_2mb_entries={:?},", o.has_2mb_entries());
    let _ = write!(f, "has_4mb_entries={:?},", o.has_4mb_entries());
    let _ = write!(f, "has_1gb_entries={:?},", o.has_1gb_entries());
    let _ = write!(f, "is_fully_associative={:?},", o.is_fully_associative());
    let _ = write!(f, "partitioning={:?},", o.partitioning());
    let _ = write!(f, "ways={:?},", o.ways());
    let _ = write!(f, "sets={:?},", (o.sets() as u64).min(0xffff_ffff));
    let _ = write!(f, "cache_level={:?},", o.cache_level());
    let _ = write!(f, "max_addressable_ids={:?},", o.max_addressable_ids());
    let _ = write!(f, "cache_type={:?},", o.cache_type());
}
fn soc_vendor_info<R: CpuIdReader>(o: &rc::SoCVendorInfo<R>, f: &mut impl Write) {
    let _ = write!(f, "get_soc_vendor_id={:?},", o.get_soc_vendor_id());
    let _ = write!(f, "get_project_id={:?},", o.get_project_id());
    let _ = write!(f, "get_stepping_id={:?},", o.get_stepping_id());
}
fn soc_vendor_brand(o: &rc::SoCVendorBrand, f: &mut impl Write) {
    let _ = write!(f, "as_str={:?},", o.as_str());
    let _ = write!(f, "as_string={:?},", o.as_string());
}
fn hypervisor_info<R: CpuIdReader>(o: &rc::HypervisorInfo<R>, f: &mut impl Write) {
    let _ = write!(f, "identify={:?},", o.identify());
    let _ = write!(f, "tsc_frequency={:?},", o.tsc_frequency());
    let _ = write!(f, "apic_frequency={:?},", o.apic_frequency());
}
fn extended_processor_feature_identifiers(o: &rc::ExtendedProcessorFeatureIdentifiers, f: &mut impl Write) {
    let _ = write!(f, "has_lahf_sahf={:?},", o.has_lahf_sahf());
    let _ = write!(f, "has_lzcnt={:?},", o.has_lzcnt());
    let _ = write!(f, "has_prefetchw={:?},", o.has_prefetchw());
    let _ = write!(f, "has_syscall_sysret={:?},", o.has_syscall_sysret());
    let _ = write!(f, "has_execute_disable={:?},", o.has_execute_disable());
    let _ = write!(f, "has_1gib_pages={:?},", o.has_1gib_pages());
    let _ = write!(f, "has_rdtscp={:?},", o.has_rdtscp());
    let _ = write!(f, "has_64bit_mode={:?},", o.has_64bit_mode());
    let _ = write!(f, "has_cmp_legacy={:?},", o.has_cmp_legacy());
    let _ = write!(f, "has_svm={:?},", o.has_svm());
    let _ = write!(f, "has_ext_apic_space={:?},", o.has_ext_apic_space());
    let _ = write!(f, "has_alt_mov_cr8={:?},", o.has_alt_mov_cr8());
    let _ = write!(f, "has_sse4a={:?},", o.has_sse4a());
    let _ = write!(f, "has_misaligned_sse_mode={:?},", o.has_misaligned_sse_mode());
    let _ = write!(f, "has_osvw={:?},", o.has_osvw());
    let _ = write!(f, "has_ibs={:?},", o.has_ibs());
    let _ = write!(f, "has_xop={:?},", o.has_xop());
    let _ = write!(f, "has_skinit={:?},", o.has_skinit());
    let _ = write!(f, "has_wdt={:?},", o.has_wdt());
    let _ = write!(f, "has_lwp={:?},", o.has_lwp());
    let _ = write!(f, "has_fma4={:?},", o.has_fma4());
    let _ = write!(f, "has_tbm={:?},", o.has_tbm());
    let _ = write!(f, "has_topology_extensions={:?},", o.has_topology_extensions());
    let _ = write!(f, "has_perf_cntr_extensions={:?},", o.has_perf_cntr_extensions());
    let _ = write!(f, "has_nb_perf_cntr_extensions={:?},", o.has_nb_perf_cntr_extensions());
    let _ = write!(f, "has_data_access_bkpt_extension={:?},", o.has_data_access_bkpt_extension());
    let _ = write!(f, "has_perf_tsc={:?},", o.has_perf_tsc());
    let _ = write!(f, "has_perf_cntr_llc_extensions={:?},", o.has_perf_cntr_llc_extensions());
    let _ = write!(f, "has_monitorx_mwaitx={:?},", o.has_monitorx_mwaitx());
    let _ = write!(f, "has_addr_mask_extension={:?},", o.has_addr_mask_extension());
    let _ = write!(f, "has_mmx_extensions={:?},", o.has_mmx_extensions());
    let _ = write!(f, "has_fast_fxsave_fxstor={:?},", o.has_fast_fxsave_fxstor());
    let _ = write!(f, "has_amd_3dnow_extensions={:?},", o.has_amd_3dnow_extensions());
    let _ = write!(f, "has_3dnow={:?},", o.has_3dnow());
    let _ = write!(f, "extended_signature={:?},", o.extended_signature());
    let _ = write!(f, "pkg_type={:?},", o.pkg_type());
    let _ = write!(f, "brand_id={:?},", o.brand_id());
}
fn processor_brand_string(o: &rc::ProcessorBrandString, f: &mut impl Write) {
    let _ = write!(f, "as_str={:?},", o.as_str());
}
fn l1_cache_tlb_info(o: &rc::L1CacheTlbInfo, f: &mut impl Write) {
    let _ = write!(f, "dtlb_2m_4m_size={:?},", o.dtlb_2m_4m_size());
    let _ = write!(f, "itlb_2m_4m_size={:?},", o.itlb_2m_4m_size());
    let _ = write!(f, "dtlb_4k_size={:?},", o.dtlb_4k_size());
    let _ = write!(f, "itlb_4k_size={:?},", o.itlb_4k_size());
    let _ = write!(f, "dcache_size={:?},", o.dcache_size());
    let _ = write!(f, "dcache_lines_per_tag={:?},", o.dcache_lines_per_tag());
    let _ = write!(f, "dcache_line_size={:?},", o.dcache_line_size());
    let _ = write!(f, "icache_size={:?},", o.icache_size());
    let _ = write!(f, "icache_lines_per_tag={:?},", o.icache_lines_per_tag());
    let _ = write!(f, "icache_line_size={:?},", o.icache_line_size());
    let _ = write!(f, "dtlb_2m_4m_associativity={:?},", o.dtlb_2m_4m_associativity());
    let _ = write!(f, "itlb_2m_4m_associativity={:?},", o.itlb_2m_4m_associativity());
    let _ = write!(f, "dtlb_4k_associativity={:?},", o.dtlb_4k_associativity());
    let _ = write!(f, "itlb_4k_associativity={:?},", o.itlb_4k_associativity());
    let _ = write!(f, "dcache_associativity={:?},", o.dcache_associativity());
    let _ = write!(f, "icache_associativity={:?},", o.icache_associativity());
}
fn l2_and3_cache_tlb_info(o: &rc::L2And3CacheTlbInfo, f: &mut impl Write) {
    let _ = write!(f, "dtlb_2m_4m_size={:?},", o.dtlb_2m_4m_size());
    let _ = write!(f, "itlb_2m_4m_size={:?},", o.itlb_2m_4m_size());
    let _ = write!(f, "dtlb_4k_size={:?},", o.dtlb_4k_size());
    let _ = write!(f, "itlb_4k_size={:?},", o.itlb_4k_size());
    let _ = write!(f, "l2cache_line_size={:?},", o.l2cache_line_size());
    let _ = write!(f, "l2cache_lines_per_tag={:?},", o.l2cache_lines_per_tag());
    let _ = write!(f, "l2cache_size={:?},", o.l2cache_size());
    let _ = write!(f, "l3cache_line_size={:?},", o.l3cache_line_size());
    let _ = write!(f, "l3cache_lines_per_tag={:?},", o.l3cache_lines_per_tag());
    let _ = write!(f, "l3cache_size={:?},", o.l3cache_size());
    let _ = write!(f, "dtlb_2m_4m_associativity={:?},", o.dtlb_2m_4m_associativity());
    let _ = write!(f, "itlb_2m_4m_associativity={:?},", o.itlb_2m_4m_associativity());
    let _ = write!(f, "dtlb_4k_associativity={:?},", o.dtlb_4k_associativity());
    let _ = write!(f, "itlb_4k_associativity={:?},", o.itlb_4k_associativity());
    let _ = write!(f, "l2cache_associativity={:?},", o.l2cache_associativity());
    let _ = write!(f, "l3cache_associativity={:?},", o.l3cache_associativity());
}
fn apm_info(o: &rc::ApmInfo, f: &mut impl Write) {
    let _ = write!(f, "has_mca_overflow_recovery={:?},", o.has_mca_overflow_recovery());
    let _ = write!(f, "has_succor={:?},", o.has_succor());
    let _ = write!(f, "has_hwa={:?},", o.has_hwa());
    let _ = write!(f, "has_ts={:?},", o.has_ts());
    let _ = write!(f, "has_freq_id_ctrl={:?},", o.has_freq_id_ctrl());
    let _ = write!(f, "has_volt_id_ctrl={:?},", o.has_volt_id_ctrl());
    let _ = write!(f, "has_thermtrip={:?},", o.has_thermtrip());
    let _ = write!(f, "has_tm={:?},", o.has_tm());
    let _ = write!(f, "has_100mhz_steps={:?},", o.has_100mhz_steps());
    let _ = write!(f, "has_hw_pstate={:?},", o.has_hw_pstate());
    let _ = write!(f, "has_invariant_tsc={:?},", o.has_invariant_tsc());
    let _ = write!(f, "has_cpb={:?},", o.has_cpb());
    let _ = write!(f, "has_ro_effective_freq_iface={:?},", o.has_ro_effective_freq_iface());
    let _ = write!(f, "has_feedback_iface={:?},", o.has_feedback_iface());
    let _ = write!(f, "has_power_reporting_iface={:?},", o.has_power_reporting_iface());
    let _ = write!(f, "cpu_pwr_sample_time_ratio={:?},", o.cpu_pwr_sample_time_ratio());
}
fn processor_capacity_and_feature_info(o: &rc::ProcessorCapacityAndFeatureInfo, f: &mut impl Write) {
    let _ = write!(f, "has_cl_zero={:?},", o.has_cl_zero());
    let _ = write!(f, "has_inst_ret_cntr_msr={:?},", o.has_inst_ret_cntr_msr());
    let _ = write!(f, "has_restore_fp_error_ptrs={:?},", o.has_restore_fp_error_ptrs());
    let _ = write!(f, "has_invlpgb={:?},", o.has_invlpgb());
    let _ = write!(f, "has_rdpru={:?},", o.has_rdpru());
    let _ = write!(f, "has_mcommit={:?},", o.has_mcommit());
    let _ = write!(f, "has_wbnoinvd={:?},", o.has_wbnoinvd());
    let _ = write!(f, "has_int_wbinvd={:?},", o.has_int_wbinvd());
    let _ = write!(f, "has_unsupported_efer_lmsle={:?},", o.has_unsupported_efer_lmsle());
    let _ = write!(f, "has_invlpgb_nested={:?},", o.has_invlpgb_nested());
    let _ = write!(f, "physical_address_bits={:?},", o.physical_address_bits());
    let _ = write!(f, "linear_address_bits={:?},", o.linear_address_bits());
    let _ = write!(f, "guest_physical_address_bits={:?},", o.guest_physical_address_bits());
    let _ = write!(f, "apic_id_size={:?},", o.apic_id_size());
    let _ = write!(f, "num_phys_threads={:?},", o.num_phys_threads());
    let _ = write!(f, "invlpgb_max_pages={:?},", o.invlpgb_max_pages());
    let _ = write!(f, "max_rdpru_id={:?},", o.max_rdpru_id());
    let _ = write!(f, "perf_tsc_size={:?},", o.perf_tsc_size());
    let _ = write!(f, "maximum_logical_processors={:?},", o.maximum_logical_processors());
}
fn svm_features(o: &rc::SvmFeatures, f: &mut impl Write) {
    let _ = write!(f, "has_nested_paging={:?},", o.has_nested_paging());
    let _ = write!(f, "has_lbr_virtualization={:?},", o.has_lbr_virtualization());
    let _ = write!(f, "has_svm_lock={:?},", o.has_svm_lock());
    let _ = write!(f, "has_nrip={:?},", o.has_nrip());
    let _ = write!(f, "has_tsc_rate_msr={:?},", o.has_tsc_rate_msr());
    let _ = write!(f, "has_vmcb_clean_bits={:?},", o.has_vmcb_clean_bits());
    let _ = write!(f, "has_flush_by_asid={:?},", o.has_flush_by_asid());
    let _ = write!(f, "has_decode_assists={:?},", o.has_decode_assists());
    let _ = write!(f, "has_pause_filter={:?},", o.has_pause_filter());
    let _ = write!(f, "has_pause_filter_threshold={:?},", o.has_pause_filter_threshold());
    let _ = write!(f, "has_avic={:?},", o.has_avic());
    let _ = write!(f, "has_vmsave_virtualization={:?},", o.has_vmsave_virtualization());
    let _ = write!(f, "has_gif={:?},", o.has_gif());
    let _ = write!(f, "has_gmet={:?},", o.has_gmet());
    let _ = write!(f, "has_sss_check={:?},", o.has_sss_check());
    let _ = write!(f, "has_spec_ctrl={:?},", o.has_spec_ctrl());
    let _ = write!(f, "has_host_mce_override={:?},", o.has_host_mce_override());
    let _ = write!(f, "has_tlb_ctrl={:?},", o.has_tlb_ctrl());
    let _ = write!(f, "revision={:?},", o.revision());
    let _ = write!(f, "supported_asids={:?},", o.supported_asids());
}
fn tlb1gb_page_info(o: &rc::Tlb1gbPageInfo, f: &mut impl Write) {
    let _ = write!(f, "dtlb_l1_1gb_size={:?},", o.dtlb_l1_1gb_size());
    let _ = write!(f, "itlb_l1_1gb_size={:?},", o.itlb_l1_1gb_size());
    let _ = write!(f, "dtlb_l2_1gb_size={:?},", o.dtlb_l2_1gb_size());
    let _ = write!(f, "itlb_l2_1gb_size={:?},", o.itlb_l2_1gb_size());
    let _ = write!(f, "dtlb_l1_1gb_associativity={:?},", o.dtlb_l1_1gb_associativity());
    let _ = write!(f, "itlb_l1_1gb_associativity={:?},", o.itlb_l1_1gb_associativity());
    let _ = write!(f, "dtlb_l2_1gb_associativity={:?},", o.dtlb_l2_1gb_associativity());
    let _ = write!(f, "itlb_l2_1gb_associativity={:?},", o.itlb_l2_1gb_associativity());
}
fn performance_optimization_info(o: &rc::PerformanceOptimizationInfo, f: &mut impl Write) {
    let _ = write!(f, "has_fp128={:?},", o.has_fp128());
    let _ = write!(f, "has_movu={:?},", o.has_movu());
    let _ = write!(f, "has_fp256={:?},", o.has_fp256());
}
fn instruction_based_sampling_capabilities(o: &rc::InstructionBasedSamplingCapabilities, f: &mut impl Write) {
    let _ = write!(f, "has_feature_flags={:?},", o.has_feature_flags());
    let _ = write!(f, "has_fetch_sampling={:?},", o.has_fetch_sampling());
    let _ = write!(f, "has_execution_sampling={:?},", o.has_execution_sampling());
    let _ = write!(f, "has_read_write_operation_counter={:?},", o.has_read_write_operation_counter());
    let _ = write!(f, "has_operation_counter={:?},", o.has_operation_counter());
    let _ = write!(f, "has_branch_target_address_reporting={:?},", o.has_branch_target_address_reporting());
    let _ = write!(f, "has_operation_counter_extended={:?},", o.has_operation_counter_extended());
    let _ = write!(f, "has_invalid_rip_indication={:?},", o.has_invalid_rip_indication());
    let _ = write!(f, "has_fused_branch_micro_op_indication={:?},", o.has_fused_branch_micro_op_indication());
    let _ = write!(f, "has_l3_miss_filtering={:?},", o.has_l3_miss_filtering());
}
fn processor_topology_info(o: &rc::ProcessorTopologyInfo, f: &mut impl Write) {
    let _ = write!(f, "x2apic_id={:?},", o.x2apic_id());
    let _ = write!(f, "core_id={:?},", o.core_id());
    let _ = write!(f, "node_id={:?},", o.node_id());
    let _ = write!(f, "nodes_per_processor={:?},", o.nodes_per_processor());
    let _ = write!(f, "threads_per_core={:?},", o.threads_per_core());
}
fn memory_encryption_info(o: &rc::MemoryEncryptionInfo, f: &mut impl Write) {
    let _ = write!(f, "has_sme={:?},", o.has_sme());
    let _ = write!(f, "has_sev={:?},", o.has_sev());
    let _ = write!(f, "has_page_flush_msr={:?},", o.has_page_flush_msr());
    let _ = write!(f, "has_sev_es={:?},", o.has_sev_es());
    let _ = write!(f, "has_sev_snp={:?},", o.has_sev_snp());
    let _ = write!(f, "has_vmpl={:?},", o.has_vmpl());
    let _ = write!(f, "has_hw_enforced_cache_coh={:?},", o.has_hw_enforced_cache_coh());
    let _ = write!(f, "has_64bit_mode={:?},", o.has_64bit_mode());
    let _ = write!(f, "has_restricted_injection={:?},", o.has_restricted_injection());
    let _ = write!(f, "has_alternate_injection={:?},", o.has_alternate_injection());
    let _ = write!(f, "has_debug_swap={:?},", o.has_debug_swap());
    let _ = write!(f, "has_prevent_host_ibs={:?},", o.has_prevent_host_ibs());
    let _ = write!(f, "has_vte={:?},", o.has_vte());
    let _ = write!(f, "c_bit_position={:?},", o.c_bit_position());
    let _ = write!(f, "physical_address_reduction={:?},", o.physical_address_reduction());
    let _ = write!(f, "max_encrypted_guests={:?},", o.max_encrypted_guests());
    let _ = write!(f, "min_sev_no_es_asid={:?},", o.min_sev_no_es_asid());
}
fn pqos_extended_feature_info<R: CpuIdReader>(o: &rc::PqosExtendedFeatureInfo<R>, f: &mut impl Write) {
    let _ = write!(f, "has_l3mbe={:?},", o.has_l3mbe());
    let _ = write!(f, "has_l3smbe={:?},", o.has_l3smbe());
    let _ = write!(f, "has_bmec={:?},", o.has_bmec());
    let _ = write!(f, "has_l3rr={:?},", o.has_l3rr());
    let _ = write!(f, "has_abmc={:?},", o.has_abmc());
    let _ = write!(f, "has_sdciae={:?},", o.has_sdciae());
}
fn l3_memory_bandwidth_enforcement_information(o: &rc::L3MemoryBandwidthEnforcementInformation, f: &mut impl Write) {
    let _ = write!(f, "bandwidth_length={:?},", o.bandwidth_length());
    let _ = write!(f, "cos_max={:?},", o.cos_max());
}
fn bandwidth_monitoring_event_counters(o: &rc::BandwidthMonitoringEventCounters, f: &mut impl Write) {
    let _ = write!(f, "has_l3_cache_lcl_bw_fill_mon={:?},", o.has_l3_cache_lcl_bw_fill_mon());
    let _ = write!(f, "has_l3_cache_rmt_bw_fill_mon={:?},", o.has_l3_cache_rmt_bw_fill_mon());
    let _ = write!(f, "has_l3_cache_lcl_bw_nt_wr_mon={:?},", o.has_l3_cache_lcl_bw_nt_wr_mon());
    let _ = write!(f, "has_l3_cache_rmt_bw_nt_wr_mon={:?},", o.has_l3_cache_rmt_bw_nt_wr_mon());
    let _ = write!(f, "has_l3_cache_lcl_slow_bw_fill_mon={:?},", o.has_l3_cache_lcl_slow_bw_fill_mon());
    let _ = write!(f, "has_l3_cache_rmt_slow_bw_fill_mon={:?},", o.has_l3_cache_rmt_slow_bw_fill_mon());
    let _ = write!(f, "has_l3_cache_vic_mon={:?},", o.has_l3_cache_vic_mon());
    let _ = write!(f, "number_events={:?},", o.number_events());
}
fn assignable_bandwidth_monitoring_counter_info(o: &rc::AssignableBandwidthMonitoringCounterInfo, f: &mut impl Write) {
    let _ = write!(f, "has_overflow_bit={:?},", o.has_overflow_bit());
    let _ = write!(f, "has_select_cos={:?},", o.has_select_cos());
    let _ = write!(f, "counter_size={:?},", o.counter_size());
    let _ = write!(f, "max_abmc={:?},", o.max_abmc());
}
fn extended_feature_identification2(o: &rc::ExtendedFeatureIdentification2, f: &mut impl Write) {
    let _ = write!(f, "has_no_nested_data_bp={:?},", o.has_no_nested_data_bp());
    let _ = write!(f, "has_lfence_always_serializing={:?},", o.has_lfence_always_serializing());
    let _ = write!(f, "has_smm_pg_cfg_lock={:?},", o.has_smm_pg_cfg_lock());
    let _ = write!(f, "has_null_select_clears_base={:?},", o.has_null_select_clears_base());
    let _ = write!(f, "has_upper_address_ignore={:?},", o.has_upper_address_ignore());
    let _ = write!(f, "has_automatic_ibrs={:?},", o.has_automatic_ibrs());
    let _ = write!(f, "has_no_smm_ctl_msr={:?},", o.has_no_smm_ctl_msr());
    let _ = write!(f, "has_prefetch_ctl_msr={:?},", o.has_prefetch_ctl_msr());
    let _ = write!(f, "has_cpuid_user_dis={:?},", o.has_cpuid_user_dis());
    let _ = write!(f, "microcode_patch_size={:?},", o.microcode_patch_size());
}
fn extended_performance_monitoring_debug(o: &rc::ExtendedPerformanceMonitoringDebug, f: &mut impl Write) {
    let _ = write!(f, "has_perf_mon_v2={:?},", o.has_perf_mon_v2());
    let _ = write!(f, "has_lbr_stack={:?},", o.has_lbr_stack());
    let _ = write!(f, "has_lbr_and_pmc_freeze={:?},", o.has_lbr_and_pmc_freeze());
    let _ = write!(f, "num_perf_ctr_core={:?},", o.num_perf_ctr_core());
    let _ = write!(f, "num_lbr_stack_size={:?},", o.num_lbr_stack_size());
    let _ = write!(f, "num_perf_ctr_nb={:?},", o.num_perf_ctr_nb());
}
fn multi_key_encrypted_memory_capabilities(o: &rc::MultiKeyEncryptedMemoryCapabilities, f: &mut impl Write) {
    let _ = write!(f, "has_mem_hmk={:?},", o.has_mem_hmk());
    let _ = write!(f, "max_mem_hmk_encr_key_id={:?},", o.max_mem_hmk_encr_key_id());
}
fn extended_cpu_topology_level(o: &rc::ExtendedCpuTopologyLevel, f: &mut impl Write) {
    let _ = write!(f, "has_efficiency_ranking_available={:?},", o.has_efficiency_ranking_available());
    let _ = write!(f, "has_heterogeneous_cores={:?},", o.has_heterogeneous_cores());
    let _ = write!(f, "has_asymmetric_topology={:?},", o.has_asymmetric_topology());
    let _ = write!(f, "mask_width={:?},", o.mask_width());
    let _ = write!(f, "num_logical_processors={:?},", o.num_logical_processors());
    let _ = write!(f, "pwr_efficiency_ranking={:?},", o.pwr_efficiency_ranking());
    let _ = write!(f, "native_mode_id={:?},", o.native_mode_id());
    let _ = write!(f, "core_type={:?},", o.core_type());
    let _ = write!(f, "input_ecx={:?},", o.input_ecx());
    let _ = write!(f, "extended_apic_id={:?},", o.extended_apic_id());
    let _ = write!(f, "level_type={:?},", o.level_type());
}

pub fn all<R: CpuIdReader + 'static>(c: &CpuId<R>, f: &mut impl Write) {
    if let Some(o) = (|| -> Option<rc::VendorInfo> { Some(c.get_vendor_info()?) })() {
        let _ = write!(f, "vendor_info:");
        vendor_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::FeatureInfo> { Some(c.get_feature_info()?) })() {
        let _ = write!(f, "feature_info:");
        feature_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ProcessorSerial> { Some(c.get_processor_serial()?) })() {
        let _ = write!(f, "processor_serial:");
        processor_serial(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::CacheParameter> { Some(c.get_cache_parameters()?.next()?) })() {
        let _ = write!(f, "cache_parameter:");
        cache_parameter(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::MonitorMwaitInfo> { Some(c.get_monitor_mwait_info()?) })() {
        let _ = write!(f, "monitor_mwait_info:");
        monitor_mwait_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ThermalPowerInfo> { Some(c.get_thermal_power_info()?) })() {
        let _ = write!(f, "thermal_power_info:");
        thermal_power_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ExtendedFeatures> { Some(c.get_extended_feature_info()?) })() {
        let _ = write!(f, "extended_features:");
        extended_features(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::DirectCacheAccessInfo> { Some(c.get_direct_cache_access_info()?) })() {
        let _ = write!(f, "direct_cache_access_info:");
        direct_cache_access_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::PerformanceMonitoringInfo> { Some(c.get_performance_monitoring_info()?) })() {
        let _ = write!(f, "performance_monitoring_info:");
        performance_monitoring_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ExtendedTopologyLevel> { Some(c.get_extended_topology_info()?.next()?) })() {
        let _ = write!(f, "extended_topology_level:");
        extended_topology_level(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ExtendedTopologyLevel> { Some(c.get_extended_topology_info_v2()?.next()?) })() {
        let _ = write!(f, "extended_topology_level:");
        extended_topology_level(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ExtendedStateInfo<R>> { Some(c.get_extended_state_info()?) })() {
        let _ = write!(f, "extended_state_info:");
        extended_state_info(&o, f);
    }
    if let Some(o) = c.get_extended_state_info().and_then(|x| x.iter().find(|x| x.subleaf == 2)) {
        let _ = write!(f, "extended_state:");
        extended_state(&o, f);
    }
    if let Some(o) = c.get_extended_state_info().and_then(|x| x.iter().find(|x| x.subleaf == 3)) {
        let _ = write!(f, "extended_state:");
        extended_state(&o, f);
    }
    if let Some(o) = c.get_extended_state_info().and_then(|x| x.iter().find(|x| x.subleaf == 4)) {
        let _ = write!(f, "extended_state:");
        extended_state(&o, f);
    }
    if let Some(o) = c.get_extended_state_info().and_then(|x| x.iter().find(|x| x.subleaf == 5)) {
        let _ = write!(f, "extended_state:");
        extended_state(&o, f);
    }
    if let Some(o) = c.get_extended_state_info().and_then(|x| x.iter().find(|x| x.subleaf == 6)) {
        let _ = write!(f, "extended_state:");
        extended_state(&o, f);
    }
    if let Some(o) = c.get_extended_state_info().and_then(|x| x.iter().find(|x| x.subleaf == 7)) {
        let _ = write!(f, "extended_state:");
        extended_state(&o, f);
    }
    if let Some(o) = c.get_extended_state_info().and_then(|x| x.iter().find(|x| x.subleaf == 8)) {
        let _ = write!(f, "extended_state:");
        extended_state(&o, f);
    }
    if let Some(o) = c.get_extended_state_info().and_then(|x| x.iter().find(|x| x.subleaf == 9)) {
        let _ = write!(f, "extended_state:");
        extended_state(&o, f);
    }
    if let Some(o) = c.get_extended_state_info().and_then(|x| x.iter().find(|x| x.subleaf == 13)) {
        let _ = write!(f, "extended_state:");
        extended_state(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::RdtMonitoringInfo<R>> { Some(c.get_rdt_monitoring_info()?) })() {
        let _ = write!(f, "rdt_monitoring_info:");
        rdt_monitoring_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::L3MonitoringInfo> { Some(c.get_rdt_monitoring_info()?.l3_monitoring()?) })() {
        let _ = write!(f, "l3_monitoring_info:");
        l3_monitoring_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::RdtAllocationInfo<R>> { Some(c.get_rdt_allocation_info()?) })() {
        let _ = write!(f, "rdt_allocation_info:");
        rdt_allocation_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::L3CatInfo> { Some(c.get_rdt_allocation_info()?.l3_cat()?) })() {
        let _ = write!(f, "l3_cat_info:");
        l3_cat_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::L2CatInfo> { Some(c.get_rdt_allocation_info()?.l2_cat()?) })() {
        let _ = write!(f, "l2_cat_info:");
        l2_cat_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::MemBwAllocationInfo> { Some(c.get_rdt_allocation_info()?.memory_bandwidth_allocation()?) })() {
        let _ = write!(f, "mem_bw_allocation_info:");
        mem_bw_allocation_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::SgxInfo<R>> { Some(c.get_sgx_info()?) })() {
        let _ = write!(f, "sgx_info:");
        sgx_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::EpcSection> { match c.get_sgx_info()?.iter().next()? { rc::SgxSectionInfo::Epc(e) => Some(e) } })() {
        let _ = write!(f, "epc_section:");
        epc_section(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ProcessorTraceInfo> { Some(c.get_processor_trace_info()?) })() {
        let _ = write!(f, "processor_trace_info:");
        processor_trace_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::TscInfo> { Some(c.get_tsc_info()?) })() {
        let _ = write!(f, "tsc_info:");
        tsc_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ProcessorFrequencyInfo> { Some(c.get_processor_frequency_info()?) })() {
        let _ = write!(f, "processor_frequency_info:");
        processor_frequency_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::SoCVendorInfo<R>> { Some(c.get_soc_vendor_info()?) })() {
        let _ = write!(f, "soc_vendor_info:");
        soc_vendor_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::SoCVendorBrand> { Some(c.get_soc_vendor_info()?.get_vendor_brand()?) })() {
        let _ = write!(f, "soc_vendor_brand:");
        soc_vendor_brand(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::DatInfo> { Some(c.get_deterministic_address_translation_info()?.next()?) })() {
        let _ = write!(f, "dat_info:");
        dat_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::HypervisorInfo<R>> { Some(c.get_hypervisor_info()?) })() {
        let _ = write!(f, "hypervisor_info:");
        hypervisor_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ExtendedProcessorFeatureIdentifiers> { Some(c.get_extended_processor_and_feature_identifiers()?) })() {
        let _ = write!(f, "extended_processor_feature_identifiers:");
        extended_processor_feature_identifiers(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ProcessorBrandString> { Some(c.get_processor_brand_string()?) })() {
        let _ = write!(f, "processor_brand_string:");
        processor_brand_string(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::L1CacheTlbInfo> { Some(c.get_l1_cache_and_tlb_info()?) })() {
        let _ = write!(f, "l1_cache_tlb_info:");
        l1_cache_tlb_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::L2And3CacheTlbInfo> { Some(c.get_l2_l3_cache_and_tlb_info()?) })() {
        let _ = write!(f, "l2_and3_cache_tlb_info:");
        l2_and3_cache_tlb_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ApmInfo> { Some(c.get_advanced_power_mgmt_info()?) })() {
        let _ = write!(f, "apm_info:");
        apm_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ProcessorCapacityAndFeatureInfo> { Some(c.get_processor_capacity_feature_info()?) })() {
        let _ = write!(f, "processor_capacity_and_feature_info:");
        processor_capacity_and_feature_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::SvmFeatures> { Some(c.get_svm_info()?) })() {
        let _ = write!(f, "svm_features:");
        svm_features(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::Tlb1gbPageInfo> { Some(c.get_tlb_1gb_page_info()?) })() {
        let _ = write!(f, "tlb1gb_page_info:");
        tlb1gb_page_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::PerformanceOptimizationInfo> { Some(c.get_performance_optimization_info()?) })() {
        let _ = write!(f, "performance_optimization_info:");
        performance_optimization_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::InstructionBasedSamplingCapabilities> { Some(c.get_instruction_based_sampling_capabilities()?) })() {
        let _ = write!(f, "instruction_based_sampling_capabilities:");
        instruction_based_sampling_capabilities(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ProcessorTopologyInfo> { Some(c.get_processor_topology_info()?) })() {
        let _ = write!(f, "processor_topology_info:");
        processor_topology_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::MemoryEncryptionInfo> { Some(c.get_memory_encryption_info()?) })() {
        let _ = write!(f, "memory_encryption_info:");
        memory_encryption_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::PqosExtendedFeatureInfo<R>> { Some(c.get_pqos_extended_feature_info()?) })() {
        let _ = write!(f, "pqos_extended_feature_info:");
        pqos_extended_feature_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::L3MemoryBandwidthEnforcementInformation> { Some(c.get_pqos_extended_feature_info()?.get_l3_memory_bandwidth_enforcement_info()?) })() {
        let _ = write!(f, "l3_memory_bandwidth_enforcement_information:");
        l3_memory_bandwidth_enforcement_information(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::L3MemoryBandwidthEnforcementInformation> { Some(c.get_pqos_extended_feature_info()?.get_l3_slow_memory_bandwidth_enforcement_info()?) })() {
        let _ = write!(f, "l3_memory_bandwidth_enforcement_information:");
        l3_memory_bandwidth_enforcement_information(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::BandwidthMonitoringEventCounters> { Some(c.get_pqos_extended_feature_info()?.get_bandwidth_monitoring_event_counters_info()?) })() {
        let _ = write!(f, "bandwidth_monitoring_event_counters:");
        bandwidth_monitoring_event_counters(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::AssignableBandwidthMonitoringCounterInfo> { Some(c.get_pqos_extended_feature_info()?.get_assignable_bandwidth_monitoring_counters_info()?) })() {
        let _ = write!(f, "assignable_bandwidth_monitoring_counter_info:");
        assignable_bandwidth_monitoring_counter_info(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ExtendedFeatureIdentification2> { Some(c.get_extended_feature_identification_2()?) })() {
        let _ = write!(f, "extended_feature_identification2:");
        extended_feature_identification2(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ExtendedPerformanceMonitoringDebug> { Some(c.get_extended_performance_monitoring_and_debug()?) })() {
        let _ = write!(f, "extended_performance_monitoring_debug:");
        extended_performance_monitoring_debug(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::MultiKeyEncryptedMemoryCapabilities> { Some(c.get_multi_key_encrypted_memory_capabilities()?) })() {
        let _ = write!(f, "multi_key_encrypted_memory_capabilities:");
        multi_key_encrypted_memory_capabilities(&o, f);
    }
    if let Some(o) = (|| -> Option<rc::ExtendedCpuTopologyLevel> { Some(c.get_extended_cpu_topology()?.next()?) })() {
        let _ = write!(f, "extended_cpu_topology_level:");
        extended_cpu_topology_level(&o, f);
    }
    for o in c.get_cache_parameters().into_iter().flatten().take(600) {
        cache_parameter(&o, f);
    }
    for o in c.get_extended_topology_info().into_iter().flatten().take(600) {
        extended_topology_level(&o, f);
    }
    for o in c.get_extended_topology_info_v2().into_iter().flatten().take(600) {
        extended_topology_level(&o, f);
    }
    for o in c.get_extended_state_info().map(|x| x.iter()).into_iter().flatten().take(600) {
        extended_state(&o, f);
    }
    for o in c.get_deterministic_address_translation_info().into_iter().flatten().take(600) {
        dat_info(&o, f);
    }
    for o in c.get_extended_cpu_topology().into_iter().flatten().take(600) {
        extended_cpu_topology_level(&o, f);
    }
    for rc::SgxSectionInfo::Epc(o) in c.get_sgx_info().map(|x| x.iter()).into_iter().flatten().take(600) {
        epc_section(&o, f);
    }
    for o in c.get_cache_info().into_iter().flatten() {
        let _ = write!(f, "{:02x}{}", o.num, o.desc());
    }
    for o in c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()).into_iter().flatten().take(600) {
        let _ = write!(f, "{:x}.{:x}.{:x}.{:x},", o.eax, o.ebx, o.ecx, o.edx);
    }
}
