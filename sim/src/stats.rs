//! Reach counters: how often each operation, fault kind and rare condition actually happened.
use std::cell::Cell;

macro_rules! counters {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy)]
        pub enum K { $($name),*, LAST }
        pub const NAMES: &[&str] = &[$(stringify!($name)),*];
    }
}

counters! {
    steps, steps_skipped, checks_full, checks_skipped_write_guard,
    op_create, op_append, op_prepend, op_insert_before, op_insert_after, op_detach, op_remove, op_remove_again,
    op_drain, op_copy, op_copy_deep, copy_across_docs, op_set_attr, op_set_link, op_link_refused, op_if_none_kept, op_remove_attr,
    op_set_id, op_set_tag, op_refused, op_bulk, loose_edits, fault_close_with_rows, op_set_text, op_attr_mut, op_format, op_save, op_load_ok, op_load_err, op_open, op_close,
    op_drop_handle,
    move_within_parent, move_next_to_self_place, move_across_docsubtrees, insert_from_fragment,
    link_cycle3_closed, link_custom_name, link_retarget, removed_with_users, removed_with_links, rename_used_id,
    cursor_open, cursor_step_clean, cursor_step_dirty, cursor_back_step, cursor_finished, cursor_made_dirty,
    cursor_alive_at_close, cursor_both_ends_met,
    fault_client_crash, fault_guard_shared, fault_guard_write, guard_alive_over_edit, guard_blocked_edit,
    fault_predicate_panic, fault_sink_panic_load, fault_sink_panic_remove, fault_sink_panic_save, fault_print_error, fault_print_full, fault_print_short, fault_print_panic, fault_conversion_panic,
    fault_nested_edit_in_predicate, fault_close_with_handles, fault_layout_shift, fault_observers,
    drain_removed, drain_partial_after_panic, churn_rounds, failed_load_bytes_checked, closed_nodes_checked,
    disk_saves_atomic, disk_saves_inplace, disk_acked, disk_mirrored, restart_clean, restart_damaged, generations,
    fault_crash_after_ack, fault_crash_mid_write, fault_crash_before_sync, fault_torn_sector, fault_lost_sector,
    fault_reordered_sectors, fault_bit_flip, fault_byte_garble, fault_truncate, fault_zero_fill, fault_dup_range,
    fault_record_lost, fault_record_duplicated, fault_record_reordered, fault_record_stale, fault_record_back, fault_record_renamed, fault_record_misdirected, peer_loads, peer_unread, peer_dangling, peer_crossing,
    peer_style, peer_css, peer_overridden, peer_charref, peer_cdata, peer_white_space, peer_foreign, peer_foreign_attr, peer_marker, peer_selector, peer_padded, peer_notation, peer_surrounded, peer_style_element, peer_entity, peer_attr_prefix, peer_nested_sheet,
    fault_splice, fault_invalid_utf8, damaged_load_ok, damaged_load_err, damaged_identical, foreign_docs,
    roundtrip_nodes, roundtrip_attrs, roundtrip_links, roundtrip_texts,
    sched_switches, sched_nested_in_callout, sched_switch_in_callout, sched_threads, log_records, bystanders,

}

pub const N: usize = K::LAST as usize;

thread_local! {
    static C: Cell<[u64; N]> = const { Cell::new([0; N]) };
}

pub fn hit(k: K) { add(k, 1) }
pub fn add(k: K, n: u64) {
    C.with(|c| {
        // SAFETY: single-threaded access through the thread-local cell.
        unsafe { (*c.as_ptr())[k as usize] += n }
    })
}
pub fn take() -> [u64; N] { C.with(|c| c.replace([0; N])) }
pub fn restore(v: [u64; N]) { C.with(|c| c.set(v)) }
pub fn merge(v: &[u64; N]) { for (i, x) in v.iter().enumerate() { C.with(|c| unsafe { (*c.as_ptr())[i] += *x }) } }
