#![allow(static_mut_refs, unused)]
pub mod rt;
pub mod data;
pub mod sorts;
pub mod select;
#[cfg(feature = "m_search")]
pub mod search;
#[cfg(feature = "m_dedup")]
pub mod dedup;
#[cfg(feature = "m_panics")]
pub mod panics;
#[cfg(feature = "m_zst")]
pub mod zst;
#[cfg(feature = "m_par")]
pub mod par;
#[cfg(any(feature = "m_cost", feature = "m_space", feature = "m_depth", feature = "m_work"))]
pub mod cost;
#[cfg(feature = "m_shared")]
pub mod shared;
#[cfg(feature = "m_cells")]
pub mod cells;
#[cfg(feature = "m_repeat")]
pub mod repeat;

pub fn entry(name: &str) -> Option<fn()> {
	#[cfg(feature = "m_sorts")]
	match name {
		"h_sort" => return Some(sorts::h_sort),
		"h_sort_wide" => return Some(sorts::h_sort_wide),
		"h_sort_desc" => return Some(sorts::h_sort_desc),
		_ => (),
	}
	#[cfg(all(feature = "m_sorts", feature = "sizes"))]
	match name {
		"h_sort_12" => return Some(sorts::h_sort_12),
		"h_sort_40" => return Some(sorts::h_sort_40),
		"h_sort_1" => return Some(sorts::h_sort_1),
		_ => (),
	}
	#[cfg(feature = "m_cached")]
	match name {
		"h_cached" => return Some(sorts::h_cached),
		"h_cached_wide" => return Some(sorts::h_cached_wide),
		_ => (),
	}
	#[cfg(feature = "m_select")]
	match name {
		"h_nth" => return Some(select::h_nth),
		"h_nth_bounds" => return Some(select::h_nth_bounds),
		"h_many" => return Some(select::h_many),
		"h_many_bounds" => return Some(select::h_many_bounds),
		"h_many_agree" => return Some(select::h_many_agree),
		_ => (),
	}
	#[cfg(all(feature = "m_select", feature = "sizes"))]
	match name {
		"h_nth_40" => return Some(select::h_nth_40),
		_ => (),
	}
	#[cfg(feature = "m_search")]
	match name {
		"h_is_sorted" => return Some(search::h_is_sorted),
		"h_contains" => return Some(search::h_contains),
		"h_binary_search" => return Some(search::h_binary_search),
		"h_binary_split" => return Some(search::h_binary_split),
		"h_binary_any" => return Some(search::h_binary_any),
		"h_broadcast" => return Some(search::h_broadcast),
		"h_search_far" => return Some(search::h_search_far),
		"h_search_huge" => return Some(search::h_search_huge),
		_ => (),
	}
	#[cfg(feature = "m_dedup")]
	match name {
		"h_dedup" => return Some(dedup::h_dedup),
		"h_reverse" => return Some(dedup::h_reverse),
		"h_scan" => return Some(dedup::h_scan),
		_ => (),
	}
	#[cfg(feature = "m_panics")]
	match name {
		"h_panic" => return Some(panics::h_panic),
		"h_inconsistent" => return Some(panics::h_inconsistent),
		"h_owned" => return Some(panics::h_owned),
		_ => (),
	}
	#[cfg(feature = "m_zst")]
	match name {
		"h_zst" => return Some(zst::h_zst),
		"h_zst_far" => return Some(zst::h_zst_far),
		_ => (),
	}
	#[cfg(feature = "m_par")]
	match name {
		"h_schedules" => return Some(par::h_schedules),
		_ => (),
	}
	#[cfg(feature = "m_cost")]
	match name {
		"h_cost" => return Some(cost::h_cost),
		"h_adversary" => return Some(cost::h_adversary),
		_ => (),
	}
	#[cfg(feature = "m_depth")]
	match name {
		"h_depth" => return Some(cost::h_depth),
		_ => (),
	}
	#[cfg(feature = "m_work")]
	match name {
		"h_work" => return Some(cost::h_work),
		_ => (),
	}
	#[cfg(feature = "m_space")]
	match name {
		"h_space" => return Some(cost::h_space),
		_ => (),
	}
	#[cfg(feature = "m_cells")]
	match name {
		"h_cells" => return Some(cells::h_cells),
		_ => (),
	}
	#[cfg(feature = "m_repeat")]
	match name {
		"h_repeat" => return Some(repeat::h_repeat),
		_ => (),
	}
	#[cfg(feature = "m_shared")]
	match name {
		"h_shared" => return Some(shared::h_shared),
		_ => (),
	}
	None
}
