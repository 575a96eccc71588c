// Hex dumps.
use super::{num, Args};
use crate::util;
pub fn pb(a: Args) {
	util::print_bytes(&a[2], num(&a[0]) as usize, num(&a[1]) as u8);
}
pub fn pbp(a: Args) {
	util::print_bytes_pretty(&a[2], num(&a[0]) as usize, num(&a[1]) as u8);
}
pub fn pbs(a: Args) {
	util::print_bytes_small(&a[0]);
}
pub fn ind(a: Args) {
	util::print_indentation(num(&a[0]) as u8);
}
