use crate::explore::Space;
#[cfg(feature = "decomp")]
use crate::{checks, chk};
use crate::spaces::*;
#[cfg(feature = "iter")]
mod iter;
#[cfg(feature = "linear")]
mod linear;
#[cfg(feature = "robust")]
mod robust;
#[cfg(feature = "small")]
mod small;

#[allow(unused_variables)]
pub fn spaces(prop: &str, t: Tier) -> Vec<Space> {
    match prop {
        #[cfg(feature = "decomp")]
        "C01" => { let mut v = matrices(t, |r, c| r >= c, true, chk!(checks::qr)); v.push(qr_units(chk!(checks::qr))); v }
        #[cfg(feature = "decomp")]
        "C10" => symmetrics(t, false, chk!(checks::tridiag)),
        #[cfg(feature = "decomp")]
        "C11" => matrices(t, |_, _| true, false, chk!(checks::bidiag)),
        #[cfg(feature = "decomp")]
        "C12" => symmetrics(t, true, chk!(checks::eigh)),
        #[cfg(feature = "decomp")]
        "C13" => symmetrics(t, true, chk!(checks::eigvals)),
        #[cfg(feature = "decomp")]
        "C14" => matrices(t, |_, _| true, false, chk!(checks::svd)),
        #[cfg(feature = "decomp")]
        "C15" => matrices(t, |_, _| true, false, chk!(checks::svals)),
        #[cfg(feature = "linear")]
        "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" => linear::spaces(prop, t),
        #[cfg(feature = "robust")]
        "C16" | "C17" | "C18" | "C19" | "C20" | "C29" | "C30" => robust::spaces(prop, t),
        #[cfg(feature = "small")]
        "C21" | "C22" => small::spaces(prop, t),
        #[cfg(feature = "iter")]
        "C23" | "C24" | "C25" | "C26" | "C27" | "C31" | "C32" => iter::spaces(prop, t),
        #[cfg(feature = "history")]
        "C33" => crate::history::spaces(t),
        _ => vec![],
    }
}
pub fn selftest() {}
