use crate::runner::Runner;

#[cfg(feature = "main")]
mod builders;
#[cfg(feature = "main")]
mod codec;
#[cfg(feature = "main")]
mod contexts;
#[cfg(feature = "main")]
mod dispatch;
#[cfg(feature = "main")]
mod duplex;
#[cfg(feature = "main")]
mod emits;
#[cfg(feature = "encryption")]
mod encrypted;
#[cfg(feature = "main")]
pub mod ids;
mod payload;
#[cfg(feature = "main")]
mod lifetime;
#[cfg(feature = "encryption")]
pub mod keys;
#[cfg(feature = "encryption")]
mod logs;
#[cfg(feature = "main")]
mod requests;
#[cfg(feature = "main")]
mod server;
#[cfg(feature = "main")]
pub mod transports;

pub fn run(property: &str, r: &mut Runner) -> bool {
    match property {
        #[cfg(feature = "main")]
        "C01" => codec::c01(r),
        #[cfg(feature = "main")]
        "C02" => codec::c02(r),
        #[cfg(feature = "main")]
        "C03" => codec::c03(r),
        "C04" => payload::c04(r),
        "C05" => payload::c05(r),
        #[cfg(feature = "main")]
        "C06" => dispatch::c06(r),
        #[cfg(feature = "main")]
        "C07" => dispatch::c07(r),
        #[cfg(feature = "main")]
        "C08" => requests::c08(r),
        #[cfg(feature = "main")]
        "C09" => requests::c09(r),
        #[cfg(feature = "main")]
        "C10" => requests::c10(r),
        #[cfg(feature = "main")]
        "C11" => requests::c11(r),
        #[cfg(feature = "main")]
        "C12" => emits::c12(r),
        #[cfg(feature = "main")]
        "C13" => emits::c13(r),
        #[cfg(feature = "main")]
        "C14" => server::c14(r),
        #[cfg(feature = "main")]
        "C15" => server::c15(r),
        #[cfg(feature = "main")]
        "C16" => server::c16(r),
        #[cfg(feature = "main")]
        "C17" => server::c17(r),
        #[cfg(feature = "main")]
        "C18" => ids::c18(r),
        #[cfg(feature = "encryption")]
        "C19" => encrypted::c19(r),
        #[cfg(feature = "encryption")]
        "C20" => encrypted::c20(r),
        #[cfg(feature = "encryption")]
        "C21" => encrypted::c21(r),
        #[cfg(feature = "encryption")]
        "C22" => encrypted::c22(r),
        #[cfg(feature = "main")]
        "C23" => transports::c23(r),
        #[cfg(feature = "main")]
        "C26" => duplex::c26(r),
        #[cfg(feature = "encryption")]
        "C29" => keys::c29(r),
        #[cfg(feature = "main")]
        "C28" => duplex::c28(r),
        #[cfg(feature = "main")]
        "C30" => contexts::c30(r),
        #[cfg(feature = "main")]
        "C31" => duplex::c31(r),
        #[cfg(feature = "encryption")]
        "C27" => logs::c27(r),
        #[cfg(feature = "main")]
        "C25" => lifetime::c25(r),
        #[cfg(feature = "main")]
        "C24" => builders::c24(r),
        _ => return false,
    }
    true
}
