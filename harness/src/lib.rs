pub mod clock;
pub mod dict;
pub mod engine;
pub mod gen;
pub mod lits;
pub mod net;
pub mod p_apart;
pub mod p_client;
pub mod p_dict;
pub mod p_gen;
pub mod p_leak;
pub mod p_packet;
pub mod p_values;
pub mod p_refuse;
pub mod p_rest;
pub mod p_server;
pub mod p_sweep;
pub mod p_twin;
pub mod refimpl;
pub mod table;

pub use {chrono, proptest, radius, serde_json};

use engine::Cx;

#[global_allocator]
static ALLOCATOR: p_rest::Counter = p_rest::Counter;

/// The directory of the framework.
pub fn verif_dir() -> String {
    std::env::var("VH_DIR").unwrap_or_else(|_| "/verif".to_owned())
}

pub fn run(cx: &Cx) -> bool {
    match cx.prop.as_str() {
        "C01" => {
            p_packet::c01(cx);
            p_sweep::c01(cx)
        }
        "C02" => {
            p_packet::c02(cx);
            p_sweep::c02(cx)
        }
        "C03" => {
            p_packet::c03(cx);
            p_sweep::c03(cx)
        }
        "C04" => {
            p_packet::c04(cx);
            p_sweep::c04(cx)
        }
        "C05" => {
            p_packet::c05(cx);
            p_sweep::c05(cx)
        }
        "C12" => {
            p_packet::c12(cx);
            p_sweep::c12(cx)
        }
        "C06" => {
            p_values::c06(cx);
            p_sweep::c06(cx)
        }
        "C07" => {
            p_values::c07(cx);
            p_sweep::c07(cx)
        }
        "C08" => {
            p_values::c08(cx);
            p_sweep::c08(cx)
        }
        "C09" => {
            p_values::c09(cx);
            p_sweep::c09(cx)
        }
        "C10" => {
            p_values::c10(cx);
            p_sweep::c10(cx)
        }
        "C11" => {
            p_values::c11(cx);
            p_sweep::c11(cx)
        }
        "C13" => p_dict::c13(cx),
        "C14" => p_dict::c14(cx),
        "C15" => p_dict::c15(cx),
        "C16" => p_dict::c16(cx),
        "C17" => p_gen::c17(cx),
        "C18" => p_gen::c18(cx),
        "C19" => p_twin::c19(cx),
        "C20" => p_twin::c20(cx),
        "C21" => p_leak::c21(cx),
        "C22" => p_server::c22(cx),
        "C23" => p_server::c23(cx),
        "C24" => p_server::c24(cx),
        "C25" => p_server::c25(cx),
        "C26" => p_client::c26(cx),
        "C27" => p_client::c27(cx),
        "C28" => p_client::c28(cx),
        "C29" => p_packet::c29(cx),
        "C30" => p_gen::c30(cx),
        "C31" => p_rest::c31(cx),
        "C32" => p_apart::c32(cx),
        "C33" => p_refuse::c33(cx),
        _ => return false,
    }
    true
}
