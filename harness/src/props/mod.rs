pub mod decode;
#[cfg(target_pointer_width = "64")]
pub mod giant;
#[cfg(not(target_pointer_width = "64"))]
mod giant {
    pub fn tables(_: &mut crate::ctx::Ctx) {}
    pub fn searches(_: &mut crate::ctx::Ctx) {}
}
pub mod guided;
pub mod hosts;
pub mod script;
pub mod steps;
pub mod tables;
pub mod values;
pub mod whole;

use crate::ctx::Ctx;

pub fn run(c: &mut Ctx) {
    match c.prop.as_str() {
        "C01" => {
            c.quiet_panics = true;
            whole::hostile(c)
        }
        "C02" => {
            whole::hostile(c);
            giant::tables(c);
            giant::searches(c)
        }
        "C03" => steps::bounded(c),
        "C04" => {
            tables::framing(c);
            giant::tables(c)
        }
        "C05" => {
            tables::entry(c);
            giant::searches(c)
        }
        "C06" => tables::strings(c),
        "C07" => tables::locality(c),
        "C08" => decode::fields(c, &[0, 1, 2, 3]),
        "C09" => decode::fields(c, &[4, 7]),
        "C10" => decode::fields(c, &[8, 9]),
        "C11" => decode::fields(c, &[11, 12, 13, 14, 15]),
        "C12" => decode::fields(c, &[16, 17, 18, 19, 20, 21, 22]),
        "C13" => decode::gating(c),
        "C14" => values::enums(c),
        "C15" => values::bits(c),
        "C16" => values::units(c),
        "C17" => tables::groups(c),
        "C18" => whole::determinism(c),
        "C19" => whole::configurations(c),
        "C20" => {
            tables::errors(c);
            giant::tables(c)
        }
        "C21" => tables::raw(c),
        "C22" => values::equality(c),
        "hosts" => hosts::hosts(c),
        p => {
            eprintln!("no property {p}");
            std::process::exit(3);
        }
    }
}
