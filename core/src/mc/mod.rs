mod c01_format;
mod c05_machine;
mod c09_streams;
mod c11_recurse;
pub mod c12_hostile;
mod c15_schemas;
mod c16_reuse;
mod c17_log;
mod c18_serde;
mod c18_std;
mod c23_mix;
mod c24_containers;
mod c24_layers;
mod c25_faults;
mod c26_into;
mod space;
mod util;

use mcore::report::{self, Tier};

pub fn run(prop: &str, tier: Tier) {
    macro_rules! go {
        ($level:expr, $f:path) => {{
            let r = report::init(prop, tier, $level);
            $f(r);
            r.finish()
        }};
    }
    match prop {
        "C01" => go!("model_checking", c01_format::c01),
        "C02" => go!("model_checking", c01_format::c02),
        "C03" => go!("model_checking", c01_format::c03),
        "C04" => go!("model_checking", c01_format::c04),
        "C05" => go!("model_checking", c05_machine::c05),
        "C06" => go!("model_checking", c05_machine::c06),
        "C07" => go!("model_checking", c05_machine::c07),
        "C08" => go!("model_checking", c05_machine::c08),
        "C09" => go!("fault_enumeration", c09_streams::c09),
        "C10" => go!("fault_enumeration", c09_streams::c10),
        "C11" => go!("model_checking", c11_recurse::c11),
        "C12" => go!("exploration", c12_hostile::c12),
        "C15" => go!("model_checking", c15_schemas::c15),
        "C16" => go!("model_checking", c16_reuse::c16),
        "C17" => go!("model_checking", c17_log::c17),
        "C18" => go!("model_checking", c18_serde::c18),
        "C19" => go!("model_checking", c18_serde::c19),
        "C20" => go!("model_checking", c15_schemas::c20),
        "C22" => go!("model_checking", c11_recurse::c22),
        "C23" => go!("model_checking", c23_mix::c23),
        "C24" => go!("model_checking", c24_layers::c24),
        "C25" => go!("model_checking", c25_faults::c25),
        "C26" => go!("model_checking", c26_into::c26),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
}

pub fn replay(prop: &str, kvs: &[(String, String)]) {
    match prop {
        "C01" | "C02" | "C03" | "C04" => c01_format::replay(report::run(), kvs),
        "C05" | "C06" | "C07" | "C08" => c05_machine::replay(report::run(), kvs),
        "C09" | "C10" => c09_streams::replay(report::run(), kvs),
        "C12" => c12_hostile::replay(report::run(), kvs),
        "C15" | "C20" => c15_schemas::replay(report::run(), kvs),
        "C16" => c16_reuse::replay(report::run(), kvs),
        "C17" => c17_log::replay(report::run(), kvs),
        "C18" | "C19" => c18_serde::replay(report::run(), kvs),
        "C23" => c23_mix::replay(report::run(), kvs),
        "C24" => c24_layers::replay(report::run(), kvs),
        "C25" => c25_faults::replay(report::run(), kvs),
        "C26" => c26_into::replay(report::run(), kvs),
        "C11" | "C22" => c11_recurse::replay(report::run(), kvs),
        p => {
            eprintln!("no replay for {}", p);
            std::process::exit(2);
        }
    }
}
