mod engine;
mod c_string;
mod c_tree;
mod c_xml;
mod c_rows;
mod c_alloc;
mod c_anlz;
mod c_chain;
mod c_cli;
mod c_edit;
mod c_mal;
#[cfg(feature = "hooks")]
mod c_heap;
mod c_fault;
mod c_fields;
mod c_large;
mod c_page;
mod c_settings;
mod refpdb;

use engine::*;

#[global_allocator]
static ALLOC: Accounting = Accounting;

type CheckFn = fn(&mut Ctx);

fn checks() -> Vec<(&'static str, CheckFn)> {
    vec![
        ("C01", c_string::c01 as CheckFn),
        ("C02", c_string::c02),
        ("C03", c_alloc::c03),
        #[cfg(feature = "hooks")]
        ("C04", c_heap::c04),
        ("C05", c_rows::c05),
        ("C06", c_chain::c06),
        ("C07", c_edit::c07),
        ("C08", c_fault::c08),
        ("C09", c_page::c09),
        ("C10", c_anlz::c10),
        ("C11", c_anlz::c11),
        ("C12", c_settings::c12),
        ("C13", c_settings::c13),
        ("C14", c_settings::c14),
        ("C15", c_settings::c15),
        ("C16", c_tree::c16),
        ("C17", c_xml::c17),
        ("C18", c_xml::c18),
        ("C19", c_mal::c19),
        ("C20", c_cli::c20),
        ("C21", c_fields::c21),
        ("C22", c_cli::c22),
        ("C23", c_fields::c23),
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).expect("usage: rcv ID [quick|thorough]");
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        Some("quick") | None => Tier::Quick,
        Some(x) => panic!("unknown tier {x}"),
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = std::path::PathBuf::from(std::env::var("RCV_VERIF").unwrap_or_else(|_| "/verif".into()));
    install_panic_hook();
    let list = checks();
    let Some((id, f)) = list.into_iter().find(|(n, _)| n == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    let mut ctx = Ctx::new(id, tier, seed, verif);
    if let Err(e) = guard(|| f(&mut ctx)) {
        // workloads are prepared with the library itself, on well-formed input
        ctx.aborted(&e);
    }
    std::process::exit(ctx.finish());
}
