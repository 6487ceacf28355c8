//! Bounded search for a concrete input on which the real rusty_genes code breaks a property.
//! Every case goes through the crate's public API and is judged by an oracle written from the property text.
mod ctx;
mod perm;
mod ops;
mod popn;
mod stat;
mod sel;
mod algo;
mod misc;
mod exec;

use ctx::Ctx;

#[global_allocator]
static ALLOC: ctx::Limit = ctx::Limit;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "exec" {
        std::panic::set_hook(Box::new(|_| {}));
        std::process::exit(if exec::run(args.get(2).map_or("", |s| s)) { 0 } else { 4 });
    }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let mut ctx = Ctx::new(&id, num("--seed", 1), num("--secs", 8), get("--only").and_then(|v| v.parse().ok()), get("--repo").unwrap_or("/repo".into()), get("--out"));
    let f: fn(&mut Ctx) = match id.as_str() {
        "C01" => perm::c01, "C02" => perm::c02, "C03" => perm::c03, "C04" => perm::c04, "C05" => perm::c05, "C06" => perm::c06,
        "C07" => perm::c07, "C08" => perm::c08, "C09" => ops::c09, "C10" => ops::c10, "C11" => ops::c11, "C12" => perm::c12, "C13" => perm::c13,
        "C14" => popn::c14, "C15" => popn::c15, "C16" => stat::c16, "C17" => stat::c17, "C18" => sel::c18, "C19" => sel::c19, "C20" => sel::c20,
        "C21" => algo::c21, "C22" => algo::c22, "C23" => algo::c23, "C24" => algo::c24, "C25" => algo::c25, "C26" => algo::c26,
        "C27" => misc::c27, "C28" => algo::c28, "C29" => misc::c29, "C30" => misc::c30, "C32" => algo::c32,
        _ => { eprintln!("unknown property {id}"); std::process::exit(4); }
    };
    f(&mut ctx);
    ctx.finish();
}
