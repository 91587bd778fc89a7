//! Checks of the modules of the runtime that need nothing but V8.
use vcommon::Ctx;

mod apis;
mod exec;
mod gc;
mod iso;
mod rpc;
mod security;
mod sizes;
mod stream_manager;
mod waiter;

#[unsafe(no_mangle)]
pub extern "C" fn verif_main() -> i32 {
    let ctx = Ctx::from_env();
    match ctx.prop.as_str() {
        "C01" => stream_manager::fifo(&ctx),
        "C02" => stream_manager::pump(&ctx),
        "C03" => waiter::check_waiter(&ctx),
        "C04" => gc::external_memory(&ctx),
        "C05" => gc::deferred(&ctx),
        "C06" => security::allocator(&ctx),
        "C07" => security::timeout_guard(&ctx),
        "C08" => security::cpu_enforcer(&ctx),
        "C09" => security::heap_limit(&ctx),
        "C19" => sizes::check_sizes(&ctx),
        p => {
            eprintln!("HARNESS: no such property: {p}");
            return 71;
        }
    }
    ctx.finish();
    0
}

#[global_allocator]
static ALLOCATOR: sizes::Counting = sizes::Counting;
