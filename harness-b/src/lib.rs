//! Whole workers, from a script and an event to a response, for the checks in js/work*.js.
mod mock;
mod scenario;

use vcommon::serde_json::{self, Value, json};

#[unsafe(no_mangle)]
pub extern "C" fn verif_main() -> i32 {
    eprintln!("HARNESS: these checks are driven from JS");
    71
}

/// A log at the most verbose level: what it is told must not do any harm.
struct Log;
impl tracing::Subscriber for Log {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, event: &tracing::Event<'_>) {
        struct Text(usize);
        impl tracing::field::Visit for Text {
            fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                self.0 += format!("{v:?}").len();
            }
        }
        event.record(&mut Text(0));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

fn handle(req: Value) -> Value {
    match req["op"].as_str().unwrap_or("") {
        // Each on a thread of its own: isolate pools are per thread.
        "scenario" => std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || scenario::run(&req))
            .unwrap()
            .join()
            .unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                json!({"panic": m.unwrap_or_default()})
            }),
        "cache" => scenario::code_cache(&req),
        "made" => json!({"len": openworkers_runtime_v8::create_code_cache(req["source"].as_str().unwrap()).map(|v| v.len())}),
        "snapshot" => match openworkers_runtime_v8::create_runtime_snapshot() {
            Ok(s) => {
                std::fs::write(req["path"].as_str().unwrap(), &s.output).unwrap();
                json!({"len": s.output.len()})
            }
            Err(e) => json!({"error": e}),
        },
        op => json!({"error": format!("HARNESS: no such operation: {op}")}),
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn verif_call(p: *const u8, n: usize, out: *mut usize) -> *mut u8 {
    static LOG: std::sync::Once = std::sync::Once::new();
    LOG.call_once(|| tracing::subscriber::set_global_default(Log).unwrap());
    let req: Value = serde_json::from_slice(unsafe { std::slice::from_raw_parts(p, n) }).unwrap();
    let mut b = serde_json::to_vec(&handle(req)).unwrap().into_boxed_slice();
    unsafe { *out = b.len() };
    let p = b.as_mut_ptr();
    std::mem::forget(b);
    p
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn verif_free(p: *mut u8, n: usize) {
    drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n)) });
}
