//! Isolates with the runtime's web APIs, driven by the checks that are written in JS (js/*.js).
use crate::iso;
use std::cell::RefCell;
use std::sync::{Mutex, Once};
use std::time::{Duration, Instant};
use vcommon::serde_json::{self, Value, json};

struct State {
    ctx: Option<v8::Global<v8::Context>>,
    iso: v8::OwnedIsolate,
}

thread_local! {
    static STATE: RefCell<Option<State>> = const { RefCell::new(None) };
}

/// Ends scripts that do not end by themselves.
static WATCH: Mutex<Option<(Instant, v8::IsolateHandle)>> = Mutex::new(None);
const TOO_LONG: Duration = Duration::from_secs(20);

fn watchdog() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        std::thread::spawn(|| {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                if let Some((since, h)) = WATCH.lock().unwrap().as_ref() {
                    if since.elapsed() > TOO_LONG {
                        h.terminate_execution();
                    }
                }
            }
        });
    });
}

fn handle(req: &Value) -> Value {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(|| State { ctx: None, iso: iso::isolate() });
        match req["op"].as_str().unwrap_or("") {
            "context" => {
                s.ctx = None;
                s.ctx = Some(iso::global_context(&mut s.iso, true));
                json!({})
            }
            "isolate" => {
                s.ctx = None;
                // The old one has to be left before the new one is entered.
                let fresh = iso::isolate();
                let old = std::mem::replace(&mut s.iso, fresh);
                unsafe {
                    s.iso.exit();
                }
                drop(old);
                unsafe {
                    s.iso.enter();
                }
                json!({})
            }
            // The scripts run one after the other (microtasks run after each); the last one's value.
            "eval" => {
                let ctx = s.ctx.as_ref().expect("HARNESS: no context");
                let mut last = String::new();
                watchdog();
                *WATCH.lock().unwrap() = Some((Instant::now(), s.iso.thread_safe_handle()));
                let off = || *WATCH.lock().unwrap() = None;
                for src in req["src"].as_array().unwrap() {
                    match iso::eval(&mut s.iso, ctx, src.as_str().unwrap()) {
                        Ok(v) => last = v,
                        Err(e) => {
                            off();
                            s.iso.cancel_terminate_execution();
                            return json!({"error": e});
                        }
                    }
                }
                off();
                json!({"value": last})
            }
            op => json!({"error": format!("HARNESS: no such operation: {op}")}),
        }
    })
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn verif_call(p: *const u8, n: usize, out: *mut usize) -> *mut u8 {
    let req: Value = serde_json::from_slice(unsafe { std::slice::from_raw_parts(p, n) }).unwrap();
    let mut b = serde_json::to_vec(&handle(&req)).unwrap().into_boxed_slice();
    unsafe { *out = b.len() };
    let p = b.as_mut_ptr();
    std::mem::forget(b);
    p
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn verif_free(p: *mut u8, n: usize) {
    drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n)) });
}
