//! V8 isolates with what the runtime sets up in them.
use std::pin::pin;
use std::sync::Once;

pub fn init() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        v8::V8::set_flags_from_string("--expose-gc");
        let p = v8::new_default_platform(0, false).make_shared();
        v8::V8::initialize_platform(p);
        v8::V8::initialize();
    });
}

pub fn isolate() -> v8::OwnedIsolate {
    init();
    v8::Isolate::new(v8::CreateParams::default())
}

/// Runs a script; Ok(its value as a string) or Err(the exception).
pub fn run(scope: &mut v8::PinScope<'_, '_>, src: &str) -> Result<String, String> {
    let tc = pin!(v8::TryCatch::new(scope));
    let mut tc = tc.init();
    let code = v8::String::new(&tc, src).ok_or("source too long")?;
    let r = v8::Script::compile(&tc, code, None).and_then(|s| s.run(&tc));
    match r {
        Some(v) => Ok(v.to_string(&tc).map(|s| s.to_rust_string_lossy(&tc)).unwrap_or_default()),
        None => {
            let terminated = tc.has_terminated();
            let e = tc.exception().and_then(|e| e.to_string(&tc)).map(|s| s.to_rust_string_lossy(&tc));
            tc.reset();
            Err(if terminated { "TERMINATED".into() } else { e.unwrap_or("unknown".into()) })
        }
    }
}

pub fn global_context(isolate: &mut v8::Isolate, apis: bool) -> v8::Global<v8::Context> {
    let scope = pin!(v8::HandleScope::new(isolate));
    let mut scope = scope.init();
    let context = v8::Context::new(&scope, Default::default());
    let g = v8::Global::new(scope.as_ref(), context);
    let scope = &mut v8::ContextScope::new(&mut scope, context);
    if apis {
        crate::apis::setup(scope);
    }
    g
}

/// Runs a script in a context.
pub fn eval(isolate: &mut v8::Isolate, ctx: &v8::Global<v8::Context>, src: &str) -> Result<String, String> {
    let scope = pin!(v8::HandleScope::new(isolate));
    let mut scope = scope.init();
    let context = v8::Local::new(&scope, ctx);
    let scope = &mut v8::ContextScope::new(&mut scope, context);
    run(scope, src)
}
