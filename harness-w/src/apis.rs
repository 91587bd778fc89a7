//! The APIs that the JS checks find in their contexts, set up as Runtime::new does.
use crate::iso::run;
use openworkers_runtime_v8::runtime::{bindings, crypto, streams, text_encoding};

/// What the native part of the runtime provides otherwise: timers that run when the check says so,
/// and a console that remembers.
const PRELUDE: &str = r#"
globalThis.__timers = [];
globalThis.setTimeout = (f, ms) => __timers.push([f, ms]);
globalThis.__logged = [];
globalThis.console = { error: e => { __logged.push(String(e)); }, log() {}, warn() {} };
"#;

pub fn setup(scope: &mut v8::PinScope<'_, '_>) {
    run(scope, PRELUDE).unwrap();
    bindings::setup_global_aliases(scope);
    bindings::setup_performance(scope);
    bindings::setup_fetch_helpers(scope);
    crypto::setup_crypto(scope);
    text_encoding::setup_text_encoding_natives(scope);
    text_encoding::setup_text_encoding_classes(scope);
    streams::setup_readable_stream(scope);
    bindings::setup_blob(scope);
    bindings::setup_form_data(scope);
    bindings::setup_abort_controller(scope);
    bindings::setup_structured_clone(scope);
    bindings::setup_base64(scope);
    bindings::setup_url_search_params(scope);
    bindings::setup_url(scope);
    bindings::setup_headers(scope);
    bindings::setup_request(scope);
    bindings::setup_response(scope);
}
