//! The APIs that the JS checks find in their contexts.
use crate::iso::run;
use openworkers_runtime_v8::runtime::{crypto, streams, text_encoding};

/// What these modules expect around them and the rest of the runtime provides.
const PRELUDE: &str = r#"
globalThis.global = globalThis.self = globalThis;
globalThis.AbortController = class AbortController {
  constructor() { this.signal = { aborted: false, reason: undefined }; }
  abort(r) { if (!this.signal.aborted) { this.signal.aborted = true; this.signal.reason = r; } }
};
"#;

pub fn setup(scope: &mut v8::PinScope<'_, '_>) {
    run(scope, PRELUDE).unwrap();
    crypto::setup_crypto(scope);
    text_encoding::setup_text_encoding_natives(scope);
    text_encoding::setup_text_encoding_classes(scope);
    streams::setup_readable_stream(scope);
}
