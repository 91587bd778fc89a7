//! The outside world of a worker: answers operations by the rules of the scenario, and records.
use bytes::Bytes;
use openworkers_core::*;
use std::collections::{HashMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::time::{Instant, sleep};
use vcommon::serde_json::{Value, json};

#[derive(Clone)]
pub struct Trace {
    start: Instant,
    list: Arc<Mutex<Vec<Value>>>,
}

impl Trace {
    pub fn new() -> Self {
        Trace { start: Instant::now(), list: Default::default() }
    }
    pub fn put(&self, mut v: Value) {
        v["t"] = json!(self.start.elapsed().as_micros() as u64 as f64 / 1000.0);
        self.list.lock().unwrap().push(v);
    }
    pub fn take(&self) -> Vec<Value> {
        std::mem::take(&mut self.list.lock().unwrap())
    }
}

/// Bytes in JSON: a string of code points up to U+00FF.
pub fn show(b: &[u8]) -> String {
    b.iter().map(|&c| c as char).collect()
}
pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_str().unwrap_or("").chars().map(|c| c as u32 as u8).collect()
}
fn ms(v: &Value) -> Duration {
    Duration::from_millis(v.as_u64().unwrap_or(0))
}

/// null, a string, or {chunks: [[delay, string or {err}]...], cap, tail: delay before the end}
pub fn source(v: &Value, trace: &Trace, what: Value) -> Option<Result<Bytes, mpsc::Receiver<Result<Bytes, String>>>> {
    if v.is_string() {
        return Some(Ok(bytes(v).into()));
    }
    let list = v["chunks"].as_array()?.clone();
    let tail = v["tail"].clone();
    let (tx, rx) = mpsc::channel(v["cap"].as_u64().unwrap_or(4) as usize);
    let trace = trace.clone();
    tokio::spawn(async move {
        for (i, c) in list.iter().enumerate() {
            sleep(ms(&c[0])).await;
            let item = match c[1].as_str() {
                Some(_) => Ok(Bytes::from(bytes(&c[1]))),
                None => Err(c[1]["err"].as_str().unwrap_or("").to_string()),
            };
            if tx.send(item).await.is_err() {
                trace.put(json!({"k": "refused", "what": what, "i": i}));
                return;
            }
        }
        if !tail.is_null() {
            tokio::select! {
                _ = sleep(ms(&tail)) => {}
                _ = tx.closed() => trace.put(json!({"k": "refused", "what": what, "i": list.len()})),
            }
        }
    });
    Some(Err(rx))
}

pub fn headers(v: &Value) -> Vec<(String, String)> {
    v.as_array()
        .map(|a| a.iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string())).collect())
        .unwrap_or_default()
}

pub struct Mock {
    pub trace: Trace,
    pub label: String,
    rules: Mutex<HashMap<String, VecDeque<Value>>>,
    next: Mutex<u64>,
}

/// Tells when an operation is given up before it has been answered.
struct Guard {
    n: u64,
    w: String,
    done: bool,
    trace: Trace,
}
impl Drop for Guard {
    fn drop(&mut self) {
        if !self.done {
            self.trace.put(json!({"k": "dropped", "n": self.n, "w": self.w}));
        }
    }
}

async fn read(body: RequestBody) -> Value {
    match body {
        RequestBody::None => Value::Null,
        RequestBody::Bytes(b) => json!(show(&b)),
        RequestBody::Stream(mut rx) => {
            let mut out = vec![];
            while let Some(Ok(b)) = rx.recv().await {
                out.extend_from_slice(&b);
            }
            json!({"stream": show(&out)})
        }
    }
}

impl Mock {
    pub fn new(rules: &Value, label: &str, trace: &Trace) -> Arc<Self> {
        let rules = rules
            .as_object()
            .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().iter().cloned().collect())).collect())
            .unwrap_or_default();
        Arc::new(Mock { trace: trace.clone(), label: label.to_string(), rules: Mutex::new(rules), next: Mutex::new(0) })
    }

    /// The rules of a tag are used in turn; the last one stays.
    fn rule(&self, tag: &str) -> Value {
        let mut rules = self.rules.lock().unwrap();
        for t in [tag, tag.split_once(' ').map_or("", |p| p.0), "*"] {
            if let Some(q) = rules.get_mut(t) {
                return if q.len() > 1 { q.pop_front().unwrap() } else { q.front().cloned().unwrap_or(Value::Null) };
            }
        }
        Value::Null
    }

    async fn op<T>(&self, tag: String, mut what: Value, f: impl FnOnce(&Value, u64) -> T) -> T {
        let n = {
            let mut n = self.next.lock().unwrap();
            *n += 1;
            *n
        };
        what["k"] = json!("op");
        what["n"] = json!(n);
        what["tag"] = json!(tag);
        what["w"] = json!(self.label);
        self.trace.put(what);
        let mut guard = Guard { n, w: self.label.clone(), done: false, trace: self.trace.clone() };
        let rule = self.rule(&tag);
        if rule["never"] == true {
            std::future::pending::<()>().await;
        }
        if let Some(d) = rule["delay"].as_u64() {
            sleep(Duration::from_millis(d)).await;
        }
        guard.done = true;
        self.trace.put(json!({"k": "answer", "n": n, "w": self.label}));
        f(&rule, n)
    }

    async fn http(&self, kind: &str, binding: &str, r: HttpRequest) -> Result<HttpResponse, String> {
        let mut h: Vec<_> = r.headers.into_iter().collect();
        h.sort();
        let body = read(r.body).await;
        let what = json!({"op": kind, "binding": binding, "url": r.url, "method": r.method.as_str(), "headers": h, "body": body});
        let tag = format!("{kind} {binding}{}{}", if binding.is_empty() { "" } else { " " }, r.url);
        self.op(tag, what, |rule, n| self.response(rule, n)).await
    }

    fn response(&self, rule: &Value, n: u64) -> Result<HttpResponse, String> {
        if let Some(e) = rule["error"].as_str() {
            return Err(e.to_string());
        }
        Ok(HttpResponse {
            status: rule["status"].as_u64().unwrap_or(200) as u16,
            headers: headers(&rule["headers"]),
            body: match source(&rule["body"], &self.trace, json!({"op": n, "w": self.label})) {
                None => ResponseBody::None,
                Some(Ok(b)) => ResponseBody::Bytes(b),
                Some(Err(rx)) => ResponseBody::Stream(rx),
            },
        })
    }
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

impl OperationsHandler for Mock {
    fn handle_log(&self, level: LogLevel, message: String) {
        self.trace.put(json!({"k": "log", "w": self.label, "level": format!("{level:?}"), "text": message}));
    }
    fn handle_fetch(&self, r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> {
        Box::pin(self.http("fetch", "", r))
    }
    fn handle_binding_fetch(&self, b: &str, r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> {
        let b = b.to_string();
        Box::pin(async move { self.http("assets", &b, r).await })
    }
    fn handle_binding_worker(&self, b: &str, r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> {
        let b = b.to_string();
        Box::pin(async move { self.http("worker", &b, r).await })
    }
    fn handle_binding_storage(&self, b: &str, op: StorageOp) -> OpFuture<'_, StorageResult> {
        let (name, args) = match &op {
            StorageOp::Get { key } => ("get", json!({"key": key})),
            StorageOp::Fetch { key } => ("fetch", json!({"key": key})),
            StorageOp::Put { key, body } => ("put", json!({"key": key, "body": show(body)})),
            StorageOp::Head { key } => ("head", json!({"key": key})),
            StorageOp::List { prefix, limit } => ("list", json!({"prefix": prefix, "limit": limit})),
            StorageOp::Delete { key } => ("delete", json!({"key": key})),
        };
        let key = args["key"].as_str().or(args["prefix"].as_str()).unwrap_or("").to_string();
        let tag = format!("storage {b} {name} {key}");
        let what = json!({"op": "storage", "binding": b, "name": name, "args": args});
        Box::pin(self.op(tag, what, move |r, n| {
            if let Some(e) = r["error"].as_str() {
                return StorageResult::Error(e.into());
            }
            match op {
                StorageOp::Head { .. } => StorageResult::Head {
                    size: r["size"].as_u64().unwrap_or(0),
                    etag: r["etag"].as_str().map(String::from),
                },
                StorageOp::List { .. } => {
                    StorageResult::List { keys: strings(&r["keys"]), truncated: r["truncated"] == true }
                }
                StorageOp::Fetch { .. } => match self.response(r, n) {
                    Ok(r) => StorageResult::Response(r),
                    Err(e) => StorageResult::Error(e),
                },
                _ => StorageResult::Body(r["body"].as_str().map(|_| bytes(&r["body"]))),
            }
        }))
    }
    fn handle_binding_kv(&self, b: &str, op: KvOp) -> OpFuture<'_, KvResult> {
        let (name, args) = match &op {
            KvOp::Get { key } => ("get", json!({"key": key})),
            KvOp::Put { key, value, expires_in } => ("put", json!({"key": key, "value": value, "expiresIn": expires_in})),
            KvOp::Delete { key } => ("delete", json!({"key": key})),
            KvOp::List { prefix, limit } => ("list", json!({"prefix": prefix, "limit": limit})),
        };
        let key = args["key"].as_str().or(args["prefix"].as_str()).unwrap_or("").to_string();
        let tag = format!("kv {b} {name} {key}");
        let what = json!({"op": "kv", "binding": b, "name": name, "args": args});
        Box::pin(self.op(tag, what, move |r, _| {
            if let Some(e) = r["error"].as_str() {
                return KvResult::Error(e.into());
            }
            match op {
                KvOp::Get { .. } => KvResult::Value(r.get("value").cloned()),
                KvOp::List { .. } => KvResult::Keys(strings(&r["keys"])),
                _ => KvResult::Ok,
            }
        }))
    }
    fn handle_binding_database(&self, b: &str, op: DatabaseOp) -> OpFuture<'_, DatabaseResult> {
        let DatabaseOp::Query { sql, params } = op;
        // Values with their types: {"Int": 1} and so on.
        let prim = |p: &SqlPrimitive| match p {
            SqlPrimitive::Null => json!(null),
            SqlPrimitive::Bool(b) => json!({"bool": b}),
            SqlPrimitive::Int(i) => json!({"int": i.to_string()}),
            SqlPrimitive::Float(f) => json!({"float": f.to_string()}),
            SqlPrimitive::String(s) => json!({"string": s}),
        };
        let params: Vec<Value> = params
            .iter()
            .map(|p| match p {
                SqlParam::Primitive(p) => prim(p),
                SqlParam::Array(a) => Value::Array(a.iter().map(prim).collect()),
            })
            .collect();
        let tag = format!("db {b} {sql}");
        let what = json!({"op": "db", "binding": b, "sql": sql, "params": params});
        Box::pin(self.op(tag, what, |r, _| match r["error"].as_str() {
            Some(e) => DatabaseResult::Error(e.into()),
            None => DatabaseResult::Rows(r["rows"].as_str().unwrap_or("[]").to_string()),
        }))
    }
    /// {incoming: [[delay, {text|binary|error|closed: [code, reason]}]...], echo: true,
    ///  onclose: delay (answers a close), end: true (drops the connection after the list)}
    fn handle_websocket_connect(
        &self,
        url: String,
        headers: HashMap<String, String>,
    ) -> OpFuture<'_, Result<WebSocketConnection, String>> {
        let mut h: Vec<_> = headers.into_iter().collect();
        h.sort();
        let what = json!({"op": "ws", "url": url, "headers": h});
        Box::pin(self.op(format!("ws {url}"), what, |r, n| {
            if let Some(e) = r["error"].as_str() {
                return Err(e.to_string());
            }
            let (send_tx, mut out) = mpsc::unbounded_channel();
            let (tx, recv_rx) = mpsc::unbounded_channel();
            let (trace, w) = (self.trace.clone(), self.label.clone());
            let list = r["incoming"].as_array().cloned().unwrap_or_default();
            let (echo, end, onclose) = (r["echo"] == true, r["end"] == true, r["onclose"].clone());
            tokio::spawn(async move {
                let mut tx = Some(tx);
                let mut i = 0;
                let mut due = Box::pin(sleep(list.first().map_or(Duration::ZERO, |c| ms(&c[0]))));
                loop {
                    tokio::select! {
                        biased;
                        m = out.recv() => {
                            let Some(m) = m else {
                                trace.put(json!({"k": "wsgone", "n": n, "w": w}));
                                return;
                            };
                            trace.put(json!({"k": "wsout", "n": n, "m": match &m {
                                WebSocketOutgoing::Text(s) => json!({"text": s}),
                                WebSocketOutgoing::Binary(b) => json!({"binary": show(b)}),
                                WebSocketOutgoing::Close { code, reason } => json!({"close": [code, reason]}),
                            }}));
                            match m {
                                WebSocketOutgoing::Text(s) if echo => {
                                    trace.put(json!({"k": "wsin", "n": n, "m": {"text": s}}));
                                    tx.as_ref().map(|tx| tx.send(WebSocketIncoming::Text(s)));
                                }
                                WebSocketOutgoing::Binary(b) if echo => {
                                    trace.put(json!({"k": "wsin", "n": n, "m": {"binary": show(&b)}}));
                                    tx.as_ref().map(|tx| tx.send(WebSocketIncoming::Binary(b)));
                                }
                                WebSocketOutgoing::Close { code, reason } if !onclose.is_null() => {
                                    sleep(ms(&onclose)).await;
                                    trace.put(json!({"k": "wsin", "n": n, "m": {"closed": [code, reason]}}));
                                    tx.take().map(|tx| tx.send(WebSocketIncoming::Closed { code, reason }));
                                }
                                _ => {}
                            }
                        }
                        _ = &mut due, if i < list.len() => {
                            let m = &list[i][1];
                            if tx.is_some() {
                                trace.put(json!({"k": "wsin", "n": n, "m": m}));
                            }
                            let m = if let Some(s) = m["text"].as_str() {
                                WebSocketIncoming::Text(s.into())
                            } else if m["binary"].is_string() {
                                WebSocketIncoming::Binary(bytes(&m["binary"]))
                            } else if let Some(e) = m["error"].as_str() {
                                WebSocketIncoming::Error(e.into())
                            } else {
                                WebSocketIncoming::Closed {
                                    code: m["closed"][0].as_u64().unwrap() as u16,
                                    reason: m["closed"][1].as_str().unwrap().into(),
                                }
                            };
                            tx.as_ref().map(|tx| tx.send(m));
                            i += 1;
                            if i < list.len() {
                                due.as_mut().reset(Instant::now() + ms(&list[i][0]));
                            } else if end && tx.take().is_some() {
                                trace.put(json!({"k": "wsin", "n": n, "m": {"end": true}}));
                            }
                        }
                    }
                }
            });
            Ok(WebSocketConnection { send_tx, recv_rx })
        }))
    }
}
