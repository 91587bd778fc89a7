//! One scenario: workers, the events that they get, and what came of it.
use crate::mock::{self, Mock, Trace};
use openworkers_core::*;
use openworkers_runtime_v8::{PinnedExecuteRequest, PinnedPoolConfig, Worker};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use tokio::sync::oneshot;
use tokio::time::{sleep, sleep_until};
use vcommon::serde_json::{Value, json};

fn limits(v: &Value) -> RuntimeLimits {
    let mut l = RuntimeLimits { max_cpu_time_ms: 0, max_wall_clock_time_ms: 0, ..Default::default() };
    let get = |k: &str, d: u64| v[k].as_u64().unwrap_or(d);
    l.max_cpu_time_ms = get("cpu", 0);
    l.max_wall_clock_time_ms = get("wall", 0);
    l.stream_buffer_size = get("buffer", 16) as usize;
    l.heap_max_mb = get("heap", 128) as usize;
    l
}

fn script(v: &Value) -> Script {
    let text = v["script"].as_str().unwrap_or("").to_string();
    let code = match v["cache"].as_str() {
        Some("made") => WorkerCode::Snapshot(openworkers_runtime_v8::pack_code_cache(
            &text,
            &openworkers_runtime_v8::create_code_cache(&text).unwrap_or_default(),
        )),
        Some("given") => WorkerCode::Snapshot(openworkers_runtime_v8::pack_code_cache(&text, &mock::bytes(&v["bytes"]))),
        Some("raw") => WorkerCode::Snapshot(mock::bytes(&v["bytes"])),
        _ => WorkerCode::JavaScript(text),
    };
    let env = v["env"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect());
    let bindings = v["bindings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|b| {
                    let kind = match b[1].as_str().unwrap() {
                        "assets" => BindingType::Assets,
                        "storage" => BindingType::Storage,
                        "kv" => BindingType::Kv,
                        "db" => BindingType::Database,
                        _ => BindingType::Worker,
                    };
                    BindingInfo::new(b[0].as_str().unwrap(), kind)
                })
                .collect()
        })
        .unwrap_or_default();
    Script::with_bindings(code, env, bindings)
}

/// The event of a step, and the recording of what its sender gets back.
fn event(step: &Value, i: usize, trace: &Trace) -> (Event, tokio::task::JoinHandle<()>) {
    let trace = trace.clone();
    if step["kind"] == "task" {
        let source = Some(&step["source"]).filter(|s| s.is_object()).map(|s| match s["kind"].as_str().unwrap() {
            "schedule" => TaskSource::Schedule { time: s["time"].as_u64().unwrap() },
            "chain" => TaskSource::Chain { parent: s["name"].as_str().unwrap().into() },
            "worker" => TaskSource::Worker { name: s["name"].as_str().unwrap().into() },
            _ => TaskSource::Invoke { origin: s["name"].as_str().map(String::from) },
        });
        let (ev, rx) = Event::task(
            step["id"].as_str().unwrap_or("task").into(),
            step.get("payload").cloned(),
            source,
            step["attempt"].as_u64().unwrap_or(1) as u32,
        );
        let h = tokio::task::spawn_local(async move {
            match rx.await {
                Ok(r) => trace.put(json!({"k": "result", "step": i, "success": r.success, "data": r.data,
                    "hasData": r.data.is_some(), "error": r.error})),
                Err(_) => trace.put(json!({"k": "noresult", "step": i})),
            }
        });
        return (ev, h);
    }
    let body = match mock::source(&step["body"], &trace, json!({"request": i})) {
        None => RequestBody::None,
        Some(Ok(b)) => RequestBody::Bytes(b),
        Some(Err(rx)) => RequestBody::Stream(rx),
    };
    let (ev, rx) = Event::fetch(HttpRequest {
        method: step["method"].as_str().unwrap_or("GET").parse().unwrap(),
        url: step["url"].as_str().unwrap_or("http://w.test/").into(),
        headers: mock::headers(&step["headers"]).into_iter().collect(),
        body,
    });
    let client = step["client"].clone();
    let h = tokio::task::spawn_local(client_side(rx, client, i, trace));
    (ev, h)
}

/// client: {leave: ms (before a response came), delays: [ms...] before each chunk is read, take: chunks before it leaves}
async fn client_side(rx: oneshot::Receiver<HttpResponse>, client: Value, i: usize, trace: Trace) {
    let leave = client["leave"].as_u64();
    let r = tokio::select! {
        r = rx => r,
        _ = sleep(Duration::from_millis(leave.unwrap_or(0))), if leave.is_some() => {
            trace.put(json!({"k": "left", "step": i}));
            return;
        }
    };
    let Ok(r) = r else {
        trace.put(json!({"k": "noresponse", "step": i}));
        return;
    };
    let (kind, data) = match &r.body {
        ResponseBody::None => ("none", Value::Null),
        ResponseBody::Bytes(b) => ("bytes", json!(mock::show(b))),
        ResponseBody::Stream(_) => ("stream", Value::Null),
    };
    trace.put(json!({"k": "response", "step": i, "status": r.status, "headers": r.headers, "body": kind, "data": data}));
    let ResponseBody::Stream(mut rx) = r.body else { return };
    let mut n = 0;
    loop {
        if client["take"].as_u64() == Some(n) {
            trace.put(json!({"k": "left", "step": i}));
            return;
        }
        let d = &client["delays"];
        if let Some(a) = d.as_array().filter(|a| !a.is_empty()) {
            let d = a[n as usize % a.len()].as_u64().unwrap();
            if d > 0 {
                sleep(Duration::from_millis(d)).await;
            }
        }
        n += 1;
        match rx.recv().await {
            Some(Ok(b)) => trace.put(json!({"k": "chunk", "step": i, "data": mock::show(&b)})),
            Some(Err(e)) => trace.put(json!({"k": "error", "step": i, "error": e})),
            None => {
                trace.put(json!({"k": "end", "step": i}));
                return;
            }
        }
    }
}

fn reason(r: Result<(), TerminationReason>) -> Value {
    match r {
        Ok(()) => json!("ok"),
        Err(e) => json!(format!("{e:?}")),
    }
}

/// What an exception says, as it is.
fn text(e: &TerminationReason) -> Value {
    match e {
        TerminationReason::Exception(s) => json!(s),
        _ => Value::Null,
    }
}

fn said<T>(r: &Result<Result<(), TerminationReason>, T>) -> Value {
    match r {
        Ok(Err(e)) => text(e),
        _ => Value::Null,
    }
}

fn pool(trace: &Trace, step: Option<usize>) {
    let g = openworkers_runtime_v8::get_pinned_pool_stats();
    let mut e = json!({"k": "pool", "step": step,
        "requests": g.total_requests, "hits": g.cache_hits, "misses": g.cache_misses, "rate": g.hit_rate});
    if let Some(s) = openworkers_runtime_v8::get_local_pool_stats() {
        e["total"] = json!(s.total);
        e["in_use"] = json!(s.in_use);
        e["capacity"] = json!(s.capacity);
    }
    trace.put(e);
}

async fn steps(req: &Value, trace: &Trace) {
    let start = tokio::time::Instant::now();
    let patience = Duration::from_millis(req["patience"].as_u64().unwrap_or(100_000));
    let pinned = req["mode"] == "pinned";
    // One isolate, lent to one execution after another
    let mut lent = (req["mode"] == "isolate").then(|| openworkers_runtime_v8::LockerManagedIsolate::new(limits(&req["limits"])));
    let mut worker: Option<Worker> = None;
    let clients = Rc::new(RefCell::new(vec![]));
    let mut running = vec![];
    let empty = vec![];
    for (i, step) in req["steps"].as_array().unwrap_or(&empty).iter().enumerate() {
        sleep_until(start + Duration::from_millis(step["at"].as_u64().unwrap_or(0))).await;
        // After all before it, and a gap
        if let Some(gap) = step["gap"].as_u64() {
            for r in std::mem::take(&mut running) {
                let r: Result<(), tokio::task::JoinError> = r.await;
                if let Err(e) = r {
                    std::panic::resume_unwind(e.into_panic());
                }
            }
            sleep(Duration::from_millis(gap)).await;
        }
        // The worker of the step: a name in "workers", or the scenario itself.
        let name = step["worker"].as_str().unwrap_or("");
        let w = if name.is_empty() { req.clone() } else { req["workers"][name].clone() };
        let rules = if w["ops"].is_null() { req["ops"].clone() } else { w["ops"].clone() };
        if step["kind"] == "new" || (worker.is_none() && step["kind"] != "drop" && step["kind"] != "wait" && !pinned && lent.is_none()) {
            drop(worker.take());
            let ops = Mock::new(&rules, name, trace);
            match Worker::new_with_ops(script(&w), Some(limits(&w["limits"])), ops).await {
                Ok(w) => worker = Some(w),
                Err(e) => {
                    trace.put(json!({"k": "new", "step": i, "result": format!("{e:?}"), "text": text(&e)}));
                    if req["goOn"] == true {
                        continue;
                    }
                    return;
                }
            }
            if step["kind"] == "new" {
                continue;
            }
        }
        match step["kind"].as_str().unwrap() {
            "abort" => {
                worker.as_mut().unwrap().abort();
                continue;
            }
            "drop" => {
                drop(worker.take());
                continue;
            }
            "wait" => continue,
            "pool" => {
                pool(trace, Some(i));
                continue;
            }
            _ => {}
        }
        let (ev, client) = event(step, i, trace);
        clients.borrow_mut().push(client);
        let give_up = step["giveUp"].as_u64().map(Duration::from_millis);
        if let Some(lent) = &mut lent {
            let ops = Mock::new(&rules, &format!("{name}#{i}"), trace);
            let (mut locker, _js) = lent.lock();
            let run = openworkers_runtime_v8::worker::WorkerBuilder::new()
                .script(script(&w))
                .ops(ops)
                .limits(limits(&w["limits"]))
                .execute_with_isolate(&mut locker, ev);
            let r = tokio::time::timeout(patience, run).await;
            trace.put(json!({"k": "exec", "step": i, "text": said(&r), "result": r.map_or(json!("hang"), reason)}));
            continue;
        }
        if !pinned {
            let w = worker.as_mut().unwrap();
            tokio::select! {
                r = tokio::time::timeout(patience, w.exec(ev)) => {
                    trace.put(json!({"k": "exec", "step": i, "text": said(&r), "result": r.map_or(json!("hang"), reason)}));
                }
                _ = sleep(give_up.unwrap_or_default()), if give_up.is_some() => {
                    trace.put(json!({"k": "exec", "step": i, "result": "given up"}));
                }
            }
            continue;
        }
        let ops = Mock::new(&rules, &format!("{name}#{i}"), trace);
        let warm = trace.clone();
        let preq = PinnedExecuteRequest {
            owner_id: step["owner"].as_str().unwrap_or("owner").into(),
            worker_id: step["workerId"].as_str().unwrap_or(if name.is_empty() { "worker-1" } else { name }).into(),
            version: step["version"].as_i64().unwrap_or(1) as i32,
            script: script(&w),
            ops,
            task: ev,
            on_warm_hit: Some(Box::new(move |_| warm.put(json!({"k": "warm", "step": i})))),
            env_updated_at: step["env"].as_i64(),
        };
        let trace = trace.clone();
        running.push(tokio::task::spawn_local(async move {
            trace.put(json!({"k": "begin", "step": i}));
            tokio::select! {
                biased;
                r = tokio::time::timeout(patience, openworkers_runtime_v8::execute_pinned(preq)) => {
                    trace.put(json!({"k": "exec", "step": i, "text": said(&r), "result": r.map_or(json!("hang"), reason)}));
                }
                _ = sleep(give_up.unwrap_or_default()), if give_up.is_some() => {
                    trace.put(json!({"k": "exec", "step": i, "result": "given up"}));
                }
            }
        }));
        // In order, even if the next one comes at the same time.
        tokio::task::yield_now().await;
    }
    for r in running {
        if let Err(e) = r.await {
            std::panic::resume_unwind(e.into_panic());
        }
    }
    sleep(Duration::from_millis(req["linger"].as_u64().unwrap_or(0))).await;
    if pinned {
        pool(trace, None);
    }
    if req["keep"] != true {
        drop(worker.take());
    }
    let all = std::mem::take(&mut *clients.borrow_mut());
    for c in all {
        if tokio::time::timeout(patience, c).await.is_err() {
            trace.put(json!({"k": "clienthang"}));
        }
    }
    trace.put(json!({"k": "over"}));
}

pub fn run(req: &Value) -> Value {
    if req["mode"] == "pinned" {
        static POOL: std::sync::Once = std::sync::Once::new();
        POOL.call_once(|| {
            let p: Value = std::env::var("VERIF_POOL").ok().and_then(|s| vcommon::serde_json::from_str(&s).ok()).unwrap_or_default();
            let get = |k: &str, d: u64| p[k].as_u64().unwrap_or(d) as usize;
            openworkers_runtime_v8::init_pinned_pool(PinnedPoolConfig {
                max_per_thread: get("thread", 4),
                max_per_owner: p["owner"].as_u64().map(|n| n as usize),
                max_concurrent_per_isolate: get("told", get("concurrent", 4) as u64),
                max_cached_contexts: get("cached", 3),
                limits: limits(&p["limits"]),
            });
        });
    }
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(req["real"] != true)
        .build()
        .unwrap();
    let local = tokio::task::LocalSet::new();
    let trace = local.block_on(&rt, async {
        let trace = Trace::new();
        steps(req, &trace).await;
        trace.take()
    });
    drop(local);
    json!({"trace": trace})
}

/// pack and unpack, and whether data is a code cache
pub fn code_cache(req: &Value) -> Value {
    use openworkers_runtime_v8 as rt;
    let source = req["source"].as_str().unwrap_or("");
    let packed = if req["data"].is_string() {
        mock::bytes(&req["data"])
    } else {
        rt::pack_code_cache(source, &mock::bytes(&req["cache"]))
    };
    let back = rt::unpack_code_cache(&packed).map(|(s, c)| json!([s, mock::show(c)]));
    json!({"packed": mock::show(&packed), "is": rt::is_code_cache(&packed), "back": back})
}

