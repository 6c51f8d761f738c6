//! Thin replay driver: reads one job per line on stdin, runs it against the real
//! library through its public API only, and writes one result per line.
//!
//! job    = {"id": N, "ops": [OP, ...]}
//! OP     = ["new"] | ["use", N] | ["set", NAME, VALUE] | ["parse", TEXT]
//! result = {"id": N, "r": [R, ...]}   one R per "parse" op
//! R      = {"o": HTML} | {"p": PANIC MESSAGE} | {"h": true} (no answer in time)
//!
//! It contains no oracle: every judgement is made from the TLA+ specification.
use rustextile::ammonia::{url::Url, UrlRelative};
use rustextile::{HtmlKind, Textile};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, RecvTimeoutError, Sender};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn apply(t: Textile, name: &str, v: &Value) -> Textile {
    let b = v.as_bool().unwrap_or(false);
    match name {
        "restricted" => t.set_restricted(b),
        "lite" => t.set_lite(b),
        "images" => t.set_images(b),
        "block_tags" => t.set_block_tags(b),
        "raw_blocks" => t.set_raw_blocks(b),
        "sanitize" => t.set_sanitize(b),
        "adjust" => match v.as_str().expect("adjust") {
            "rel" => t.adjust_sanitizer(|s| s.link_rel(Some("noopener"))),
            "generic" => t.adjust_sanitizer(|s| s.add_generic_attributes(&["class", "id", "style"])),
            "rm" => t.adjust_sanitizer(|s| s.rm_tags(&["p", "strong", "a", "img", "table"])),
            "deny" => t.adjust_sanitizer(|s| s.url_relative(UrlRelative::Deny)),
            "base" => t.adjust_sanitizer(|s| {
                s.url_relative(UrlRelative::RewriteWithBase(Url::parse("http://base.org/dir/").expect("url")))
            }),
            x => panic!("harness: unknown adjustment {x}"),
        },
        "get_sizes" => t.set_getting_image_size(b),
        "uid" => t.set_uid(v.as_str().expect("uid")),
        "rel" => t.set_rel(v.as_str().filter(|s| !s.is_empty())),
        "align_class" => t.set_align_class(b),
        "html" => t.set_html_kind(match v.as_str() {
            Some("xhtml") => HtmlKind::XHTML,
            _ => HtmlKind::HTML5,
        }),
        _ => panic!("harness: unknown setting {name}"),
    }
}

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn run_job(job: &Value) -> Value {
    // several converters, one of them in use
    let mut all: std::collections::HashMap<u64, Option<Textile>> = Default::default();
    let mut cur = 0;
    let mut out = Vec::new();
    let timing = job.get("t").is_some();
    for op in job["ops"].as_array().expect("ops") {
        let t = all.entry(cur).or_insert_with(|| Some(Textile::default()));
        match op[0].as_str().expect("op") {
            "new" => *t = Some(Textile::default()),
            "use" => cur = op[1].as_u64().expect("number"),
            "set" => {
                let old = t.take().expect("a live parser");
                let name = op[1].as_str().expect("name");
                match catch_unwind(AssertUnwindSafe(|| apply(old, name, &op[2]))) {
                    Ok(n) => *t = Some(n),
                    Err(e) => {
                        out.push(json!({"p": format!("set {name}: {}", panic_msg(e))}));
                        *t = Some(Textile::default());
                    }
                }
            }
            "parse" => {
                let text = op[1].as_str().expect("text");
                let parser = t.as_ref().expect("a live parser");
                let t0 = Instant::now();
                let r = catch_unwind(AssertUnwindSafe(|| parser.parse(text)));
                let us = t0.elapsed().as_micros() as u64;
                let mut v = match r {
                    Ok(h) => json!({"o": h}),
                    Err(e) => json!({"p": panic_msg(e)}),
                };
                if timing {
                    v["us"] = json!(us);
                }
                out.push(v);
            }
            x => panic!("harness: unknown op {x}"),
        }
    }
    json!({"id": job["id"], "r": out})
}

type Msg = Option<Value>;

fn spawn_worker() -> (Sender<Msg>, std::sync::mpsc::Receiver<Value>) {
    let (jtx, jrx) = channel::<Msg>();
    let (rtx, rrx) = channel::<Value>();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            while let Ok(Some(job)) = jrx.recv() {
                if rtx.send(run_job(&job)).is_err() {
                    break;
                }
            }
        })
        .expect("spawn");
    (jtx, rrx)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit = Duration::from_millis(
        std::env::var("RTX_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(20_000));
    let threads: usize = std::env::var("RTX_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let input = Arc::new(Mutex::new(std::io::BufReader::new(std::io::stdin()).lines()));
    let output = Arc::new(Mutex::new(std::io::BufWriter::new(std::io::stdout())));
    let mut handles = Vec::new();
    // A hanging conversion can't be stopped; after a few of them the run ends.
    let hangs = Arc::new(AtomicUsize::new(0));
    for _ in 0..threads {
        let (input, output, hangs) = (input.clone(), output.clone(), hangs.clone());
        handles.push(std::thread::spawn(move || {
            let (mut jtx, mut rrx) = spawn_worker();
            while hangs.load(Ordering::SeqCst) < 3 {
                let line = match input.lock().unwrap().next() {
                    Some(Ok(l)) => l,
                    _ => break,
                };
                if line.trim().is_empty() {
                    continue;
                }
                let job: Value = serde_json::from_str(&line).expect("job json");
                let id = job["id"].clone();
                jtx.send(Some(job)).expect("send");
                let res = match rrx.recv_timeout(limit) {
                    Ok(v) => v,
                    Err(RecvTimeoutError::Timeout) => {
                        hangs.fetch_add(1, Ordering::SeqCst);
                        let w = spawn_worker();
                        jtx = w.0;
                        rrx = w.1;
                        json!({"id": id, "r": [{"h": true}]})
                    }
                    Err(RecvTimeoutError::Disconnected) => {
                        let w = spawn_worker();
                        jtx = w.0;
                        rrx = w.1;
                        json!({"id": id, "r": [{"p": "harness worker died"}]})
                    }
                };
                let mut o = output.lock().unwrap();
                writeln!(o, "{}", res).expect("write");
            }
        }));
    }
    for h in handles {
        h.join().expect("driver thread");
    }
    output.lock().unwrap().flush().expect("flush");
    std::process::exit(if hangs.load(Ordering::SeqCst) < 3 { 0 } else { 42 });
}
