//! Drives the real filter (root context + HTTP contexts) the way Envoy would.
use proxy_wasm::sim::{self, Call, Ev, Phase, Prop, Stream};
use proxy_wasm::traits::{HttpContext, RootContext};
use proxy_wasm::types::{Action, LogLevel, MapType, Status};
use serde_json::Value as J;

pub const ROOT: u32 = 1;

/// Register the entry point of the module on this thread.
pub fn boot() {
    wasm_shim::__verif_start();
    crate::fw::install_panic_hook();
}

pub struct Vm {
    /// of its root context
    pub id: u32,
    root: Option<Box<dyn RootContext>>,
    pooled: bool,
}

thread_local! {
    /// Building a root context decodes the embedded descriptor sets, which dwarfs a case; checks that do
    /// not study the root's own life cycle take turns on one root and reconfigure it.
    static POOL: std::cell::RefCell<Option<(Box<dyn RootContext>, std::time::Duration)>> = const { std::cell::RefCell::new(None) };
}
impl Drop for Vm {
    fn drop(&mut self) {
        if self.pooled && !std::thread::panicking() {
            // the timer belongs to the root
            let tick = sim::with(|s| s.tick_period);
            POOL.with(|p| *p.borrow_mut() = self.root.take().map(|r| (r, tick)));
        }
    }
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Step {
    pub action: Option<Action>,
    pub events: Vec<Ev>,
    /// what was logged, if logs are kept
    pub logs: Vec<(LogLevel, String)>,
}
impl Step {
    pub fn calls(&self) -> Vec<&Call> {
        self.events.iter().filter_map(|e| if let Ev::Call(c) = e { Some(c) } else { None }).collect()
    }
    pub fn replies(&self) -> Vec<(u32, Vec<(String, String)>, Option<Vec<u8>>)> {
        self.events
            .iter()
            .filter_map(|e| match e {
                Ev::Reply { status, headers, body } => Some((*status, headers.clone(), body.clone())),
                _ => None,
            })
            .collect()
    }
    pub fn metric(&self, name: &str) -> i64 {
        self.events
            .iter()
            .map(|e| match e {
                Ev::Metric(id, d) if sim::metric_name(*id) == name => *d,
                _ => 0,
            })
            .sum()
    }
    pub fn resumed_req(&self) -> usize {
        self.events.iter().filter(|e| matches!(e, Ev::ResumeReq)).count()
    }
    pub fn resumed_resp(&self) -> usize {
        self.events.iter().filter(|e| matches!(e, Ev::ResumeResp)).count()
    }
}

impl Vm {
    pub fn boot_only() -> Vm {
        let ctor = sim::with(|s| {
            s.reset();
            s.active = ROOT;
            s.new_root.expect("boot() was not called")
        });
        let mut root = ctor(ROOT);
        assert!(root.on_vm_start(0), "the VM did not start");
        Vm { id: ROOT, root: Some(root), pooled: false }
    }
    /// One more root context in the same VM, for another plugin configuration.
    pub fn another(id: u32) -> Vm {
        let ctor = sim::with(|s| {
            s.active = id;
            s.new_root.expect("boot() was not called")
        });
        let mut root = ctor(id);
        assert!(root.on_vm_start(0), "the VM did not start");
        Vm { id, root: Some(root), pooled: false }
    }
    /// A VM configured with `cfg` (on a recycled root context); None when the configuration is refused.
    pub fn new(cfg: &J) -> Option<Vm> {
        let mut vm = match POOL.with(|p| p.borrow_mut().take()) {
            Some((root, tick)) => {
                sim::with(|s| {
                    s.reset();
                    s.tick_period = tick;
                    s.active = ROOT;
                });
                Vm { id: ROOT, root: Some(root), pooled: true }
            }
            None => Self::boot_only(),
        };
        vm.pooled = true;
        if vm.configure(cfg.to_string().into_bytes()).0 {
            Some(vm)
        } else {
            None
        }
    }
    /// The same on a root context of its own.
    pub fn fresh(cfg: &J) -> Option<Vm> {
        let mut vm = Self::boot_only();
        if vm.configure(cfg.to_string().into_bytes()).0 {
            Some(vm)
        } else {
            None
        }
    }
    fn step<T>(&mut self, f: impl FnOnce(&mut dyn RootContext) -> T) -> (T, Step) {
        let start = sim::with(|s| {
            s.active = self.id;
            s.events.len()
        });
        let r = f(self.root.as_mut().expect("root").as_mut());
        let (events, logs) = sim::with(|s| (s.events[start..].iter().map(|e| e.1.clone()).collect(), s.take_logs()));
        (r, Step { action: None, events, logs })
    }
    pub fn configure(&mut self, bytes: Vec<u8>) -> (bool, Step) {
        let n = bytes.len();
        sim::with(|s| s.plugin_config = Ok(Some(bytes)));
        self.step(|r| r.on_configure(n))
    }
    pub fn tick(&mut self) -> Step {
        self.step(|r| r.on_tick()).1
    }
    pub fn answer(&mut self, token: u32, status: u32, body: Result<Option<Vec<u8>>, Status>, size: usize) -> Step {
        sim::with(|s| s.grpc_receive = body);
        self.step(|r| r.on_grpc_call_response(token, status, size)).1
    }
    pub fn open(&self, id: u32, stream: Stream) -> Req {
        sim::with(|s| {
            s.active = id;
            s.streams.insert(id, stream);
        });
        let http = self.root.as_ref().expect("root").create_http_context(id).expect("http context");
        Req {
            id,
            http,
            outstanding: vec![],
            req: Dir::New,
            resp: Dir::New,
            req_eos: false,
            resp_eos: false,
            resp_ended: false,
            replied: false,
            req_buffering: false,
            resp_buffering: false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    New,
    /// headers or body held by the filter
    Held,
    /// everything delivered so far was let through
    Flowing,
}

struct Gone;
impl proxy_wasm::traits::Context for Gone {}
impl HttpContext for Gone {}

pub struct Req {
    pub id: u32,
    pub http: Box<dyn HttpContext>,
    pub outstanding: Vec<Call>,
    pub req: Dir,
    pub resp: Dir,
    /// end of stream was delivered to the filter
    pub req_eos: bool,
    pub resp_eos: bool,
    /// The end of its body, or its trailers, went by.
    pub resp_ended: bool,
    pub replied: bool,
    req_buffering: bool,
    resp_buffering: bool,
}

impl Req {
    fn step(&mut self, f: impl FnOnce(&mut dyn HttpContext) -> Option<Action>) -> Step {
        let id = self.id;
        let start = sim::with(|s| {
            s.active = id;
            s.events.len()
        });
        let action = f(self.http.as_mut());
        let (events, logs): (Vec<Ev>, _) = sim::with(|s| (s.events[start..].iter().filter(|e| e.0 == id).map(|e| e.1.clone()).collect(), s.take_logs()));
        for e in &events {
            match e {
                Ev::Call(c) => self.outstanding.push(c.clone()),
                Ev::Reply { .. } => self.replied = true,
                _ => {}
            }
        }
        Step { action, events, logs }
    }
    /// The stream is over: the host drops its context.
    pub fn end(&mut self) -> Step {
        let st = self.step(|h| {
            h.on_log();
            None
        });
        sim::with(|s| s.active = ROOT);
        self.http = Box::new(Gone);
        st
    }
    pub fn sim<T>(&self, f: impl FnOnce(&mut Stream) -> T) -> T {
        let id = self.id;
        sim::with(|s| f(s.streams.get_mut(&id).expect("stream")))
    }
    fn after_resume(&mut self, st: &Step) {
        if st.resumed_req() > 0 && self.req == Dir::Held {
            self.req = Dir::Flowing;
            self.sim(|s| s.req_buf = None);
            self.req_buffering = false;
        }
        if st.resumed_resp() > 0 && self.resp == Dir::Held {
            self.resp = Dir::Flowing;
            self.sim(|s| s.resp_buf = None);
            self.resp_buffering = false;
        }
    }
    pub fn headers(&mut self, eos: bool) -> Step {
        let n = self.sim(|s| s.req_headers.len());
        let st = self.step(|h| Some(h.on_http_request_headers(n, eos)));
        self.req_eos |= eos;
        self.req = if st.action == Some(Action::Pause) { Dir::Held } else { Dir::Flowing };
        self.after_resume(&st);
        st
    }
    /// Body callbacks are not made while the headers are held (Envoy stops all iteration);
    /// while an earlier body callback holds the stream, the buffer accumulates.
    pub fn body(&mut self, chunk: &[u8], eos: bool) -> Step {
        let buffering = self.req_buffering;
        let len = self.sim(|s| {
            let mut b = if buffering { s.req_buf.take().unwrap_or_default() } else { vec![] };
            b.extend_from_slice(chunk);
            let l = b.len();
            s.req_buf = Some(b);
            l
        });
        let st = self.step(|h| Some(h.on_http_request_body(len, eos)));
        self.req_eos |= eos;
        if st.action == Some(Action::Pause) {
            self.req = Dir::Held;
            self.req_buffering = true;
        } else {
            self.req = Dir::Flowing;
            self.req_buffering = false;
            self.sim(|s| s.req_buf = None);
        }
        self.after_resume(&st);
        st
    }
    pub fn enter_response(&mut self, status: u32, headers: &[(String, String)]) {
        self.sim(|s| {
            s.phase = Phase::Response;
            s.resp_headers = vec![(":status".to_string(), status.to_string())];
            s.resp_headers.extend(headers.iter().cloned());
        });
    }
    pub fn resp_headers(&mut self, eos: bool) -> Step {
        let n = self.sim(|s| s.resp_headers.len());
        let st = self.step(|h| Some(h.on_http_response_headers(n, eos)));
        self.resp_eos |= eos;
        self.resp = if st.action == Some(Action::Pause) { Dir::Held } else { Dir::Flowing };
        self.after_resume(&st);
        st
    }
    pub fn resp_body(&mut self, chunk: &[u8], eos: bool) -> Step {
        let buffering = self.resp_buffering;
        let len = self.sim(|s| {
            let mut b = if buffering { s.resp_buf.take().unwrap_or_default() } else { vec![] };
            b.extend_from_slice(chunk);
            let l = b.len();
            s.resp_buf = Some(b);
            l
        });
        let st = self.step(|h| Some(h.on_http_response_body(len, eos)));
        self.resp_eos |= eos;
        self.resp_ended |= eos;
        if st.action == Some(Action::Pause) {
            self.resp = Dir::Held;
            self.resp_buffering = true;
        } else {
            self.resp = Dir::Flowing;
            self.resp_buffering = false;
            self.sim(|s| s.resp_buf = None);
        }
        self.after_resume(&st);
        st
    }
    /// The trailers of the request: its body ends with them.
    pub fn trailers(&mut self) -> Step {
        if !self.req_buffering {
            self.sim(|s| s.req_buf = None);
        }
        let st = self.step(|h| Some(h.on_http_request_trailers(1)));
        self.req_eos = true;
        if st.action == Some(Action::Pause) {
            self.req = Dir::Held;
        } else {
            self.req = Dir::Flowing;
            self.req_buffering = false;
            self.sim(|s| s.req_buf = None);
        }
        self.after_resume(&st);
        st
    }
    /// The trailers of the response: its body ends with them.
    pub fn resp_trailers(&mut self) -> Step {
        if !self.resp_buffering {
            self.sim(|s| s.resp_buf = None);
        }
        let st = self.step(|h| Some(h.on_http_response_trailers(1)));
        self.resp_eos = true;
        self.resp_ended = true;
        if st.action == Some(Action::Pause) {
            self.resp = Dir::Held;
        } else {
            self.resp = Dir::Flowing;
            self.resp_buffering = false;
            self.sim(|s| s.resp_buf = None);
        }
        self.after_resume(&st);
        st
    }
    pub fn answer(&mut self, token: u32, status: u32, body: Result<Option<Vec<u8>>, Status>) -> Step {
        self.outstanding.retain(|c| c.token != token);
        let size = match &body {
            Ok(Some(b)) if status == 0 => b.len(),
            _ => 0,
        };
        sim::with(|s| s.grpc_receive = body);
        let st = self.step(|h| {
            h.on_grpc_call_response(token, status, size);
            None
        });
        sim::with(|s| s.grpc_receive = Ok(None));
        self.after_resume(&st);
        st
    }
    pub fn ok(&mut self, token: u32, body: Vec<u8>) -> Step {
        self.answer(token, 0, Ok(Some(body)))
    }
}

// ---------------------------------------------------------------- building blocks
pub fn stream(host: &str, path: &str, method: &str, headers: &[(&str, &str)]) -> Stream {
    let mut s = Stream::default();
    let mut h: Vec<(String, String)> = vec![
        (":authority".into(), host.into()),
        (":path".into(), path.into()),
        (":method".into(), method.into()),
    ];
    h.extend(headers.iter().map(|(k, v)| (k.to_string(), v.to_string())));
    s.req_headers = h;
    for (k, v) in [
        ("request.host", host),
        ("request.path", path),
        ("request.method", method),
        ("request.scheme", "http"),
        ("request.protocol", "HTTP/1.1"),
        ("source.address", "10.1.2.3:4567"),
        ("destination.address", "10.9.8.7:80"),
    ] {
        set_prop(&mut s, k, v.as_bytes());
    }
    let url_path = path.split(['?', '#']).next().unwrap_or(path);
    set_prop(&mut s, "request.url_path", url_path.as_bytes());
    set_prop(&mut s, "request.time", &1_700_000_000_000_000_000i64.to_le_bytes());
    set_prop(&mut s, "source.port", &4567i64.to_le_bytes());
    set_prop(&mut s, "destination.port", &80i64.to_le_bytes());
    s
}
pub fn set_prop(s: &mut Stream, path: &str, v: &[u8]) {
    s.props.insert(path.split('.').map(String::from).collect(), Prop::Val(v.to_vec()));
}

/// The header maps the filter left behind, as last set; None when it did not touch them.
pub fn last_map(evs: &[Ev], t: MapType) -> Option<Vec<(String, String)>> {
    evs.iter().rev().find_map(|e| match e {
        Ev::SetMap(mt, m) if *mt == t => Some(m.clone()),
        _ => None,
    })
}
