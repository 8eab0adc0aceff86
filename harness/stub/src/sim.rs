//! The simulated host: per-stream attributes, header maps, body buffers; the outgoing gRPC calls;
//! replies; metrics. Everything observable is appended to one event log.
use crate::types::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Prop {
    Val(Vec<u8>),
    /// Host answers NotFound
    Absent,
    /// Host answers BadArgument while in the request phase, then the value
    InResponse(Vec<u8>),
    /// Host answers with this status
    Fail(Status),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub token: u32,
    pub ctx: u32,
    pub upstream: String,
    pub service: String,
    pub method: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub message: Vec<u8>,
    pub timeout: Duration,
    /// true while in the response phase of the stream
    pub in_response: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Call(Call),
    /// upstream, service, method of a call the host refused
    CallRefused(String, String, String),
    Reply { status: u32, headers: Vec<(String, String)>, body: Option<Vec<u8>> },
    ReplyRefused,
    SetMap(MapType, Vec<(String, String)>),
    SetProp(Vec<String>, Option<Vec<u8>>),
    ResumeReq,
    ResumeResp,
    Metric(u32, i64),
    TickPeriod(Duration),
    Cancel(u32),
    Reset,
    SetBuffer,
    // markers written by the driver
    Begin(&'static str),
    End(&'static str, Action),
    Answer(u32, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Phase {
    Request,
    Response,
}

#[derive(Clone, Debug)]
pub struct Stream {
    pub props: HashMap<Vec<String>, Prop>,
    pub req_headers: Vec<(String, String)>,
    pub resp_headers: Vec<(String, String)>,
    pub phase: Phase,
    pub req_buf: Option<Vec<u8>>,
    pub resp_buf: Option<Vec<u8>>,
    pub replied: bool,
    pub reply_fails: bool,
    pub set_prop_fails: bool,
    pub set_map_fails: bool,
    pub req_headers_fail: bool,
    pub resp_headers_fail: bool,
    pub body_read_fails: bool,
    /// no map with a header of this name is taken
    pub refused_header: Option<String>,
    /// no property of this (joined) path is taken
    pub refused_prop: Option<String>,
}

impl Default for Stream {
    fn default() -> Self {
        Stream {
            props: HashMap::new(),
            req_headers: vec![],
            resp_headers: vec![],
            phase: Phase::Request,
            req_buf: None,
            resp_buf: None,
            replied: false,
            reply_fails: false,
            set_prop_fails: false,
            set_map_fails: false,
            req_headers_fail: false,
            resp_headers_fail: false,
            body_read_fails: false,
            refused_header: None,
            refused_prop: None,
        }
    }
}

pub struct Sim {
    pub ops: u64,
    pub new_root: Option<NewRootContext>,
    pub new_http: Option<NewHttpContext>,
    pub active: u32,
    pub streams: HashMap<u32, Stream>,
    pub log_level: Result<LogLevel, Status>,
    pub logs: Option<Vec<(LogLevel, String)>>,
    pub next_token: u32,
    pub token_step: u32,
    pub grpc_receive: Result<Option<Vec<u8>>, Status>,
    pub plugin_config: Result<Option<Vec<u8>>, Status>,
    pub tick_period: Duration,
    pub metrics: BTreeMap<u32, i64>,
    pub events: Vec<(u32, Ev)>,
    /// upstreams whose dispatch is refused
    pub refuse: BTreeMap<String, Status>,
}

thread_local! {
    static SIM: RefCell<Sim> = RefCell::new(Sim::new());
}

static METRIC_NAMES: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn define_metric(name: &str) -> u32 {
    let mut m = METRIC_NAMES.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(i) = m.iter().position(|n| n == name) {
        return i as u32 + 1;
    }
    m.push(name.to_string());
    m.len() as u32
}
pub fn metric_name(id: u32) -> String {
    let m = METRIC_NAMES.lock().unwrap_or_else(|e| e.into_inner());
    m.get(id as usize - 1).cloned().unwrap_or_default()
}

pub fn with<T>(f: impl FnOnce(&mut Sim) -> T) -> T {
    SIM.with(|s| f(&mut s.borrow_mut()))
}

/// Envoy keeps header names in lower case.
fn lower(m: &[(String, String)]) -> Vec<(String, String)> {
    m.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect()
}

impl Sim {
    fn new() -> Self {
        Sim {
            new_root: None,
            new_http: None,
            active: 0,
            streams: HashMap::new(),
            log_level: Ok(LogLevel::Error),
            logs: None,
            next_token: 1,
            token_step: 1,
            grpc_receive: Ok(None),
            plugin_config: Ok(None),
            tick_period: Duration::ZERO,
            metrics: BTreeMap::new(),
            events: vec![],
            refuse: BTreeMap::new(),
            ops: 0,
        }
    }

    /// Forget everything but the registered constructors.
    pub fn reset(&mut self) {
        let (r, h) = (self.new_root, self.new_http);
        *self = Sim::new();
        self.new_root = r;
        self.new_http = h;
    }

    pub fn ev(&mut self, ctx: u32, e: Ev) {
        self.events.push((ctx, e));
    }

    pub fn log(&mut self, level: LogLevel, m: &str) {
        if let Some(l) = self.logs.as_mut() {
            l.push((level, m.to_string()));
        }
    }

    /// What was logged since the last time, if logs are kept.
    pub fn take_logs(&mut self) -> Vec<(LogLevel, String)> {
        self.logs.as_mut().map(std::mem::take).unwrap_or_default()
    }

    pub fn stream(&mut self) -> Option<&mut Stream> {
        // every access to a stream passes here: a case that keeps asking the host is stuck in a loop
        self.ops += 1;
        assert!(self.ops < 2_000_000, "host call budget exceeded");
        let a = self.active;
        self.streams.get_mut(&a)
    }

    pub fn get_buffer(&mut self, t: BufferType, start: usize, max: usize) -> Result<Option<Vec<u8>>, Status> {
        let buf = match t {
            BufferType::PluginConfiguration => self.plugin_config.clone()?,
            BufferType::GrpcReceiveBuffer => self.grpc_receive.clone()?,
            BufferType::HttpRequestBody => {
                let s = self.stream().ok_or(Status::BadArgument)?;
                if s.body_read_fails {
                    return Err(Status::InternalFailure);
                }
                s.req_buf.clone()
            }
            BufferType::HttpResponseBody => {
                let s = self.stream().ok_or(Status::BadArgument)?;
                if s.body_read_fails {
                    return Err(Status::InternalFailure);
                }
                s.resp_buf.clone()
            }
            _ => return Err(Status::BadArgument),
        };
        let Some(b) = buf else { return Ok(None) };
        if start > b.len() {
            return Err(Status::BadArgument);
        }
        let end = start.saturating_add(max).min(b.len());
        if end == start {
            return Ok(None);
        }
        Ok(Some(b[start..end].to_vec()))
    }

    pub fn set_buffer(&mut self, _t: BufferType, _start: usize, _size: usize, _v: &[u8]) -> Result<(), Status> {
        let c = self.active;
        self.ev(c, Ev::SetBuffer);
        Ok(())
    }

    pub fn get_map(&mut self, t: MapType) -> Result<Vec<(String, String)>, Status> {
        let s = self.stream().ok_or(Status::BadArgument)?;
        match t {
            MapType::HttpRequestHeaders if s.req_headers_fail => Err(Status::InternalFailure),
            MapType::HttpRequestHeaders => Ok(s.req_headers.clone()),
            // Envoy hands out an empty map while there are no response headers yet
            MapType::HttpResponseHeaders if s.phase == Phase::Request => Ok(vec![]),
            MapType::HttpResponseHeaders if s.resp_headers_fail => Err(Status::InternalFailure),
            MapType::HttpResponseHeaders => Ok(s.resp_headers.clone()),
            _ => Err(Status::BadArgument),
        }
    }

    pub fn get_map_value(&mut self, t: MapType, key: &str) -> Result<Option<String>, Status> {
        if t == MapType::HttpResponseHeaders && self.stream().is_some_and(|s| s.phase == Phase::Request) {
            return Err(Status::BadArgument);
        }
        let m = self.get_map(t)?;
        Ok(m.into_iter().find(|(k, _)| k.eq_ignore_ascii_case(key)).map(|(_, v)| v))
    }

    pub fn set_map(&mut self, t: MapType, m: Vec<(String, String)>) -> Result<(), Status> {
        let ctx = self.active;
        {
            let s = self.stream().ok_or(Status::BadArgument)?;
            if let Some(h) = &s.refused_header {
                if m.iter().any(|(k, _)| k.eq_ignore_ascii_case(h)) {
                    return Err(Status::InternalFailure);
                }
            }
            match t {
                MapType::HttpRequestHeaders => {
                    if s.set_map_fails {
                        return Err(Status::InternalFailure);
                    }
                    s.req_headers = lower(&m)
                }
                MapType::HttpResponseHeaders if s.phase == Phase::Request => return Err(Status::BadArgument),
                MapType::HttpResponseHeaders => {
                    if s.set_map_fails {
                        return Err(Status::InternalFailure);
                    }
                    s.resp_headers = lower(&m)
                }
                _ => return Err(Status::BadArgument),
            }
        }
        self.ev(ctx, Ev::SetMap(t, m));
        Ok(())
    }

    pub fn get_property(&mut self, path: &[&str]) -> Result<Option<Vec<u8>>, Status> {
        let s = self.stream().ok_or(Status::BadArgument)?;
        let key: Vec<String> = path.iter().map(|p| p.to_string()).collect();
        match s.props.get(&key) {
            None | Some(Prop::Absent) => Ok(None),
            Some(Prop::Val(v)) => Ok(Some(v.clone())),
            Some(Prop::InResponse(v)) => {
                if s.phase == Phase::Request {
                    Err(Status::BadArgument)
                } else {
                    Ok(Some(v.clone()))
                }
            }
            Some(Prop::Fail(st)) => Err(*st),
        }
    }

    pub fn set_property(&mut self, path: &[&str], value: Option<&[u8]>) -> Result<(), Status> {
        let ctx = self.active;
        let key: Vec<String> = path.iter().map(|p| p.to_string()).collect();
        {
            let s = self.stream().ok_or(Status::BadArgument)?;
            if s.set_prop_fails || s.refused_prop.as_ref().is_some_and(|p| *p == key.join(".")) {
                return Err(Status::InternalFailure);
            }
            // like Envoy: dynamic metadata exported by the filter is readable under
            // filter_state "wasm.<path>"
            let joined = key.join(".");
            s.props.insert(
                vec!["filter_state".into(), format!("wasm.{joined}")],
                value.map_or(Prop::Absent, |v| Prop::Val(v.to_vec())),
            );
        }
        self.ev(ctx, Ev::SetProp(key, value.map(|v| v.to_vec())));
        Ok(())
    }

    pub fn resume(&mut self, request: bool) -> Result<(), Status> {
        let c = self.active;
        self.ev(c, if request { Ev::ResumeReq } else { Ev::ResumeResp });
        Ok(())
    }

    pub fn send_reply(&mut self, status: u32, headers: &[(&str, &str)], body: Option<&[u8]>) -> Result<(), Status> {
        let c = self.active;
        let Some(s) = self.stream() else { return Err(Status::BadArgument) };
        if s.reply_fails {
            self.ev(c, Ev::ReplyRefused);
            return Err(Status::InternalFailure);
        }
        s.replied = true;
        self.ev(
            c,
            Ev::Reply {
                status,
                headers: headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
                body: body.map(|b| b.to_vec()),
            },
        );
        Ok(())
    }

    pub fn dispatch(
        &mut self,
        upstream: &str,
        service: &str,
        method: &str,
        md: &[(&str, &[u8])],
        message: Option<&[u8]>,
        timeout: Duration,
    ) -> Result<u32, Status> {
        let ctx = self.active;
        if let Some(st) = self.refuse.get(upstream).copied() {
            self.ev(ctx, Ev::CallRefused(upstream.into(), service.into(), method.into()));
            return Err(st);
        }
        let token = self.next_token;
        self.next_token += self.token_step;
        let in_response = self.stream().map_or(false, |s| s.phase == Phase::Response);
        let call = Call {
            token,
            ctx,
            upstream: upstream.into(),
            service: service.into(),
            method: method.into(),
            headers: md.iter().map(|(k, v)| (k.to_string(), v.to_vec())).collect(),
            message: message.unwrap_or(&[]).to_vec(),
            timeout,
            in_response,
        };
        self.ev(ctx, Ev::Call(call));
        Ok(token)
    }
}
