//! Stand-in for the proxy-wasm SDK (the Kuadrant fork, whose trait methods return `Result`).
//! Every host call lands in [`sim`], a simulated Envoy-like host.
#![allow(clippy::all)]
pub mod hostcalls;
pub mod sim;
pub mod traits;
pub mod types;

#[macro_export]
macro_rules! main {
    ($code:block) => {
        pub extern "C" fn _initialize() {
            $code;
        }
    };
}

struct Logger;
static LOGGER: Logger = Logger;
/// Like the real SDK: installs the `log` back end.
pub fn set_log_level(_level: types::LogLevel) {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
}
impl log::Log for Logger {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() <= log::max_level()
    }
    fn log(&self, r: &log::Record) {
        let level = match r.level() {
            log::Level::Trace => types::LogLevel::Trace,
            log::Level::Debug => types::LogLevel::Debug,
            log::Level::Info => types::LogLevel::Info,
            log::Level::Warn => types::LogLevel::Warn,
            log::Level::Error => types::LogLevel::Error,
        };
        let _ = hostcalls::log(level, &r.args().to_string());
    }
    fn flush(&self) {}
}
pub fn set_root_context(callback: types::NewRootContext) {
    sim::with(|s| s.new_root = Some(callback));
}
pub fn set_stream_context(_callback: types::NewStreamContext) {}
pub fn set_http_context(callback: types::NewHttpContext) {
    sim::with(|s| s.new_http = Some(callback));
}
