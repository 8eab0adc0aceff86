use crate::sim::{self, Ev};
use crate::types::*;
use std::time::{Duration, SystemTime};

type R<T> = Result<T, Status>;

pub fn log(level: LogLevel, message: &str) -> R<()> {
    sim::with(|s| s.log(level, message));
    Ok(())
}
pub fn get_log_level() -> R<LogLevel> {
    sim::with(|s| s.log_level)
}
pub fn get_current_time() -> R<SystemTime> {
    Ok(SystemTime::now())
}
pub fn set_tick_period(period: Duration) -> R<()> {
    sim::with(|s| {
        let ctx = s.active;
        s.tick_period = period;
        s.ev(ctx, Ev::TickPeriod(period));
        Ok(())
    })
}
pub fn get_buffer(buffer_type: BufferType, start: usize, max_size: usize) -> R<Option<Bytes>> {
    sim::with(|s| s.get_buffer(buffer_type, start, max_size))
}
pub fn set_buffer(buffer_type: BufferType, start: usize, size: usize, value: &[u8]) -> R<()> {
    sim::with(|s| s.set_buffer(buffer_type, start, size, value))
}
pub fn get_map(map_type: MapType) -> R<Vec<(String, String)>> {
    sim::with(|s| s.get_map(map_type))
}
pub fn get_map_bytes(map_type: MapType) -> R<Vec<(String, Bytes)>> {
    Ok(get_map(map_type)?.into_iter().map(|(k, v)| (k, v.into_bytes())).collect())
}
pub fn set_map(map_type: MapType, map: Vec<(&str, &str)>) -> R<()> {
    let m = map.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    sim::with(|s| s.set_map(map_type, m))
}
pub fn set_map_bytes(map_type: MapType, map: Vec<(&str, &[u8])>) -> R<()> {
    let m = map.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v).into_owned())).collect();
    sim::with(|s| s.set_map(map_type, m))
}
pub fn get_map_value(map_type: MapType, key: &str) -> R<Option<String>> {
    sim::with(|s| s.get_map_value(map_type, key))
}
pub fn get_map_value_bytes(map_type: MapType, key: &str) -> R<Option<Bytes>> {
    Ok(get_map_value(map_type, key)?.map(String::into_bytes))
}
pub fn remove_map_value(map_type: MapType, key: &str) -> R<()> {
    sim::with(|s| {
        let mut m = s.get_map(map_type)?;
        m.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
        s.set_map(map_type, m)
    })
}
pub fn set_map_value(map_type: MapType, key: &str, value: Option<&str>) -> R<()> {
    sim::with(|s| {
        let mut m = s.get_map(map_type)?;
        m.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
        if let Some(v) = value {
            m.push((key.to_string(), v.to_string()));
        }
        s.set_map(map_type, m)
    })
}
pub fn set_map_value_bytes(map_type: MapType, key: &str, value: Option<&[u8]>) -> R<()> {
    let v = value.map(|v| String::from_utf8_lossy(v).into_owned());
    set_map_value(map_type, key, v.as_deref())
}
pub fn add_map_value(map_type: MapType, key: &str, value: &str) -> R<()> {
    sim::with(|s| {
        let mut m = s.get_map(map_type)?;
        m.push((key.to_string(), value.to_string()));
        s.set_map(map_type, m)
    })
}
pub fn add_map_value_bytes(map_type: MapType, key: &str, value: &[u8]) -> R<()> {
    add_map_value(map_type, key, &String::from_utf8_lossy(value))
}
pub fn get_property(path: Vec<&str>) -> R<Option<Bytes>> {
    sim::with(|s| s.get_property(&path))
}
pub fn set_property(path: Vec<&str>, value: Option<&[u8]>) -> R<()> {
    sim::with(|s| s.set_property(&path, value))
}
pub fn resume_downstream() -> R<()> {
    Err(Status::BadArgument)
}
pub fn resume_upstream() -> R<()> {
    Err(Status::BadArgument)
}
pub fn close_downstream() -> R<()> {
    Err(Status::BadArgument)
}
pub fn close_upstream() -> R<()> {
    Err(Status::BadArgument)
}
pub fn resume_http_request() -> R<()> {
    sim::with(|s| s.resume(true))
}
pub fn resume_http_response() -> R<()> {
    sim::with(|s| s.resume(false))
}
pub fn reset_http_request() -> R<()> {
    sim::with(|s| {
        let c = s.active;
        s.ev(c, Ev::Reset);
        Ok(())
    })
}
pub fn reset_http_response() -> R<()> {
    reset_http_request()
}
pub fn send_http_response(status_code: u32, headers: Vec<(&str, &str)>, body: Option<&[u8]>) -> R<()> {
    sim::with(|s| s.send_reply(status_code, &headers, body))
}
pub fn send_grpc_response(
    grpc_status: GrpcStatusCode,
    _grpc_status_message: Option<&str>,
    _custom_metadata: Vec<(&str, &[u8])>,
) -> R<()> {
    sim::with(|s| s.send_reply(10_000 + grpc_status as u32, &[], None))
}
pub fn dispatch_grpc_call(
    upstream_name: &str,
    service_name: &str,
    method_name: &str,
    initial_metadata: Vec<(&str, &[u8])>,
    message: Option<&[u8]>,
    timeout: Duration,
) -> R<u32> {
    sim::with(|s| s.dispatch(upstream_name, service_name, method_name, &initial_metadata, message, timeout))
}
pub fn cancel_grpc_call(token_id: u32) -> R<()> {
    sim::with(|s| {
        let c = s.active;
        s.ev(c, Ev::Cancel(token_id));
        Ok(())
    })
}
pub fn get_grpc_status() -> R<(u32, Option<String>)> {
    Ok((0, None))
}
pub fn done() -> R<()> {
    Ok(())
}
pub fn define_metric(_metric_type: MetricType, name: &str) -> R<u32> {
    Ok(sim::define_metric(name))
}
pub fn get_metric(metric_id: u32) -> R<u64> {
    sim::with(|s| Ok(*s.metrics.get(&metric_id).unwrap_or(&0) as u64))
}
pub fn record_metric(metric_id: u32, value: u64) -> R<()> {
    sim::with(|s| {
        s.metrics.insert(metric_id, value as i64);
    });
    Ok(())
}
pub fn increment_metric(metric_id: u32, offset: i64) -> R<()> {
    sim::with(|s| {
        *s.metrics.entry(metric_id).or_insert(0) += offset;
        let c = s.active;
        s.ev(c, Ev::Metric(metric_id, offset));
    });
    Ok(())
}
