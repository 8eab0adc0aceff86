use crate::fw::Check;
pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(crate::c_pipe::all());
    v.extend(crate::c_route::all());
    v.extend(crate::c_cfg::all());
    v.extend(crate::c_rl::all());
    v.extend(crate::c_auth::all());
    v.extend(crate::c_msg::all());
    v.extend(crate::c_attr::all());
    v.extend(crate::c_body::all());
    v.extend(crate::c_desc::all());
    v.extend(crate::c_hdr::all());
    v.extend(crate::c_call::all());
    v.extend(crate::c_crash::all());
    v.extend(crate::c_trace::all());
    v.extend(crate::c_iso::all());
    v.extend(crate::c_root::all());
    v
}
