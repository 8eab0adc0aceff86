//! A tiny protobuf wire reader/writer, independent of the code under test.
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Varint(u64),
    I64(u64),
    Len(Vec<u8>),
    I32(u32),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Msg(pub Vec<(u32, W)>);

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

impl Msg {
    pub fn new() -> Self {
        Msg(vec![])
    }
    pub fn v(mut self, f: u32, v: u64) -> Self {
        self.0.push((f, W::Varint(v)));
        self
    }
    pub fn s(mut self, f: u32, s: &str) -> Self {
        self.0.push((f, W::Len(s.as_bytes().to_vec())));
        self
    }
    pub fn b(mut self, f: u32, s: &[u8]) -> Self {
        self.0.push((f, W::Len(s.to_vec())));
        self
    }
    pub fn m(mut self, f: u32, m: Msg) -> Self {
        self.0.push((f, W::Len(m.encode())));
        self
    }
    pub fn d(mut self, f: u32, v: f64) -> Self {
        self.0.push((f, W::I64(v.to_bits())));
        self
    }
    pub fn fixed64(mut self, f: u32, v: u64) -> Self {
        self.0.push((f, W::I64(v)));
        self
    }
    pub fn fixed32(mut self, f: u32, v: u32) -> Self {
        self.0.push((f, W::I32(v)));
        self
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        for (f, w) in &self.0 {
            let t = match w {
                W::Varint(_) => 0,
                W::I64(_) => 1,
                W::Len(_) => 2,
                W::I32(_) => 5,
            };
            put_varint(&mut o, ((*f as u64) << 3) | t);
            match w {
                W::Varint(v) => put_varint(&mut o, *v),
                W::I64(v) => o.extend(v.to_le_bytes()),
                W::I32(v) => o.extend(v.to_le_bytes()),
                W::Len(b) => {
                    put_varint(&mut o, b.len() as u64);
                    o.extend(b);
                }
            }
        }
        o
    }
    pub fn decode(b: &[u8]) -> Option<Msg> {
        let mut p = 0;
        let mut out = vec![];
        fn vi(b: &[u8], p: &mut usize) -> Option<u64> {
            let mut r = 0u64;
            let mut s = 0;
            loop {
                let x = *b.get(*p)?;
                *p += 1;
                if s >= 64 {
                    return None;
                }
                r |= ((x & 0x7f) as u64) << s;
                s += 7;
                if x & 0x80 == 0 {
                    return Some(r);
                }
            }
        }
        while p < b.len() {
            let k = vi(b, &mut p)?;
            let f = (k >> 3) as u32;
            let w = match k & 7 {
                0 => W::Varint(vi(b, &mut p)?),
                1 => {
                    let v = b.get(p..p + 8)?;
                    p += 8;
                    W::I64(u64::from_le_bytes(v.try_into().ok()?))
                }
                2 => {
                    let n = vi(b, &mut p)? as usize;
                    let v = b.get(p..p.checked_add(n)?)?;
                    p += n;
                    W::Len(v.to_vec())
                }
                5 => {
                    let v = b.get(p..p + 4)?;
                    p += 4;
                    W::I32(u32::from_le_bytes(v.try_into().ok()?))
                }
                _ => return None,
            };
            out.push((f, w));
        }
        Some(Msg(out))
    }
    pub fn all(&self, f: u32) -> Vec<&W> {
        self.0.iter().filter(|x| x.0 == f).map(|x| &x.1).collect()
    }
    pub fn last(&self, f: u32) -> Option<&W> {
        self.all(f).last().copied()
    }
    pub fn get_v(&self, f: u32) -> u64 {
        match self.last(f) {
            Some(W::Varint(v)) => *v,
            _ => 0,
        }
    }
    pub fn get_s(&self, f: u32) -> String {
        match self.last(f) {
            Some(W::Len(b)) => String::from_utf8_lossy(b).into_owned(),
            _ => String::new(),
        }
    }
    pub fn get_m(&self, f: u32) -> Option<Msg> {
        match self.last(f) {
            Some(W::Len(b)) => Msg::decode(b),
            _ => None,
        }
    }
    pub fn msgs(&self, f: u32) -> Vec<Msg> {
        self.all(f)
            .into_iter()
            .filter_map(|w| match w {
                W::Len(b) => Msg::decode(b),
                _ => None,
            })
            .collect()
    }
    pub fn strs(&self, f: u32) -> Vec<String> {
        self.all(f)
            .into_iter()
            .filter_map(|w| match w {
                W::Len(b) => Some(String::from_utf8_lossy(b).into_owned()),
                _ => None,
            })
            .collect()
    }
    pub fn has(&self, f: u32) -> bool {
        self.last(f).is_some()
    }
}
