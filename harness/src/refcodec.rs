//! Independent implementation of the wire format (SPECIFICATON.md, with the event type byte that the format has
//! since 0.9), used as the reference for what endpoints write and accept.
use serde::{Deserialize, Serialize};

pub const INITIATOR: u8 = 0;
pub const RESPONSE: u8 = 1;
pub const END: u8 = 2;
pub const ERROR: u8 = 3;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Frame {
    pub id: u64,
    pub ty: u8,
    pub ref_id: Option<u64>,
    pub ns: Option<String>,
    pub name: String,
    pub data: Vec<u8>,
}

impl Frame {
    pub fn new(id: u64, ty: u8, ref_id: Option<u64>, ns: Option<&str>, name: &str, data: Vec<u8>) -> Self {
        Self { id, ty, ref_id, ns: ns.map(|s| s.to_string()), name: name.to_string(), data }
    }

    pub fn header(&self) -> Vec<u8> {
        header_raw(
            [0, 9, 0],
            self.id,
            self.ty,
            self.ref_id,
            None,
            self.ns.as_deref().unwrap_or("").as_bytes(),
            None,
            self.name.as_bytes(),
            None,
        )
    }

    pub fn encode(&self) -> Vec<u8> {
        frame_raw(&self.header(), &self.data, None, None)
    }

    pub fn short(&self) -> String {
        format!(
            "{{id {} type {} ref {:?} ns {:?} name {:.40?} data {}B}}",
            self.id, self.ty, self.ref_id, self.ns, self.name, self.data.len()
        )
    }
}

/// Header bytes with any field overridden
#[allow(clippy::too_many_arguments)]
pub fn header_raw(
    version: [u8; 3],
    id: u64,
    ty: u8,
    ref_id: Option<u64>,
    ref_flag: Option<u8>,
    ns: &[u8],
    ns_len: Option<u16>,
    name: &[u8],
    name_len: Option<u16>,
) -> Vec<u8> {
    let mut h = Vec::new();
    h.extend_from_slice(&version);
    h.extend_from_slice(&id.to_be_bytes());
    h.push(ty);
    h.push(ref_flag.unwrap_or(if ref_id.is_some() { 0xFF } else { 0 }));
    if let Some(r) = ref_id {
        h.extend_from_slice(&r.to_be_bytes());
    }
    h.extend_from_slice(&ns_len.unwrap_or(ns.len() as u16).to_be_bytes());
    h.extend_from_slice(ns);
    h.extend_from_slice(&name_len.unwrap_or(name.len() as u16).to_be_bytes());
    h.extend_from_slice(name);
    h
}

pub fn frame_raw(header: &[u8], data: &[u8], total: Option<u64>, header_len: Option<u16>) -> Vec<u8> {
    let mut out = Vec::with_capacity(10 + header.len() + data.len());
    out.extend_from_slice(&total.unwrap_or((header.len() + data.len()) as u64).to_be_bytes());
    out.extend_from_slice(&header_len.unwrap_or(header.len() as u16).to_be_bytes());
    out.extend_from_slice(header);
    out.extend_from_slice(data);
    out
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// the event and the number of bytes it takes
    Event(Frame, usize),
    /// the bytes end within the event
    Incomplete,
    /// other major version
    Unsupported([u8; 3]),
    /// anything else that the format does not allow
    Corrupt(&'static str),
}

struct Cur<'a>(&'a [u8]);

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u64(&mut self) -> Option<u64> {
        self.take(8).map(|b| u64::from_be_bytes(b.try_into().unwrap()))
    }
    fn u16(&mut self) -> Option<u16> {
        self.take(2).map(|b| u16::from_be_bytes(b.try_into().unwrap()))
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }
}

/// Decodes the first event of `bytes`.
pub fn decode(bytes: &[u8]) -> Verdict {
    let mut c = Cur(bytes);
    let (total, header_len) = match (c.u64(), c.u16()) {
        (Some(t), Some(h)) => (t, h),
        _ => return Verdict::Incomplete,
    };
    if total < header_len as u64 {
        return Verdict::Corrupt("total length below header length");
    }
    let header = match c.take(header_len as usize) {
        Some(h) => h,
        None => return Verdict::Incomplete,
    };
    let (id, ty, ref_id, ns, name) = match decode_header(header) {
        Ok(h) => h,
        Err(v) => return v,
    };
    let data_len = total - header_len as u64;
    if data_len > c.0.len() as u64 {
        return Verdict::Incomplete;
    }
    let data = c.take(data_len as usize).unwrap().to_vec();
    Verdict::Event(Frame { id, ty, ref_id, ns, name, data }, 10 + total as usize)
}

type Header = (u64, u8, Option<u64>, Option<String>, String);

fn decode_header(header: &[u8]) -> Result<Header, Verdict> {
    const SHORT: Verdict = Verdict::Corrupt("header too short for its fields");
    let mut c = Cur(header);
    let version: [u8; 3] = c.take(3).ok_or(SHORT)?.try_into().unwrap();
    if version[0] != 0 {
        return Err(Verdict::Unsupported(version));
    }
    let id = c.u64().ok_or(SHORT)?;
    let ty = c.u8().ok_or(SHORT)?;
    if ty > 3 {
        return Err(Verdict::Corrupt("unknown event type"));
    }
    let ref_id = match c.u8().ok_or(SHORT)? {
        0 => None,
        0xFF => Some(c.u64().ok_or(SHORT)?),
        _ => return Err(Verdict::Corrupt("bad reference id indicator")),
    };
    let text = |b: &[u8]| String::from_utf8(b.to_vec()).map_err(|_| Verdict::Corrupt("text is not UTF-8"));
    let ns_len = c.u16().ok_or(SHORT)?;
    let ns = text(c.take(ns_len as usize).ok_or(SHORT)?)?;
    let name_len = c.u16().ok_or(SHORT)?;
    let name = text(c.take(name_len as usize).ok_or(SHORT)?)?;
    Ok((id, ty, ref_id, if ns_len == 0 { None } else { Some(ns) }, name))
}

/// Splits a complete byte log into its events.
pub fn decode_all(mut bytes: &[u8]) -> Result<(Vec<Frame>, usize), String> {
    let mut out = Vec::new();
    while !bytes.is_empty() {
        match decode(bytes) {
            Verdict::Event(f, n) => {
                bytes = &bytes[n..];
                out.push(f)
            }
            Verdict::Incomplete => return Ok((out, bytes.len())),
            v => return Err(format!("the connection carries something that is not an event after {} events: {v:?}", out.len())),
        }
    }
    Ok((out, 0))
}
