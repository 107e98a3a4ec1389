//! The same data through every way the two serialisation formats read it:
//! borrowed text, bytes, a reader that delivers a few bytes at a time, text
//! with escapes and blanks, an already parsed tree; and every way they write.
use bincode::Options;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::io::Read;

/// A reader that hands out at most `step` bytes per call.
pub struct Drip<'a> {
    pub data: &'a [u8],
    pub step: usize,
}
impl Read for Drip<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.step.max(1).min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// JSON text with the first character of every string written as an escape.
pub fn escaped(json: &str) -> String {
    let mut out = String::from(" \n\t");
    let (mut inside, mut first) = (false, false);
    for ch in json.chars() {
        if ch == '"' {
            inside = !inside;
            first = inside;
            out.push(ch);
        } else if inside && first {
            out += &format!("\\u{:04x}", ch as u32);
            first = false;
        } else {
            out.push(ch);
        }
    }
    out + "  "
}

pub fn from_json<T: DeserializeOwned>(json: &str, step: usize) -> Vec<(&'static str, Option<T>)> {
    vec![
        ("from_slice", serde_json::from_slice(json.as_bytes()).ok()),
        ("from_reader", serde_json::from_reader(Drip { data: json.as_bytes(), step }).ok()),
        ("escaped text", serde_json::from_str(&escaped(json)).ok()),
        ("parsed tree", serde_json::from_str::<serde_json::Value>(json).ok().and_then(|v| serde_json::from_value(v).ok())),
        ("in a list", serde_json::from_str::<Vec<T>>(&format!("[{json}]")).ok().and_then(|mut v| if v.len() == 1 { v.pop() } else { None })),
        ("optional", serde_json::from_str::<Option<T>>(json).ok().flatten()),
    ]
}

pub fn from_binary<T: DeserializeOwned>(data: &[u8], step: usize) -> Vec<(&'static str, Option<T>)> {
    let list = [&1u64.to_le_bytes()[..], data].concat();
    vec![
        ("deserialize_from", bincode::deserialize_from(Drip { data, step }).ok()),
        ("varint, big endian", bincode::DefaultOptions::new().with_big_endian().deserialize(data).ok()),
        ("in a list", bincode::deserialize::<Vec<T>>(&list).ok().and_then(|mut v| if v.len() == 1 { v.pop() } else { None })),
    ]
}

/// (name, bytes, expected bytes) of each way to write.
pub fn to_all<T: Serialize>(x: &T, json: &str, bin: &[u8]) -> Vec<(&'static str, Vec<u8>, Vec<u8>)> {
    let mut w = vec![];
    serde_json::to_writer(&mut w, x).unwrap();
    let mut b = vec![];
    bincode::serialize_into(&mut b, x).unwrap();
    let tree = serde_json::to_value(x).unwrap();
    let want: serde_json::Value = serde_json::from_str(json).unwrap();
    vec![
        ("to_vec", serde_json::to_vec(x).unwrap(), json.into()),
        ("to_writer", w, json.into()),
        ("to_value", tree.to_string().into(), want.to_string().into()),
        ("pair", serde_json::to_vec(&(x, x)).unwrap(), format!("[{json},{json}]").into()),
        ("serialize_into", b, bin.to_vec()),
        ("varint, big endian", bincode::DefaultOptions::new().with_big_endian().serialize(x).unwrap(), bin.to_vec()),
        ("size", bincode::serialized_size(x).unwrap().to_string().into(), bin.len().to_string().into()),
    ]
}

/// Texts that are not the hexadecimal form of `len` bytes, made from one that is.
pub fn malformed(hex: &str, at: usize) -> Vec<String> {
    let n = hex.len();
    let at = at % n;
    let with = |c: &str| format!("{}{c}{}", &hex[..at], &hex[at + 1..]);
    vec![
        format!("0x{hex}"),
        format!("0x{}", &hex[2..]),
        format!(" {hex}"),
        format!("{hex} "),
        format!("{hex}\\n"),
        format!("+{}", &hex[1..]),
        format!("-{}", &hex[1..]),
        format!("{}_{}", &hex[..at], &hex[at..]),
        hex[1..].to_string(),
        format!("0{hex}"),
        format!("{hex}0"),
        format!("00{hex}"),
        format!("{hex}00"),
        hex[2..].to_string(),
        hex[..n - 2].to_string(),
        with("g"),
        with("G"),
        with(" "),
        with("/"),
        with(":"),
        with("@"),
        with("`"),
        with("."),
        with("\u{e9}"),
        with("\u{ff11}"),
        String::new(),
        "0".to_string(),
    ]
}
