//! Application configuration parameters ([UCI] 8.3): formats and defaults.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Enum(&'static [u8]),
    Bytes(usize),
    /// 4 or 8 bytes, read back as 8.
    Time,
    AnyBytes,
    /// Empty when unset, 16 or 32 bytes.
    SubKey,
    DeviceMac,
    DstMac,
}
use Kind::*;

pub struct Param {
    pub id: u8,
    pub kind: Kind,
    /// Value before any set command; None: mandatory or optional without default.
    pub default: Option<&'static [u8]>,
}

const fn p(id: u8, kind: Kind, default: Option<&'static [u8]>) -> Param {
    Param { id, kind, default }
}

pub const DEVICE_TYPE: u8 = 0x00;
pub const RR_USAGE: u8 = 0x01;
pub const STS: u8 = 0x02;
pub const MULTI: u8 = 0x03;
pub const NCTRL: u8 = 0x05;
pub const DEV_MAC: u8 = 0x06;
pub const DST_MAC: u8 = 0x07;
pub const INTERVAL: u8 = 0x09;
pub const AOA: u8 = 0x0d;
pub const INFO_NTF: u8 = 0x0e;
pub const ROLE: u8 = 0x11;
pub const SCHED: u8 = 0x22;
pub const MAC_MODE: u8 = 0x26;
pub const ATTEMPTS: u8 = 0x2f;

pub const MANDATORY: &[u8] = &[ROLE, MULTI, RR_USAGE, DEV_MAC, SCHED];

pub const PARAMS: &[Param] = &[
    p(DEVICE_TYPE, Enum(&[0, 1]), None),
    p(RR_USAGE, Enum(&[1, 2, 3, 4, 5, 6, 7, 8]), None),
    p(STS, Enum(&[0, 1, 2, 3, 4]), Some(&[0])),
    p(MULTI, Enum(&[0, 1]), None),
    p(0x04, Enum(&[5, 6, 8, 9, 10, 12, 13, 14]), Some(&[9])),
    p(NCTRL, Bytes(1), Some(&[1])),
    p(DEV_MAC, DeviceMac, None),
    p(DST_MAC, DstMac, Some(&[])),
    p(0x08, Bytes(2), Some(&[0x60, 0x09])),
    p(INTERVAL, Bytes(4), Some(&[200, 0, 0, 0])),
    p(0x0a, Bytes(4), Some(&[0, 0, 0, 0])),
    p(0x0b, Enum(&[0, 1]), Some(&[0])),
    p(0x0c, Bytes(1), Some(&[6])),
    p(AOA, Enum(&[0, 1, 2, 3]), Some(&[1])),
    p(INFO_NTF, Enum(&[0, 1, 2, 3, 4, 5, 6, 7]), Some(&[1])),
    p(0x0f, Bytes(2), Some(&[0, 0])),
    p(0x10, Bytes(2), Some(&[0x20, 0x4e])),
    p(ROLE, Enum(&[0, 1, 5, 6, 7, 8]), None),
    p(0x12, Enum(&[0, 1, 3]), Some(&[3])),
    p(0x13, Enum(&[0, 1]), Some(&[0])),
    p(0x14, Bytes(1), Some(&[10])),
    p(0x15, Bytes(1), Some(&[2])),
    p(0x16, Enum(&[0, 1, 2, 3]), Some(&[0])),
    p(0x17, Enum(&[0, 1]), Some(&[1])),
    p(0x18, Enum(&[0]), Some(&[0])),
    p(0x19, Bytes(1), Some(&[0])),
    p(0x1a, Enum(&[1]), Some(&[1])),
    p(0x1b, Bytes(1), Some(&[25])),
    p(0x1d, Bytes(8), Some(&[0; 8])),
    p(0x1f, Enum(&[0, 1, 2]), Some(&[0])),
    p(0x20, Bytes(2), Some(&[24, 5])),
    p(0x21, Bytes(1), Some(&[0])),
    p(SCHED, Enum(&[0, 1]), None),
    p(0x23, Enum(&[0, 1]), Some(&[0])),
    p(0x24, Bytes(1), Some(&[0])),
    p(0x25, Bytes(1), Some(&[50])),
    p(MAC_MODE, Enum(&[0, 1, 2]), Some(&[0])),
    p(0x27, Bytes(2), Some(&[0, 0])),
    p(0x28, Bytes(6), Some(&[0; 6])),
    p(0x29, Bytes(1), Some(&[1])),
    p(0x2a, Bytes(2), Some(&[0, 0])),
    p(0x2b, Time, Some(&[0; 8])),
    p(0x2c, Enum(&[0, 1]), Some(&[0])),
    p(0x2d, Bytes(1), Some(&[0])),
    p(0x2e, Bytes(1), Some(&[1])),
    p(ATTEMPTS, Bytes(1), Some(&[1])),
    p(0x30, Bytes(4), Some(&[0; 4])),
    p(0x31, Enum(&[0, 1]), Some(&[0])),
    p(0x32, Bytes(2), Some(&[0, 0])),
    p(0x35, Enum(&[0, 1, 2]), Some(&[1])),
    p(0x3a, Bytes(1), Some(&[4])),
    p(0x3b, Bytes(2), Some(&[0, 0])),
    p(0x3c, Bytes(1), Some(&[1])),
    p(0x45, AnyBytes, Some(&[])),
    p(0x46, SubKey, Some(&[])),
    p(0x47, Enum(&[0, 1]), Some(&[0])),
    p(0x48, Bytes(9), Some(&[0; 9])),
    p(0x4c, Bytes(1), Some(&[0])),
];

/// Identifiers that the grammar can name at all; a command with another one is
/// malformed.
pub fn nameable(id: u8) -> bool {
    !matches!(id, 0x1c | 0x1e | 0x33 | 0x34 | 0x36..=0x39)
}

pub fn param(id: u8) -> Option<&'static Param> {
    PARAMS.iter().find(|p| p.id == id)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    /// Values in PARAMS order, as read back.
    values: Vec<Option<Vec<u8>>>,
    pub dst: Vec<Vec<u8>>,
}

fn index(id: u8) -> Option<usize> {
    PARAMS.iter().position(|p| p.id == id)
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { values: PARAMS.iter().map(|p| p.default.map(|d| d.to_vec())).collect(), dst: vec![] }
    }
}

impl Cfg {
    pub fn get(&self, id: u8) -> Option<Vec<u8>> {
        if id == DST_MAC {
            return Some(self.dst.concat());
        }
        self.values[index(id)?].clone()
    }
    pub fn byte(&self, id: u8) -> Option<u8> {
        self.get(id).and_then(|v| v.first().copied())
    }
    fn put(&mut self, id: u8, v: Vec<u8>) {
        let i = index(id).unwrap();
        self.values[i] = Some(v)
    }
    /// False when the value is refused.
    pub fn set(&mut self, id: u8, v: &[u8]) -> bool {
        let Some(p) = param(id) else { return false };
        match p.kind {
            Enum(ok) => {
                if v.len() != 1 || !ok.contains(&v[0]) {
                    return false;
                }
                self.put(id, v.to_vec())
            }
            Bytes(n) => {
                if v.len() != n {
                    return false;
                }
                self.put(id, v.to_vec())
            }
            Time => {
                if v.len() != 4 && v.len() != 8 {
                    return false;
                }
                let mut v = v.to_vec();
                v.resize(8, 0);
                self.put(id, v)
            }
            AnyBytes => self.put(id, v.to_vec()),
            SubKey => {
                if v.len() != 16 && v.len() != 32 {
                    return false;
                }
                self.put(id, v.to_vec())
            }
            DeviceMac => {
                if Some(v.len()) != self.mac_len() {
                    return false;
                }
                self.put(id, v.to_vec())
            }
            DstMac => {
                let Some(l) = self.mac_len() else { return false };
                if v.len() != l * self.byte(NCTRL).unwrap() as usize {
                    return false;
                }
                self.dst = v.chunks(l).map(|c| c.to_vec()).collect();
            }
        }
        true
    }
    fn mac_len(&self) -> Option<usize> {
        match self.byte(MAC_MODE).unwrap() {
            0 => Some(2),
            2 => Some(8),
            _ => None,
        }
    }
    pub fn complete(&self) -> bool {
        MANDATORY.iter().all(|id| self.get(*id).is_some())
    }
    pub fn set_dst(&mut self, dst: Vec<Vec<u8>>) {
        self.put(NCTRL, vec![dst.len() as u8]);
        self.dst = dst;
    }
    pub fn mac(&self) -> Vec<u8> {
        self.get(DEV_MAC).unwrap_or_default()
    }
    pub fn interval_ms(&self) -> u64 {
        u32::from_le_bytes(self.get(INTERVAL).unwrap().try_into().unwrap()) as u64
    }
    /// The parameters that read back without failing.
    pub fn readable(&self) -> Vec<u8> {
        PARAMS.iter().map(|p| p.id).filter(|id| self.get(*id).is_some()).collect()
    }
}
