//! Session configurations used by the alphabets.
use crate::cfg::*;
use crate::msg::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// An application configuration.
#[derive(Clone, Debug)]
pub struct C {
    pub role: u8,
    pub dt: u8,
    pub multi: u8,
    pub mac: Vec<u8>,
    pub dst: Vec<Vec<u8>>,
    pub interval: u32,
    pub extra: Vec<(u8, Vec<u8>)>,
}

pub const A: [u8; 2] = [0x0a, 0x0a];
pub const B: [u8; 2] = [0x0b, 0x0b];
pub const X: [u8; 2] = [0x0c, 0x01];
pub const Y: [u8; 2] = [0x0c, 0x02];
pub const Z: [u8; 2] = [0x0c, 0x03];
pub const EA: [u8; 8] = [0xa0, 1, 2, 3, 4, 5, 6, 7];
pub const EB: [u8; 8] = [0xb0, 1, 2, 3, 4, 5, 6, 7];
/// Shares its first two bytes with A, and EA with EC.
pub const EC: [u8; 8] = [0x0a, 0x0a, 0, 0, 0, 0, 0, 0];

impl C {
    pub fn new(role: u8, dt: u8, mac: &[u8], dst: &[&[u8]]) -> C {
        C {
            role,
            dt,
            multi: 1,
            mac: mac.to_vec(),
            dst: dst.iter().map(|d| d.to_vec()).collect(),
            interval: 100,
            extra: vec![],
        }
    }
    /// Controller and initiator with address A.
    pub fn controller(dst: &[&[u8]]) -> C {
        C::new(1, 1, &A, dst)
    }
    /// Controlee and responder with address B.
    pub fn controlee(dst: &[&[u8]]) -> C {
        C::new(0, 0, &B, dst)
    }
    pub fn with(mut self, id: u8, v: &[u8]) -> C {
        self.extra.push((id, v.to_vec()));
        self
    }
    pub fn interval(mut self, ms: u32) -> C {
        self.interval = ms;
        self
    }
    pub fn multi(mut self, m: u8) -> C {
        self.multi = m;
        self
    }
    pub fn tlvs(&self) -> Vec<(u8, Vec<u8>)> {
        let mut v = vec![];
        if self.mac.len() == 8 {
            v.push((MAC_MODE, vec![2]))
        }
        v.push((DEVICE_TYPE, vec![self.dt]));
        v.push((ROLE, vec![self.role]));
        v.push((MULTI, vec![self.multi]));
        v.push((RR_USAGE, vec![2]));
        v.push((SCHED, vec![1]));
        v.push((DEV_MAC, self.mac.clone()));
        v.push((INTERVAL, self.interval.to_le_bytes().to_vec()));
        v.push((NCTRL, vec![self.dst.len() as u8]));
        v.push((DST_MAC, self.dst.concat()));
        v.extend(self.extra.iter().cloned());
        v
    }
    pub fn set(&self, s: u32) -> Vec<u8> {
        set_cfg(s, &self.tlvs())
    }
}

