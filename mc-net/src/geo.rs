//! Poses and what one device measures of another, in double precision.
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Pose {
    pub x: i16,
    pub y: i16,
    pub z: i16,
    pub yaw: i16,
    pub pitch: i8,
    pub roll: i16,
}

pub type Mat = [[f64; 3]; 3];

fn mul(a: &Mat, b: &Mat) -> Mat {
    let mut r = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum()
        }
    }
    r
}

impl Pose {
    pub fn at(x: i16, y: i16, z: i16) -> Pose {
        Pose { x, y, z, ..Default::default() }
    }
    pub fn new(x: i16, y: i16, z: i16, yaw: i16, pitch: i8, roll: i16) -> Pose {
        Pose { x, y, z, yaw, pitch, roll }
    }
    pub fn json(&self) -> Value {
        json!({"x": self.x, "y": self.y, "z": self.z, "yaw": self.yaw, "pitch": self.pitch, "roll": self.roll})
    }
    pub fn body(&self) -> Vec<u8> {
        self.json().to_string().into_bytes()
    }
    /// The pose in a JSON object.
    pub fn read(v: &Value) -> Option<Pose> {
        let n = |k: &str| v.get(k).and_then(|n| n.as_i64());
        Some(Pose {
            x: n("x")?.try_into().ok()?,
            y: n("y")?.try_into().ok()?,
            z: n("z")?.try_into().ok()?,
            yaw: n("yaw")?.try_into().ok()?,
            pitch: n("pitch")?.try_into().ok()?,
            roll: n("roll")?.try_into().ok()?,
        })
    }
    /// Yaw about y, then pitch about x, then roll about z.
    pub fn rotation(&self) -> Mat {
        let (sy, cy) = (self.yaw as f64).to_radians().sin_cos();
        let (sp, cp) = (self.pitch as f64).to_radians().sin_cos();
        let (sr, cr) = (self.roll as f64).to_radians().sin_cos();
        let ry = [[cy, 0., sy], [0., 1., 0.], [-sy, 0., cy]];
        let rx = [[1., 0., 0.], [0., cp, -sp], [0., sp, cp]];
        let rz = [[cr, -sr, 0.], [sr, cr, 0.], [0., 0., 1.]];
        mul(&rz, &mul(&rx, &ry))
    }
    /// Whether `read` is how this pose reads back: the same coordinates, and
    /// angles that describe the same rotation. Integer angles are exact, but
    /// looking straight up or down yaw and roll turn about the same axis: the
    /// total turn may be split in two fractional angles, each rounded.
    pub fn reads_back(&self, read: &Pose) -> bool {
        if (self.x, self.y, self.z) != (read.x, read.y, read.z) {
            return false;
        }
        let (a, b) = (self.rotation(), read.rotation());
        let trace: f64 = (0..3).map(|i| (0..3).map(|k| a[k][i] * b[k][i]).sum::<f64>()).sum();
        ((trace - 1.) / 2.).clamp(-1., 1.).acos().to_degrees() <= if self.pitch.abs() == 90 { 1.1 } else { 0.1 }
    }
}

/// Range, azimuth and elevation.
pub type Measure = (u16, i16, i8);

/// What `a` measures of `b`, before rounding: distance, direction.
fn exact(rot: &Mat, a: &Pose, b: &Pose) -> (f64, [f64; 3]) {
    let d = [b.x as f64 - a.x as f64, b.y as f64 - a.y as f64, b.z as f64 - a.z as f64];
    let dist = d.iter().map(|c| c * c).sum::<f64>().sqrt();
    let mut v = [0.; 3];
    for i in 0..3 {
        v[i] = (0..3).map(|k| rot[i][k] * d[k]).sum()
    }
    (dist, v)
}

/// Relative error of single-precision coordinates.
const EPS: f64 = 3e-7;

/// Whether a measurement of `b` by `a`, with rotation `rot`, is the geometry's.
pub fn agrees(rot: &Mat, a: &Pose, b: &Pose, m: Measure) -> bool {
    let (dist, v) = exact(rot, a, b);
    let lo = (dist * (1. - EPS)).min(65535.).floor();
    let hi = (dist * (1. + EPS)).min(65535.).floor();
    if (m.0 as f64) < lo || m.0 as f64 > hi {
        return false;
    }
    if !(-180..=180).contains(&m.1) || !(-90..=90).contains(&m.2) {
        return false;
    }
    // Two devices at one place have no direction.
    if dist == 0. {
        return true;
    }
    let u = [v[0] / dist, v[1] / dist, v[2] / dist];
    let flat = u[0].hypot(u[2]);
    let el = u[1].atan2(flat).to_degrees();
    if (m.2 as f64 - el).abs() > 0.5 + 1e-3 + if flat < 1e-2 { 0.05 } else { 0. } {
        return false;
    }
    // Straight up or down: no azimuth.
    if flat < 1e-4 {
        return true;
    }
    let az = u[0].atan2(u[2]).to_degrees();
    let slack = 0.5 + 1e-3 + (4. * EPS / flat).to_degrees();
    let diff = (m.1 as f64 - az).rem_euclid(360.);
    diff.min(360. - diff) <= slack
}

pub fn measures(a: &Pose, b: &Pose, m: Measure) -> bool {
    agrees(&a.rotation(), a, b, m)
}

/// The only allowed measurement, None when rounding leaves several.
pub fn unique(a: &Pose, b: &Pose) -> Option<Measure> {
    if a == b {
        return None;
    }
    let (dist, v) = exact(&a.rotation(), a, b);
    let el = v[1].atan2(v[0].hypot(v[2])).to_degrees();
    let az = v[0].atan2(v[2]).to_degrees();
    let tie = |x: f64| (x.abs().fract() - 0.5).abs() < 0.01;
    let near = dist.round();
    if tie(el) || tie(az) || v[0].hypot(v[2]) < 0.01 * dist || az.abs() > 179.4 || (near != dist && (near - dist).abs() < 0.05) {
        return None;
    }
    Some((dist.min(65535.).floor() as u16, az.round() as i16, el.round() as i8))
}
