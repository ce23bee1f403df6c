use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "spatial_distance", target: "spatial::distance", body: spatial_distance },
        Contract { name: "spatial_azimuth", target: "spatial::azimuth_and_elevation", body: spatial_azimuth },
        Contract { name: "spatial_azimuth_places", target: "spatial::azimuth_and_elevation (known directions)", body: spatial_azimuth_places },
        Contract { name: "spatial_angle", target: "spatial::angle", body: spatial_angle },
    ]
}

fn any_v(name: &str, lo: f32, hi: f32) -> [f32; 3] {
    [any(&format!("{}x", name), lo, hi), any(&format!("{}y", name), lo, hi), any(&format!("{}z", name), lo, hi)]
}

fn spatial_distance() {
    let (a, b) = (any_v("a", -10., 10.), any_v("b", -10., 10.));
    let d = distance(a, b);
    let want: f32 = (0..3).map(|i| (a[i] - b[i]) * (a[i] - b[i])).fold(0., |s, v| s + v);
    check("not negative", d >= 0.);
    check_close("distance^2", d * d, want, 1e-2);
}

// any position, listener turned by quarter turns and tilted
fn spatial_azimuth() {
    let (f, u): ([f32; 3], [f32; 3]) = match pick("listener", 0, 5) {
        0 => ([0., 0., -1.], [0., 1., 0.]),
        1 => ([2., 0., 0.], [0., 1., 0.]),
        2 => ([0., 0., 1.], [0., -3., 0.]),
        3 => ([0., 1., 0.], [0., 0., 1.]),
        4 => ([1., 0., -1.], [0., 1., 0.]),
        _ => ([0., 1., -1.], [0., 1., 0.]),
    };
    // one coordinate free at a time
    let mut s: [f32; 3] = [[1., 2., 3.], [-2., 0.5, 1.], [3., -1., -2.], [-1., -2., -0.5]][pick("source", 0, 3) as usize];
    s[pick("axis", 0, 2) as usize] = any("coordinate", -10., 10.);
    let l = [0.25, -0.5, 0.75];
    let (az, _) = azimuth_and_elevation(s, l, f, u);
    check_close("azimuth", az, spec_azimuth(s, l, f, u), 1e-2);
}

// in front, right, behind, left, above of a listener that looks to -z; any distance
fn spatial_azimuth_places() {
    let d: f32 = any("distance", 0.01, 100.);
    let (s, az, el): ([f32; 3], f32, f32) = match pick("place", 0, 9) {
        0 => ([0., 0., -d], 0., 0.),
        1 => ([d, 0., 0.], 90., 0.),
        2 => ([-d, 0., 0.], -90., 0.),
        3 => ([0., 0., d], 180., 0.),
        4 => ([0., d, 0.], 0., 90.),
        5 => ([0., -d, 0.], 0., -90.),
        6 => ([0., 0., 0.], 0., 0.),
        7 => ([d, 0., -d], 45., 0.),
        8 => ([-d, 0., -d], -45., 0.),
        _ => ([d, 0., d], 135., 0.),
    };
    let (a, e) = azimuth_and_elevation(s, [0., 0., 0.], [0., 0., -1.], [0., 1., 0.]);
    if pick_bool("azimuth") {
        let a = if az == 180. && a < 0. { -a } else { a };
        check_close("azimuth of the place", a, az, 0.1);
    } else {
        check_close("elevation of the place", e, el, 0.1);
    }
    // forward and up on one line: no direction
    let (a, e) = azimuth_and_elevation(s, [0., 0., 0.], [0., 2., 0.], [0., 1., 0.]);
    check("no frame of reference: centre", is_zero(a) && is_zero(e));
}

fn spatial_angle() {
    let o: [f32; 3] = [[1., 0., 0.], [0., -2., 0.], [1., 1., 1.], [0., 0., 0.]][pick("orientation", 0, 3) as usize];
    let d: f32 = any("distance", 0.01, 100.);
    let (s, case): ([f32; 3], i64) = match pick("place", 0, 3) {
        // source - listener along the orientation, against it, across, none
        0 => ([o[0] * d, o[1] * d, o[2] * d], 0),
        1 => ([-o[0] * d, -o[1] * d, -o[2] * d], 1),
        2 => ([o[1] * d, -o[0] * d, 0.], 2),
        _ => ([0., 0., 0.], 0),
    };
    let none = o == [0., 0., 0.];
    let a = angle([s[0] + 1., s[1], s[2]], o, [1., 0., 0.]);
    let want = if none || case == 0 { 0. } else if case == 1 { 180. } else { 90. };
    check_close("angle", a, want, 0.2);
}
