// C ABI over the public functions of /repo's Rust crate, for harness/core_shim.py.
// A function that returns a Result writes 1 to *err and NaN as its value when it is Err.
#![allow(non_snake_case, clippy::all)]
use crate::kernels::*;

macro_rules! plain {
    ($($name:ident = $path:path => ($($a:ident),*);)*) => { $(
        #[unsafe(no_mangle)]
        pub extern "C" fn $name($($a: f64),*) -> f64 { $path($($a),*) }
    )* };
}
macro_rules! fallible {
    ($($name:ident = $path:path => ($($a:ident),*);)*) => { $(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($a: f64,)* err: *mut i32) -> f64 {
            match $path($($a),*) { Ok(v) => { unsafe { *err = 0 }; v } Err(_) => { unsafe { *err = 1 }; f64::NAN } }
        }
    )* };
}

plain! {
    w_photon_muon = photon_muon::dnde_photon_muon => (e, p);
    w_photon_charged_pion = photon_pion::dnde_photon_charged_pion => (e, p);
    w_photon_neutral_pion = photon_pion::dnde_photon_neutral_pion => (e, p);
    w_photon_charged_rho = photon_rho::dnde_photon_charged_rho => (e, p);
    w_photon_neutral_rho = photon_rho::dnde_photon_neutral_rho => (e, p);
    w_positron_muon = positron_muon::dnde_positron_muon => (e, p);
    w_positron_charged_pion = positron_pion::dnde_positron_charged_pion => (e, p);
    w_boost_gamma = crate::boost::boost_gamma => (e, m);
    w_boost_beta = crate::boost::boost_beta => (e, m);
    w_boost_delta = crate::boost::boost_delta_function => (e0, e, m, b);
    w_s_gg = scalar_xs::sigma_xx_to_s_to_gg => (a, b, c, d, e, f, g);
    w_s_pi0pi0 = scalar_xs::sigma_xx_to_s_to_pi0pi0 => (a, b, c, d, e, f, g, h, i);
    w_s_pipi = scalar_xs::sigma_xx_to_s_to_pipi => (a, b, c, d, e, f, g, h, i);
    w_s_ss = scalar_xs::sigma_xx_to_ss => (a, b, c, d);
    w_s_ss_xx = scalar_xs::sigma_ss_to_xx => (a, b, c, d);
    w_s_xl = scalar_xs::sigma_xl_to_xl => (a, b, c, d, e, f, g);
    w_s_xpi = scalar_xs::sigma_xpi_to_xpi => (a, b, c, d, e, f, g, h, i);
    w_s_xpi0 = scalar_xs::sigma_xpi0_to_xpi0 => (a, b, c, d, e, f, g, h, i);
    w_s_xg = scalar_xs::sigma_xg_to_xg => (a, b, c, d, e, f, g);
    w_s_xs = scalar_xs::sigma_xs_to_xs => (a, b, c, d);
    w_v_ff = vector_xs::sigma_xx_to_v_to_ff => (a, b, c, d, e, f, g);
    w_v_pi0g = vector_xs::sigma_xx_to_v_to_pi0g => (a, b, c, d, e, f, g);
    w_v_vv = vector_xs::sigma_xx_to_vv => (a, b, c, d);
}
fallible! {
    w_s_ff = scalar_xs::sigma_xx_to_s_to_ff => (a, b, c, d, e, f, g);
    w_s_tcs = scalar_xs::thermal_cross_section => (a, b, c, d, e, f, g, h, i, j);
    w_v_pipi = vector_xs::sigma_xx_to_v_to_pipi => (a, b, c, d, e, f, g);
    w_v_pi0v = vector_xs::sigma_xx_to_v_to_pi0v => (a, b, c, d, e, f, g);
    w_v_tcs = vector_xs::thermal_cross_section => (a, b, c, d, e, f, g, h, i);
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn w_neutrino_muon(e: f64, p: f64, out: *mut f64) {
    let v = neutrino_muon::dnde_neutrino_muon(e, p).to_array();
    for i in 0..3 { unsafe { *out.add(i) = v[i] } }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn w_neutrino_charged_pion(e: f64, p: f64, out: *mut f64) {
    let v = neutrino_pion::dnde_neutrino_charged_pion(e, p).to_array();
    for i in 0..3 { unsafe { *out.add(i) = v[i] } }
}

/// The tabulated photon spectra, by index.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn w_photon_table(which: i32, e: f64, p: f64, err: *mut i32) -> f64 {
    use photon_tables as t;
    let s: &t::Spectrum = match which {
        0 => &t::CHARGED_KAON, 1 => &t::LONG_KAON, 2 => &t::SHORT_KAON, 3 => &t::ETA,
        4 => &t::ETA_PRIME, 5 => &t::OMEGA, _ => &t::PHI,
    };
    match t::branch(p, s.mass) {
        Ok(b) => { unsafe { *err = 0 }; t::dnde(e, b, s) }
        Err(_) => { unsafe { *err = 1 }; f64::NAN }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn w_interp(x: f64, xp: *const f64, fp: *const f64, n: usize) -> f64 {
    let (a, b) = unsafe { (std::slice::from_raw_parts(xp, n), std::slice::from_raw_parts(fp, n)) };
    crate::interp::interp(x, a, b)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn w_boost_integrate(e: f64, beta: f64, x: *const f64, y: *const f64, nx: usize, ny: usize, err: *mut i32) -> f64 {
    let (a, b) = unsafe { (std::slice::from_raw_parts(x, nx), std::slice::from_raw_parts(y, ny)) };
    match crate::boost::boost_integrate_linear_interp(e, beta, a, b) {
        Ok(v) => { unsafe { *err = 0 }; v }
        Err(_) => { unsafe { *err = 1 }; f64::NAN }
    }
}
/// quad with a Python callback: out = [value, abserr, neval, last, ier]; returns 0 on Ok, 1 on Err.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn w_quad(f: extern "C" fn(f64) -> f64, a: f64, b: f64, epsabs: f64, epsrel: f64,
    limit: usize, points: *const f64, npts: i64, out: *mut f64) -> i32 {
    let pts: Option<&[f64]> = if npts < 0 { None } else { Some(unsafe { std::slice::from_raw_parts(points, npts as usize) }) };
    let opts = crate::quad::QuadOpts { epsabs, epsrel, limit, points: pts };
    let mut g = |x: f64| f(x);
    match crate::quad::quad(&mut g, a, b, &opts) {
        Ok(o) => { unsafe { *out = o.value; *out.add(1) = o.abserr; *out.add(2) = o.neval as f64; *out.add(3) = o.last as f64; *out.add(4) = o.ier.code() as f64; } 0 }
        Err(_) => 1,
    }
}
