use colorspace::interpolation::{ExtrapolatorConstant, InterpolatorLinear, InterpolatorSprague};

// ---- compact 40-sample SPD ----
fn spd40(i: &mut In) -> SPD {
    let mut v = [0.0f32; 40];
    for x in v.iter_mut() {
        *x = i.g();
    }
    SPD::new(v)
}
h! {
    h_init_spd |i, o| { let x = SPD::constant(0.5).to_xyz(); o.p(x.x as f64); }
    h_spd_xyz |i, o| { let s = spd40(i); o.xyz(s.to_xyz()); }
    h_spd_xyz_scalar |i, o| { let s = spd40(i); o.xyz(spd::spd_to_xyz_scalar(&s)); }
    h_spd_mul |i, o| { let a = spd40(i); let b = spd40(i); let c = &a * &b; for v in c.iter() { o.p(*v); } }
    h_spd_const |i, o| { let v: f32 = i.g(); let c = SPD::constant(v); for v in c.values.iter() { o.p(*v); } }
    h_spd_eq |i, o| { let a = spd40(i); let b = spd40(i); o.p((a == b) as u8); }
    h_spd_iter |i, o| { let mut a = spd40(i); let s: f32 = i.g(); for v in a.iter_mut() { *v = *v * s; } for v in a.iter() { o.p(*v); } for v in a.values.iter() { o.p(*v); } }
}
#[cfg(target_feature = "avx")]
h! {
    h_spd_xyz_avx |i, o| { let s = spd40(i); o.xyz(spd::spd_to_xyz_avx(&s)); }
}

// ---- varying spectral power distributions ----
h! {
    h_init_vspd |i, o| { let s = cmf::CIE_1931_2_DEGREE.x_bar.len() + illuminant::spd::D50.len() + illuminant::spd::D55.len() + illuminant::spd::D60.len() + illuminant::spd::D65.len(); o.p(s as u64); }
    h_init_uplift |i, o| { let s = uplifting::MY_RED.len() + uplifting::MY_GREEN.len() + uplifting::MY_BLUE.len(); o.p(s as u64); }
    h_vspd_new |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); let v = VSPD::new(s); o.vspd(&v); }
    h_vspd_access |i, o| {
        let n = i.g::<u64>() as usize; let s = i.samples(n); let v: VSPD = s.into_iter().collect();
        o.p(v.start()); o.p(v.end()); o.p(v.len() as u64); o.p(v.is_empty() as u64);
        o.p(v.first().nm); o.p(v.first().v); o.p(v.last().nm); o.p(v.last().v);
        for x in v.values() { o.p(x); }
        for x in v.wavelengths() { o.p(x); }
        for x in v.iter() { o.p(x.nm); o.p(x.v); }
        for x in v.iter().rev() { o.p(x.nm); o.p(x.v); }
        for x in v.values().rev() { o.p(x); }
        for x in v.wavelengths().rev() { o.p(x); }
    }
    h_vspd_pairs |i, o| { let n = i.g::<u64>() as usize; let p: Vec<(f64, f64)> = (0..n).map(|_| { let a = i.g(); (a, i.g()) }).collect(); let v: VSPD = p.into_iter().collect(); o.vspd(&v); }
    h_vspd_scale |i, o| {
        let n = i.g::<u64>() as usize; let s = i.samples(n); let k: f64 = i.g(); let v = VSPD::new(s);
        o.vspd(&(&v * k)); o.vspd(&(&v / k)); o.vspd(&(v.clone() * k)); o.vspd(&(v / k));
    }
    h_vspd_eq |i, o| {
        let (n, m) = (i.g::<u64>() as usize, i.g::<u64>() as usize);
        let a = VSPD::new(i.samples(n)); let b = VSPD::new(i.samples(m)); let e: f64 = i.g();
        o.p((a == b) as u8); o.p((&a).approx_eq(&b, F64Margin { epsilon: e, ulps: 0 }) as u8);
    }
    h_vspd_const |i, o| { let sh = i.gshape(); let v: f64 = i.g(); o.p(sh.end); o.vspd(&VSPD::constant(sh, v)); }
    h_vspd_from_values |i, o| { let sh = i.gshape(); let n = i.g::<u64>() as usize; let v: Vec<f64> = i.vec(n); o.p(sh.end); o.vspd(&VSPD::from_values(sh, &v)); }
    h_vspd_from_values_varying |i, o| { let mut sh = i.gshape(); sh.interval = Interval::Varying; let n = i.g::<u64>() as usize; let v: Vec<f64> = i.vec(n); o.p(sh.end); o.vspd(&VSPD::from_values(sh, &v)); }
    h_shape_iter |i, o| { let sh = i.gshape::<f64>(); let v: Vec<f64> = sh.iter().collect(); o.p(v.len() as u64); for x in v { o.p(x); } }
    h_shape_iter_32 |i, o| { let sh = i.gshape::<f32>(); let v: Vec<f32> = sh.iter().collect(); o.p(v.len() as u64); for x in v { o.p(x); } }
    h_shape_astm |i, o| { o.shape(SpdShape::<f64>::astm_e308()); }

    h_interp_linear |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); let x: f64 = i.g(); let v = VSPD::new(s); o.p(InterpolatorLinear::new(&v).evaluate(x)); }
    h_extrap_const |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); let x: f64 = i.g(); let v = VSPD::new(s); o.p(ExtrapolatorConstant::new(&v).evaluate(x)); }
    h_interp_sprague |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); let x: f64 = i.g(); let v = VSPD::new(s); o.p(InterpolatorSprague::<f64>::new(&v).evaluate(x)); }

    h_vspd_interpolate |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); let sh = i.shape(); o.vspd(&VSPD::new(s).interpolate(sh)); }
    h_vspd_align |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); let sh = i.shape(); o.vspd(&VSPD::new(s).align(sh)); }
    h_vspd_extrapolate |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); let sh = i.shape(); o.vspd(&VSPD::new(s).extrapolate(sh)); }
    h_vspd_trim |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); let sh = i.shape(); o.vspd(&VSPD::new(s).trim(sh)); }
    h_cmf_align |i, o| {
        let n = i.g::<u64>() as usize;
        let (a, b, c) = (VSPD::new(i.samples(n)), VSPD::new(i.samples(n)), VSPD::new(i.samples(n)));
        let sh = i.shape();
        let m = CMF { x_bar: a, y_bar: b, z_bar: c };
        o.shape(m.shape());
        let m = m.align(sh);
        o.vspd(&m.x_bar); o.vspd(&m.y_bar); o.vspd(&m.z_bar);
    }

    h_cmf_align3 |i, o| {
        let mut c = |k: usize| { let _ = k; let n = i.g::<u64>() as usize; VSPD::new(i.samples(n)) };
        let (a, b, c) = (c(0), c(1), c(2));
        let sh = i.shape();
        let m = CMF { x_bar: a, y_bar: b, z_bar: c }.align(sh);
        o.vspd(&m.x_bar); o.vspd(&m.y_bar); o.vspd(&m.z_bar);
    }

    h_linspace |i, o| { let (s, e) = (i.g(), i.g()); let n = i.g::<u64>() as usize; let v: Vec<f64> = vspd::linspace(s, e, n).collect(); o.p(v.len() as u64); for x in v { o.p(x); } }
    h_lagrange |i, o| {
        let d: f64 = i.g(); let n = i.g::<u64>() as usize;
        let v = vspd::lagrange_coefficients_astm_e2022(d, n);
        o.p(v.len() as u64);
        for r in v { o.p(r.len() as u64); for x in r { o.p(x); } }
    }
}
fn smits(k: u64) -> &'static VSPD {
    match k {
        0 => &uplifting::SMITS_WHITE,
        1 => &uplifting::SMITS_CYAN,
        2 => &uplifting::SMITS_MAGENTA,
        3 => &uplifting::SMITS_YELLOW,
        4 => &uplifting::SMITS_RED,
        5 => &uplifting::SMITS_GREEN,
        _ => &uplifting::SMITS_BLUE,
    }
}
fn illum(k: u64) -> &'static VSPD {
    match k {
        0 => &illuminant::spd::D50,
        1 => &illuminant::spd::D55,
        2 => &illuminant::spd::D60,
        _ => &illuminant::spd::D65,
    }
}
h! {
    // spectrum -> XYZ under a built-in illuminant and the CIE 1931 observer
    h_to_xyz |i, o| { let k: u64 = i.g(); let n = i.g::<u64>() as usize; let s = i.samples(n); o.xyz(VSPD::new(s).to_xyz(illum(k), &cmf::CIE_1931_2_DEGREE)); }
    // symbolic illuminant
    h_to_xyz_ill |i, o| {
        let n = i.g::<u64>() as usize; let s = VSPD::new(i.samples(n)); let m = i.g::<u64>() as usize; let l = VSPD::new(i.samples(m));
        o.xyz(s.to_xyz(&l, &cmf::CIE_1931_2_DEGREE));
    }
    h_cmf_at |i, o| { let sh = i.shape(); let c = cmf::CIE_1931_2_DEGREE.align(sh); o.vspd(&c.x_bar); o.vspd(&c.y_bar); o.vspd(&c.z_bar); }
    h_illum_at |i, o| { let k: u64 = i.g(); let sh = i.shape(); o.vspd(&illum(k).align(sh)); }
    // any observer
    h_to_xyz_cmf |i, o| {
        let k: u64 = i.g(); let n = i.g::<u64>() as usize; let s = VSPD::new(i.samples(n)); let m = i.g::<u64>() as usize;
        let c = CMF { x_bar: VSPD::new(i.samples(m)), y_bar: VSPD::new(i.samples(m)), z_bar: VSPD::new(i.samples(m)) };
        o.xyz(s.to_xyz(illum(k), &c));
    }
    h_nit_cmf |i, o| {
        let n = i.g::<u64>() as usize; let s = VSPD::new(i.samples(n)); let m = i.g::<u64>() as usize;
        let c = CMF { x_bar: VSPD::new(i.samples(m)), y_bar: VSPD::new(i.samples(m)), z_bar: VSPD::new(i.samples(m)) };
        o.p(spd_to_nit(&s, &c));
    }
    h_nit |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); o.p(spd_to_nit(&VSPD::new(s), &cmf::CIE_1931_2_DEGREE)); }
    // spectrum -> XYZ -> linear RGB of a built-in space
    h_pipe_rgb |i, o| {
        let (k, m): (u64, u64) = (i.g(), i.g()); let n = i.g::<u64>() as usize; let s = i.samples(n);
        let w = match k { 0 => illuminant::xy::D50, 1 => illuminant::xy::D55, 2 => illuminant::xy::D60, _ => illuminant::xy::D65 };
        let c = VSPD::new(s).to_xyz(illum(k), &cmf::CIE_1931_2_DEGREE);
        o.rgb(xyz_to_rgb(&xyz_to_rgb_matrix(w, m64(m)), c));
    }
    h_pipe_spd |i, o| {
        let m: u64 = i.g(); let v: f32 = i.g();
        o.rgb(xyz_to_rgb(&xyz_to_rgb_matrix(m32(m).white, m32(m)), SPD::constant(v).to_xyz()));
    }
    h_pipe_uplift |i, o| {
        let c = i.rgb::<f64>(); let s = uplifting::uplift_my(c);
        let x = s.to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
        o.rgb(xyz_to_rgb(&xyz_to_rgb_matrix(model_f64::SRGB.white, &model_f64::SRGB), x));
    }
    h_uplift_values |i, o| { let c = i.rgb::<f64>(); for v in uplifting::uplift_my(c).values() { o.p(v); } }
    h_init_smits |i, o| { let mut n = 0; for k in 0..7 { n += smits(k).len(); } o.p(n as u64); }
    h_pipe_smits |i, o| {
        let k: u64 = i.g(); let f: f64 = i.g();
        let s = smits(k) * f;
        let x = s.to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
        o.rgb(xyz_to_rgb(&xyz_to_rgb_matrix(model_f64::SRGB.white, &model_f64::SRGB), x));
    }
    h_uplift |i, o| { let c = i.rgb::<f64>(); o.vspd(&uplifting::uplift_my(c)); }
    h_uplift_basis |i, o| { let (r, g, b) = uplifting::my_basis(); o.vspd(&r); o.vspd(&g); o.vspd(&b); o.vspd(&uplifting::MY_RED); o.vspd(&uplifting::MY_GREEN); o.vspd(&uplifting::MY_BLUE); }
}
h! {
    // spectra with a straight line of values: v = a + b i at start + step i
    h_interp_sprague_line |i, o| {
        let (s, d, a, b): (f64, f64, f64, f64) = (i.g(), i.g(), i.g(), i.g()); let n = i.g::<u64>() as usize; let t: f64 = i.g();
        let v: VSPD = (0..n).map(|k| Sample::new(s + k as f64 * d, a + b * k as f64)).collect();
        o.p(InterpolatorSprague::<f64>::new(&v).evaluate(s + t * d));
    }
    h_interp_sprague_grid |i, o| {
        let (s, d): (f64, f64) = (i.g(), i.g()); let n = i.g::<u64>() as usize; let v: Vec<f64> = i.vec(n); let t: f64 = i.g();
        let v: VSPD = v.iter().enumerate().map(|(k, v)| Sample::new(s + k as f64 * d, *v)).collect();
        o.p(InterpolatorSprague::<f64>::new(&v).evaluate(s + t * d));
    }
}
h! {
    h_vspd_align_g |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); let sh = i.gshape(); o.vspd(&VSPD::new(s).align(sh)); }
    h_vspd_interpolate_g |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); let sh = i.gshape(); o.vspd(&VSPD::new(s).interpolate(sh)); }
    h_vspd_trim_g |i, o| { let n = i.g::<u64>() as usize; let s = i.samples(n); let (a, b): (f64, f64) = (i.g(), i.g()); o.vspd(&VSPD::new(s).trim(SpdShape::new(a, b, 1.0))); }
}
