// ---- transfer curves ----
macro_rules! curves {
    ($($k:expr, $f:ident, $ft:ident;)*) => {
        h2! {
            h_enc_t_32 h_enc_t_64 T |i, o| { let k: u64 = i.g(); let x: T = i.g(); $( if k == $k { o.p(encode::$ft(x)); return; } )* }
            h_dec_t_32 h_dec_t_64 T |i, o| { let k: u64 = i.g(); let x: T = i.g(); $( if k == $k { o.p(decode::$ft(x)); return; } )* }
            h_enc_32 h_enc_64 T |i, o| { let k: u64 = i.g(); let x = i.rgb::<T>(); $( if k == $k { o.rgb(encode::$f(x)); return; } )* }
            h_dec_32 h_dec_64 T |i, o| { let k: u64 = i.g(); let x = i.rgb::<T>(); $( if k == $k { o.rgb(decode::$f(x)); return; } )* }
            h_enc2_32 h_enc2_64 T |i, o| { let k: u64 = i.g(); let x: T = i.g(); let y: T = i.g(); $( if k == $k { o.p(encode::$ft(x)); o.p(encode::$ft(y)); return; } )* }
            h_dec2_32 h_dec2_64 T |i, o| { let k: u64 = i.g(); let x: T = i.g(); let y: T = i.g(); $( if k == $k { o.p(decode::$ft(x)); o.p(decode::$ft(y)); return; } )* }
            h_decenc_32 h_decenc_64 T |i, o| { let k: u64 = i.g(); let x: T = i.g(); $( if k == $k { o.p(decode::$ft(encode::$ft(x))); return; } )* }
            h_encdec_32 h_encdec_64 T |i, o| { let k: u64 = i.g(); let x: T = i.g(); $( if k == $k { o.p(encode::$ft(decode::$ft(x))); return; } )* }
        }
    };
}
curves! {
    0, srgb, srgb_t;
    1, bt709, bt709_t;
    2, bt2020, bt2020_t;
    3, linear, linear_t;
    4, alexa_logc_v3, alexa_logc_v3_t;
}

// ---- colour spaces built from primaries ----
h2! {
    h_cs_new_32 h_cs_new_64 T |i, o| {
        let (r, g, b, w) = (i.xyy::<T>(), i.xyy::<T>(), i.xyy::<T>(), i.xyy::<T>());
        let cs = ColorSpaceRGB::<T>::new(r, g, b, w, Box::new(encode::linear), Box::new(decode::linear));
        o.mat(cs.xf_xyz_to_rgb); o.mat(cs.xf_rgb_to_xyz);
        o.xyy(cs.red); o.xyy(cs.green); o.xyy(cs.blue); o.xyy(cs.white);
    }
    h_cs_spec_32 h_cs_spec_64 T |i, o| {
        let (r, g, b, w) = (i.xyy::<T>(), i.xyy::<T>(), i.xyy::<T>(), i.xyy::<T>());
        let (m, n) = (i.mat::<T>(), i.mat::<T>());
        let cs = ColorSpaceRGB::<T>::new_with_specified_matrices(r, g, b, w, m, n, Box::new(|c: RGBf<T>| c + (1.0 as T)), Box::new(|c: RGBf<T>| c - (1.0 as T)));
        o.mat(cs.xf_xyz_to_rgb); o.mat(cs.xf_rgb_to_xyz);
        o.xyy(cs.red); o.xyy(cs.green); o.xyy(cs.blue); o.xyy(cs.white);
        let c = i.rgb::<T>();
        o.rgb(cs.encode(c)); o.rgb(cs.decode(c));
    }
}

// ---- built-in models ----
fn m64(k: u64) -> &'static ColorSpaceRGB<f64> {
    match k {
        0 => &model_f64::SRGB,
        1 => &model_f64::SRGB_DRV,
        2 => &model_f64::ITUR_BT709,
        3 => &model_f64::ITUR_BT2020,
        4 => &model_f64::DCI_P3,
        5 => &model_f64::DCI_P3_D65,
        6 => &model_f64::ACES,
        7 => &model_f64::ACES_CG,
        8 => &model_f64::ADOBE_RGB_1998,
        _ => &model_f64::ALEXA_WIDE_GAMUT,
    }
}
fn m32(k: u64) -> &'static ColorSpaceRGB<f32> {
    match k {
        0 => &model_f32::SRGB,
        2 => &model_f32::ITUR_BT709,
        3 => &model_f32::ITUR_BT2020,
        4 => &model_f32::DCI_P3,
        5 => &model_f32::DCI_P3_D65,
        6 => &model_f32::ACES,
        7 => &model_f32::ACES_CG,
        8 => &model_f32::ADOBE_RGB_1998,
        _ => &model_f32::ALEXA_WIDE_GAMUT,
    }
}
fn dump<T: Slot + Real>(o: &mut Out, m: &ColorSpaceRGB<T>) {
    o.mat(m.xf_xyz_to_rgb);
    o.mat(m.xf_rgb_to_xyz);
    o.xyy(m.red);
    o.xyy(m.green);
    o.xyy(m.blue);
    o.xyy(m.white);
}
h! {
    h_init_models |i, o| { let mut s = 0.0; for k in 0..10 { s += m64(k).white.x; if k != 1 { s += m32(k).white.x as f64; } } o.p(s); }
    h_model_64 |i, o| { let k: u64 = i.g(); dump(o, m64(k)); }
    h_model_32 |i, o| { let k: u64 = i.g(); dump(o, m32(k)); }
    h_model_enc_64 |i, o| { let k: u64 = i.g(); let c = i.rgb::<f64>(); o.rgb(m64(k).encode(c)); }
    h_model_enc_32 |i, o| { let k: u64 = i.g(); let c = i.rgb::<f32>(); o.rgb(m32(k).encode(c)); }
    h_model_dec_64 |i, o| { let k: u64 = i.g(); let c = i.rgb::<f64>(); o.rgb(m64(k).decode(c)); }
    h_model_dec_32 |i, o| { let k: u64 = i.g(); let c = i.rgb::<f32>(); o.rgb(m32(k).decode(c)); }
    // the same conversion in both precisions
    h_model_pair |i, o| {
        let k: u64 = i.g(); let c = i.rgb::<f32>(); let d = rgbf(c.r as f64, c.g as f64, c.b as f64);
        let (m, n) = (m32(k), m64(k));
        o.xyz(rgb_to_xyz(&m.xf_rgb_to_xyz, c)); o.rgb(m.encode(c)); o.rgb(m.decode(c));
        let (a, b) = (m.white, n.white); o.p(a.x); o.p(a.y);
        o.xyz(rgb_to_xyz(&n.xf_rgb_to_xyz, d)); o.rgb(n.encode(d)); o.rgb(n.decode(d)); o.p(b.x); o.p(b.y);
    }
    h_model_xy_64 |i, o| { let k: u64 = i.g(); let m = m64(k); for c in [m.red, m.green, m.blue, m.white] { o.xyy(c); } }
    h_model_xy_32 |i, o| { let k: u64 = i.g(); let m = m32(k); for c in [m.red, m.green, m.blue, m.white] { o.xyy(c); } }
    h_model_rt_64 |i, o| { let k: u64 = i.g(); let c = i.rgb::<f64>(); let m = m64(k); let x = rgb_to_xyz(&m.xf_rgb_to_xyz, c); o.xyz(x); o.rgb(xyz_to_rgb(&m.xf_xyz_to_rgb, x)); }
    h_model_rt_32 |i, o| { let k: u64 = i.g(); let c = i.rgb::<f32>(); let m = m32(k); let x = rgb_to_xyz(&m.xf_rgb_to_xyz, c); o.xyz(x); o.rgb(xyz_to_rgb(&m.xf_xyz_to_rgb, x)); }
}

// ---- transforms ----
h2! {
    h_xyz_to_rgb_32 h_xyz_to_rgb_64 T |i, o| { let m = i.mat::<T>(); let c = i.xyz::<T>(); o.rgb(xyz_to_rgb(&m, c)); }
    h_rgb_to_xyz_32 h_rgb_to_xyz_64 T |i, o| { let m = i.mat::<T>(); let c = i.rgb::<T>(); o.xyz(rgb_to_xyz(&m, c)); }
    h_xyz_slice_32 h_xyz_slice_64 T |i, o| {
        let n = i.g::<u64>() as usize; let m = i.mat::<T>();
        let v: Vec<XYZ<T>> = (0..n).map(|_| i.xyz()).collect();
        let r = xyz_slice_to_rgb(&m, &v);
        o.p(r.len() as u64);
        for c in r { o.rgb(c); }
    }
    // a pair of symbolic spaces with arbitrary matrices and whites; linear curves offset by
    // constants so that the order of the stages is observable
    h_xf_mats_32 h_xf_mats_64 T |i, o| {
        let (w1, w2, w3) = (i.xyy::<T>(), i.xyy::<T>(), i.xyy::<T>());
        let (a, ai, b, bi) = (i.mat::<T>(), i.mat::<T>(), i.mat::<T>(), i.mat::<T>());
        let cat = i.mat::<T>();
        let p = XYY::new(0.3 as T, 0.3 as T, 1.0 as T);
        let s1 = ColorSpaceRGB::<T>::new_with_specified_matrices(p, p, p, w1, a, ai, Box::new(encode::linear), Box::new(decode::linear));
        let s2 = ColorSpaceRGB::<T>::new_with_specified_matrices(p, p, p, w2, b, bi, Box::new(encode::linear), Box::new(decode::linear));
        o.mat(xyz_to_rgb_matrix(w3, &s1));
        o.mat(rgb_to_xyz_matrix(w3, &s1));
        o.mat(xyz_to_rgb_matrix_with_cat(&cat, &s1));
        o.mat(rgb_to_rgb_matrix(&s1, &s2));
    }
    h_rgb_slice_32 h_rgb_slice_64 T |i, o| {
        let (nf, nt) = (i.g::<u64>() as usize, i.g::<u64>() as usize);
        let (a, ai, b, bi) = (i.mat::<T>(), i.mat::<T>(), i.mat::<T>(), i.mat::<T>());
        let p = XYY::new(0.3 as T, 0.3 as T, 1.0 as T);
        let s1 = ColorSpaceRGB::<T>::new_with_specified_matrices(p, p, p, p, a, ai, Box::new(|c: RGBf<T>| c * (8.0 as T)), Box::new(|c: RGBf<T>| c + (1.0 as T)));
        let s2 = ColorSpaceRGB::<T>::new_with_specified_matrices(p, p, p, p, b, bi, Box::new(|c: RGBf<T>| c - (2.0 as T)), Box::new(|c: RGBf<T>| c * (16.0 as T)));
        let v: Vec<RGBf<T>> = (0..nf).map(|_| i.rgb()).collect();
        let mut t: Vec<RGBf<T>> = vec![RGBf::from_scalar(7777.0 as T); nt];
        let n = rgb_to_rgb(&s1, &s2, &v, &mut t);
        o.p(n as u64);
        for c in t { o.rgb(c); }
    }
}
h! {
    // between two built-in spaces, encoded input to encoded output
    // to another space and back
    h_rt_64 |i, o| { let (a, b): (u64, u64) = (i.g(), i.g()); let c = [i.rgb::<f64>()]; let mut t = [RGBf64::from_scalar(0.0)]; let mut u = t; rgb_to_rgb(m64(a), m64(b), &c, &mut t); rgb_to_rgb(m64(b), m64(a), &t, &mut u); o.rgb(u[0]); }
    h_rt_32 |i, o| { let (a, b): (u64, u64) = (i.g(), i.g()); let c = [i.rgb::<f32>()]; let mut t = [RGBf32::from_scalar(0.0)]; let mut u = t; rgb_to_rgb(m32(a), m32(b), &c, &mut t); rgb_to_rgb(m32(b), m32(a), &t, &mut u); o.rgb(u[0]); }
    h_rt_u8 |i, o| {
        let (a, b): (u64, u64) = (i.g(), i.g()); let c: RGBf64 = rgbu8(i.g(), i.g(), i.g()).into();
        let mut t = [RGBf64::from_scalar(0.0)]; let mut u = [rgbu8(9, 9, 9)];
        rgb_to_rgb(m64(a), m64(b), &[c], &mut t); rgb_to_rgb(m64(b), m64(a), &t, &mut u);
        o.p(u[0].r); o.p(u[0].g); o.p(u[0].b);
    }
    h_rgb2rgb_64 |i, o| { let (a, b): (u64, u64) = (i.g(), i.g()); let c = [i.rgb::<f64>()]; let mut t = [RGBf64::from_scalar(0.0)]; rgb_to_rgb(m64(a), m64(b), &c, &mut t); o.rgb(t[0]); }
    h_rgb2rgb_32 |i, o| { let (a, b): (u64, u64) = (i.g(), i.g()); let c = [i.rgb::<f32>()]; let mut t = [RGBf32::from_scalar(0.0)]; rgb_to_rgb(m32(a), m32(b), &c, &mut t); o.rgb(t[0]); }
    h_rgb2u8_32 |i, o| { let (a, b): (u64, u64) = (i.g(), i.g()); let c = [i.rgb::<f32>()]; let mut t = [rgbu8(9, 9, 9)]; rgb_to_rgb(m32(a), m32(b), &c, &mut t); o.p(t[0].r); o.p(t[0].g); o.p(t[0].b); }
    h_mat2_64 |i, o| {
        let (a, b): (u64, u64) = (i.g(), i.g());
        o.mat(rgb_to_rgb_matrix(m64(a), m64(b)));
        o.mat(xyz_to_rgb_matrix(m64(b).white, m64(a)));
        o.mat(rgb_to_xyz_matrix(m64(b).white, m64(a)));
    }
}

// ---- SIMD planes (only in the AVX build) ----
#[cfg(target_feature = "avx")]
h! {
    h_planes_avx2 |i, o| {
        let (n, ny, nz) = (i.g::<u64>() as usize, i.g::<u64>() as usize, i.g::<u64>() as usize);
        let m = i.mat::<f32>();
        let (xs, ys, zs): (Vec<f32>, Vec<f32>, Vec<f32>) = (i.vec(n), i.vec(ny), i.vec(nz));
        let (r, g, b) = xyz_slice_to_rgb_avx_planes::<simdeez::avx2::Avx2>(&m, &xs, &ys, &zs);
        o.p(r.len() as u64); o.p(g.len() as u64); o.p(b.len() as u64);
        for v in r { o.p(v); }
        for v in g { o.p(v); }
        for v in b { o.p(v); }
    }
    h_planes_sse2 |i, o| {
        let (n, ny, nz) = (i.g::<u64>() as usize, i.g::<u64>() as usize, i.g::<u64>() as usize);
        let m = i.mat::<f32>();
        let (xs, ys, zs): (Vec<f32>, Vec<f32>, Vec<f32>) = (i.vec(n), i.vec(ny), i.vec(nz));
        let (r, g, b) = xyz_slice_to_rgb_avx_planes::<simdeez::sse2::Sse2>(&m, &xs, &ys, &zs);
        o.p(r.len() as u64); o.p(g.len() as u64); o.p(b.len() as u64);
        for v in r { o.p(v); }
        for v in g { o.p(v); }
        for v in b { o.p(v); }
    }
}
