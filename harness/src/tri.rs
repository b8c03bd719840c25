// ---- quantisation ----
h! {
    h_q8_32 |i, o| { let c = i.rgb::<f32>(); let q: RGBu8 = c.into(); o.p(q.r); o.p(q.g); o.p(q.b); }
    h_q8_64 |i, o| { let c = i.rgb::<f64>(); let q: RGBu8 = c.into(); o.p(q.r); o.p(q.g); o.p(q.b); }
    h_q16_32 |i, o| { let c = i.rgb::<f32>(); let q: RGBu16 = c.into(); o.p(q.r); o.p(q.g); o.p(q.b); }
    h_q16_64 |i, o| { let c = i.rgb::<f64>(); let q: RGBu16 = c.into(); o.p(q.r); o.p(q.g); o.p(q.b); }
    // storage -> float -> storage
    h_u8_32 |i, o| { let (r, g, b) = (i.g(), i.g(), i.g()); let c: RGBf32 = rgbu8(r, g, b).into(); o.rgb(c); let q: RGBu8 = c.into(); o.p(q.r); o.p(q.g); o.p(q.b); }
    h_u8_64 |i, o| { let (r, g, b) = (i.g(), i.g(), i.g()); let c: RGBf64 = rgbu8(r, g, b).into(); o.rgb(c); let q: RGBu8 = c.into(); o.p(q.r); o.p(q.g); o.p(q.b); }
    h_u16_32 |i, o| { let (r, g, b) = (i.g(), i.g(), i.g()); let c: RGBf32 = rgbu16(r, g, b).into(); o.rgb(c); let q: RGBu16 = c.into(); o.p(q.r); o.p(q.g); o.p(q.b); }
    h_u16_64 |i, o| { let (r, g, b) = (i.g(), i.g(), i.g()); let c: RGBf64 = rgbu16(r, g, b).into(); o.rgb(c); let q: RGBu16 = c.into(); o.p(q.r); o.p(q.g); o.p(q.b); }
    // precision conversion
    h_down |i, o| {
        let c = i.rgb::<f64>(); let m = i.mat::<f64>(); let x = i.xyz::<f64>();
        o.rgb(RGBf32::from(c)); o.mat(M3f32::from(m)); o.xyz(XYZf32::from(x));
    }
}

// ---- component-wise arithmetic ----
h2! {
    h_rgb_ops_32 h_rgb_ops_64 T |i, o| {
        let a = i.rgb::<T>(); let b = i.rgb::<T>(); let s: T = i.g();
        o.rgb(a + b); o.rgb(a - b); o.rgb(a * b); o.rgb(a / b);
        o.rgb(a + s); o.rgb(a - s); o.rgb(a * s); o.rgb(a / s);
        o.rgb(-a); o.rgb(a.abs());
        let mut c = a; c += b; o.rgb(c);
        o.rgb(RGBf::<T>::from_scalar(s)); o.rgb(RGBf::new(a.r, a.g, a.b)); o.rgb(rgbf(a.r, a.g, a.b));
        o.rgb(RGBf::<T>::zero()); o.rgb(RGBf::<T>::one());
        let mut d = a; d[0] = b[2]; d[1] = b[0]; d[2] = b[1]; o.rgb(d);
        o.p(a[0]); o.p(a[1]); o.p(a[2]);
    }
    h_xyz_ops_32 h_xyz_ops_64 T |i, o| {
        let a = i.xyz::<T>(); let b = i.xyz::<T>(); let s: T = i.g();
        o.xyz(a + b); o.xyz(a - b); o.xyz(a * b); o.xyz(a / b);
        o.xyz(a + s); o.xyz(a - s); o.xyz(a * s); o.xyz(a / s);
        o.xyz(-a); o.xyz(a.abs());
        let mut c = a; c += b; o.xyz(c);
        o.xyz(XYZ::<T>::from_scalar(s)); o.xyz(XYZ::new(a.x, a.y, a.z)); o.xyz(xyz::xyz(a.x, a.y, a.z));
        o.xyz(XYZ::<T>::zero()); o.xyz(XYZ::<T>::one());
        let mut d = a; d[0] = b[2]; d[1] = b[0]; d[2] = b[1]; o.xyz(d);
        o.p(a[0]); o.p(a[1]); o.p(a[2]);
    }
    h_rgb_misc_32 h_rgb_misc_64 T |i, o| {
        let a = i.rgb::<T>(); let lo: T = i.g(); let hi: T = i.g();
        o.p(hmax(a)); o.rgb(normalize(a)); o.rgb(clamprgb(a, lo, hi)); o.p(clamp(a.r, lo, hi));
    }
    h_cmp_32 h_cmp_64 T |i, o| {
        let a = i.rgb::<T>(); let b = i.rgb::<T>();
        let xa = XYZ::new(a.r, a.g, a.b); let xb = XYZ::new(b.r, b.g, b.b);
        o.p((a == b) as u8); o.p((xa == xb) as u8); o.p(a.is_zero() as u8); o.p(xa.is_zero() as u8);
    }
    h_rgb_powf_32 h_rgb_powf_64 T |i, o| { let a = i.rgb::<T>(); let e: T = i.g(); o.rgb(a.powf(e)); }
}
h! {
    h_rgb_lhs_32 |i, o| {
        let s: f32 = i.g(); let a = i.rgb::<f32>();
        o.rgb(s + a); o.rgb(s - a); o.rgb(s * a); o.rgb(s / a);
        o.p(lerp(a.r, a.g, s)); o.p(sqr(s)); o.p(math::abs(s));
    }
    h_rgb_sum_32 |i, o| { let n = i.g::<u64>() as usize; let v: Vec<RGBf32> = (0..n).map(|_| i.rgb()).collect(); o.rgb(v.into_iter().sum::<RGBf32>()); }
    h_rgb_sum_64 |i, o| { let n = i.g::<u64>() as usize; let v: Vec<RGBf64> = (0..n).map(|_| i.rgb()).collect(); o.rgb(v.into_iter().sum::<RGBf64>()); }
    h_xyz_sum_32 |i, o| { let n = i.g::<u64>() as usize; let v: Vec<XYZf32> = (0..n).map(|_| i.xyz()).collect(); o.xyz(v.into_iter().sum::<XYZf32>()); }
    h_rgb_approx_32 |i, o| {
        let a = i.rgb::<f32>(); let b = i.rgb::<f32>(); let e: f32 = i.g();
        let m = F32Margin { epsilon: e, ulps: 0 };
        o.p(a.approx_eq(b, m) as u8);
        o.p(XYZ::new(a.r, a.g, a.b).approx_eq(XYZ::new(b.r, b.g, b.b), m) as u8);
    }
    h_approx_ulps_32 |i, o| {
        let a = i.rgb::<f32>(); let b = i.rgb::<f32>(); let e: f32 = i.g(); let u: u32 = i.g();
        let m = F32Margin { epsilon: e, ulps: u as i32 };
        o.p(a.approx_eq(b, m) as u8);
        o.p(XYZ::new(a.r, a.g, a.b).approx_eq(XYZ::new(b.r, b.g, b.b), m) as u8);
        o.p(a.r.approx_eq(b.r, m) as u8); o.p(a.g.approx_eq(b.g, m) as u8); o.p(a.b.approx_eq(b.b, m) as u8);
    }
    h_approx_ulps_64 |i, o| {
        let a = i.rgb::<f64>(); let b = i.rgb::<f64>(); let e: f64 = i.g(); let u: u64 = i.g();
        let m = F64Margin { epsilon: e, ulps: u as i64 };
        o.p(a.approx_eq(b, m) as u8);
        o.p(XYZ::new(a.r, a.g, a.b).approx_eq(XYZ::new(b.r, b.g, b.b), m) as u8);
        o.p(a.r.approx_eq(b.r, m) as u8); o.p(a.g.approx_eq(b.g, m) as u8); o.p(a.b.approx_eq(b.b, m) as u8);
    }
    h_rgb_approx_64 |i, o| {
        let a = i.rgb::<f64>(); let b = i.rgb::<f64>(); let e: f64 = i.g();
        let m = F64Margin { epsilon: e, ulps: 0 };
        o.p(a.approx_eq(b, m) as u8);
        o.p(XYZ::new(a.r, a.g, a.b).approx_eq(XYZ::new(b.r, b.g, b.b), m) as u8);
    }
}
// ---- scalar helpers ----
h2! {
    h_math_32 h_math_64 T |i, o| {
        let x: T = i.g(); let y: T = i.g();
        o.p(sqrt(x)); o.p(sqr(x)); o.p(math::abs(x)); o.p(sin(x)); o.p(asin(x)); o.p(cos(x)); o.p(acos(x)); o.p(tan(x));
        o.p(atan2(x, y)); o.p(exp(x)); o.p(pow(x, y)); o.p(hypot(x, y));
    }
    h_math_clamp_32 h_math_clamp_64 T |i, o| { let x: T = i.g(); let a: T = i.g(); let b: T = i.g(); o.p(clamp(x, a, b)); }
    h_math_powi_32 h_math_powi_64 T |i, o| { let x: T = i.g(); let k: u64 = i.g(); o.p(powi(x, k as i64 as i32)); }
    h_consts_32 h_consts_64 T |i, o| {
        let a = i.rgb::<T>();
        o.rgb(RGBf::<T>::min_value()); o.rgb(RGBf::<T>::max_value()); o.xyz(XYZ::<T>::min_value()); o.xyz(XYZ::<T>::max_value()); o.rgb(a);
    }
}
h! {
    h_ctors |i, o| {
        let (r, g, b, a): (f32, f32, f32, f32) = (i.g(), i.g(), i.g(), i.g());
        o.rgb(rgbf32(r, g, b)); let c = rgbaf32(r, g, b, a); o.p(c.r); o.p(c.g); o.p(c.b); o.p(c.a);
        let (r, g, b): (u8, u8, u8) = (i.g(), i.g(), i.g()); let c = rgbu8(r, g, b); o.p(c.r); o.p(c.g); o.p(c.b);
        let (r, g, b): (u16, u16, u16) = (i.g(), i.g(), i.g()); let c = rgbu16(r, g, b); o.p(c.r); o.p(c.g); o.p(c.b);
        let (r, g, b): (f64, f64, f64) = (i.g(), i.g(), i.g()); o.rgb(rgbf64(r, g, b));
    }
}
// ---- index bounds ----
h! {
    h_rgb_index |i, o| { let a = i.rgb::<f32>(); let k = i.g::<u64>() as usize; o.p(a[k]); }
    h_xyz_index |i, o| { let a = i.xyz::<f64>(); let k = i.g::<u64>() as usize; o.p(a[k]); }
    h_rgb_index_64 |i, o| { let a = i.rgb::<f64>(); let k = i.g::<u64>() as usize; o.p(a[k]); }
    h_xyz_index_32 |i, o| { let a = i.xyz::<f32>(); let k = i.g::<u64>() as usize; o.p(a[k]); }
    h_mat_index |i, o| { let a = i.mat::<f64>(); let k = i.g::<u64>() as usize; let j = i.g::<u64>() as usize; o.p(a[k][j]); }
}

h2! {
    h_rgb_set_32 h_rgb_set_64 T |i, o| { let mut a = i.rgb::<T>(); let k = i.g::<u64>() as usize; let v: T = i.g(); a[k] = v; o.rgb(a); }
    h_xyz_set_32 h_xyz_set_64 T |i, o| { let mut a = i.xyz::<T>(); let k = i.g::<u64>() as usize; let v: T = i.g(); a[k] = v; o.xyz(a); }
    h_mat_set_32 h_mat_set_64 T |i, o| { let mut a = i.mat::<T>(); let k = i.g::<u64>() as usize; let j = i.g::<u64>() as usize; let v: T = i.g(); a[k][j] = v; o.mat(a); }
}

// ---- slice reinterpretation ----
h! {
    h_cast_f32 |i, o| { let n = i.g::<u64>() as usize; let v: Vec<f32> = i.vec(n); let c = RGBf32::cast_slice(&v); o.p(c.len() as u64); for p in c { o.rgb(*p); } }
    h_cast_f64 |i, o| { let n = i.g::<u64>() as usize; let v: Vec<f64> = i.vec(n); let c = RGBf64::cast_slice(&v); o.p(c.len() as u64); for p in c { o.rgb(*p); } }
    h_cast_u8 |i, o| { let n = i.g::<u64>() as usize; let v: Vec<u8> = i.vec(n); let c = RGBu8::cast_slice(&v); o.p(c.len() as u64); for p in c { o.p(p.r); o.p(p.g); o.p(p.b); } }
}

// ---- matrices ----
h2! {
    h_mat_ops_32 h_mat_ops_64 T |i, o| {
        let a = i.mat::<T>(); let b = i.mat::<T>(); let v = i.xyz::<T>(); let s: T = i.g();
        o.mat(a * b); o.mat(a.transposed()); o.p(a.determinant());
        o.xyz(a * v); o.rgb(a * RGBf::new(v.x, v.y, v.z));
        o.mat(a + s); o.mat(a - s); o.mat(a * s); o.mat(a / s); o.mat(-a);
        o.mat(Matrix33::<T>::make_identity());
        let mut c = a; for r in 0..3 { for k in 0..3 { c[r][k] = a[k][r]; } } o.mat(c);
        o.mat(Matrix33::new(a.x));
    }
    h_inv_32 h_inv_64 T |i, o| { let a = i.mat::<T>(); o.omat(a.inverse()); }
    h_gj_32 h_gj_64 T |i, o| { let a = i.mat::<T>(); o.omat(a.gj_inverse()); }
}

// ---- chromaticity ----
h2! {
    h_xyy_32 h_xyy_64 T |i, o| {
        let c = i.xyz::<T>();
        let k: XYY<T> = c.into();
        o.xyy(k); o.xyz(XYZ::<T>::from(k)); o.xyy(XYY::from_xyz(c));
        o.xyz(c.normalized()); o.xyz(c.normalized_y());
    }
    h_yxy_32 h_yxy_64 T |i, o| {
        let k = i.xyy::<T>();
        let c: XYZ<T> = k.into();
        o.xyz(c); o.xyy(XYY::<T>::from(c)); o.xyz(XYZ::from_chromaticity(k)); o.xyz(XYZ::from_xy(k.x, k.y));
        o.xyy(colorspace::chromaticity::xy(k.x, k.y)); o.xyy(XYY::new(k.x, k.y, k.Y));
    }
    // chromatic adaptation between two whites given as XYZ
    h_brad_32 h_brad_64 T |i, o| { let a = i.xyz::<T>(); let b = i.xyz::<T>(); let m: Matrix33<T> = ca::bradford(a, b); o.mat(m); }
    h_vk_32 h_vk_64 T |i, o| { let a = i.xyz::<T>(); let b = i.xyz::<T>(); let m: Matrix33<T> = ca::von_kries(a, b); o.mat(m); }
    h_cat02_32 h_cat02_64 T |i, o| { let a = i.xyz::<T>(); let b = i.xyz::<T>(); let m: Matrix33<T> = ca::cat02(a, b); o.mat(m); }
    h_brad_xyy_32 h_brad_xyy_64 T |i, o| { let a = i.xyy::<T>(); let b = i.xyy::<T>(); let m: Matrix33<T> = ca::bradford(a, b); o.mat(m); }
    h_vk_xyy_32 h_vk_xyy_64 T |i, o| { let a = i.xyy::<T>(); let b = i.xyy::<T>(); let m: Matrix33<T> = ca::von_kries(a, b); o.mat(m); }
    h_cat02_xyy_32 h_cat02_xyy_64 T |i, o| { let a = i.xyy::<T>(); let b = i.xyy::<T>(); let m: Matrix33<T> = ca::cat02(a, b); o.mat(m); }
    h_cct_32 h_cct_64 T |i, o| {
        let t: T = i.g();
        match illuminant::xy::cct::<T>(t) {
            Ok(c) => { o.p(1u64); o.xyy(c); }
            Err(_) => o.p(0u64),
        }
    }
}

// ---- Lab ----
h2! {
    h_to_lab_32 h_to_lab_64 T |i, o| { let c = i.xyz::<T>(); let w = i.xyz::<T>(); let r: Lab<T> = xyz_to_lab(c, w); o.lab(r); }
    h_from_lab_32 h_from_lab_64 T |i, o| { let c = i.lab::<T>(); let w = i.xyz::<T>(); let r: XYZ<T> = lab_to_xyz(c, w); o.xyz(r); }
    h_lab_rt_32 h_lab_rt_64 T |i, o| { let c = i.xyz::<T>(); let w = i.xyz::<T>(); let l: Lab<T> = xyz_to_lab(c, w); let r: XYZ<T> = lab_to_xyz(l, w); o.xyz(r); }
    h_lab_tr_32 h_lab_tr_64 T |i, o| { let c = i.lab::<T>(); let w = i.xyz::<T>(); let x: XYZ<T> = lab_to_xyz(c, w); let r: Lab<T> = xyz_to_lab(x, w); o.lab(r); }
    h_de76_32 h_de76_64 T |i, o| { let a = i.lab::<T>(); let b = i.lab::<T>(); o.p(delta_E_1976(a, b)); }
    h_de00_32 h_de00_64 T |i, o| { let a = i.lab::<T>(); let b = i.lab::<T>(); o.p(delta_E_2000(a, b)); }
}
