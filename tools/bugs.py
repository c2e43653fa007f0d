"""Definitions of the planted bugs: (old text, new text) edits of include/colorsystem.hpp and a demonstration."""
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("c01-det-term", "C01", "a matrix whose entry (2,0) and (0,2) differ in sign and whose determinant is read directly",
    "Matrix3::add adds the transposed neighbour in one off-diagonal entry",
    [("a[4] + b[4], a[5] + b[5], a[6] + b[6],", "a[4] + b[4], a[5] + b[7], a[6] + b[6],")],
    """    Matrix3 a(1,2,3,4,5,6,7,8,9), b(1,1,1,1,1,5,1,2,1);
    near("add[5]", Matrix3::add(a,b)[5], 11, 1e-5);
    near("add[7]", Matrix3::add(a,b)[7], 10, 1e-5);
""")
bug("c02-crosstalk", "C02", "a crosstalk ratio other than 0", "crosstalkInvert's diagonal is off by a factor that is 1 only for r=0",
    [("const float a = (r - 1.f) * i;", "const float a = (r - 1.f) * i * (1.f - r * r);")],
    """    for (float r = 0.05f; r < 0.26f; r += 0.05f) {
        Matrix3 m(Matrix3::crosstalk(r).mul(Matrix3::crosstalkInvert(r)));
        near("diag", m[0], 1, 1e-4); near("off", m[1], 0, 1e-4); }
""")
bug("c03-white-y", "C03", "a white point whose y is not 0.3290", "the second constructor argument path normalises the white with the wrong y",
    [("return mulDiag(primMat(xR, yR, xG, yG, xB, yB), Tristimulus::fromYxy(1.f, xW, yW).vec3());",
      "return mulDiag(primMat(xR, yR, xG, yG, xB, yB), Tristimulus::fromYxy((yW > 0.345f) ? yW / 0.351f : 1.f, xW, yW).vec3());")],
    """    Gamut g("g", 0.64f,0.33f,0.30f,0.60f,0.15f,0.06f,0.3457f,0.3585f);
    near("white Y", g.toXYZ(Tristimulus(1,1,1))[1], 1, 1e-4);
    Gamut h("h", 0.64f,0.33f,0.30f,0.60f,0.15f,0.06f,0.3127f,0.3290f);
    near("white Y", h.toXYZ(Tristimulus(1,1,1))[1], 1, 1e-4);
""")
bug("c04-sgamut3", "C04", "converting with S-Gamut3.Cine", "transposed digits in the green primary of S-Gamut3.Cine",
    [('"S-Gamut3.Cine", 0.766f, 0.275f, 0.225f, 0.800f,', '"S-Gamut3.Cine", 0.766f, 0.275f, 0.252f, 0.800f,')],
    """    near("green x", S_Gamut3_Cine.primaryGreen()[0], 0.225, 1e-4);
""")
bug("c05-black", "C05", "a colour whose tristimulus sum is small but not zero (below 1e-4)",
    "near-black colours lose their chromaticity",
    [("return (abs_f(x + y + z) < 1e-8f) ? 0.3290f : y / (x + y + z);", "return (abs_f(x + y + z) < 1e-4f) ? 0.3290f : y / (x + y + z);")],
    """    Tristimulus t(Tristimulus(2e-5f, 1e-5f, 1e-5f).toYxy());
    near("x", t[1], 0.5, 1e-5); near("y", t[2], 0.25, 1e-5);
""")
bug("c06-lab-seam", "C06", "a colour with f in the narrow band below the CIELAB seam (L* around 7)",
    "the decoding switches to the cube below the standard's threshold 6/29",
    [("((f > 6.f / 29.f) ? powf(f, 3.f)", "((f > 5.f / 29.f) ? powf(f, 3.f)")],
    """    for (int i = 1; i < 100; i++) {
        Tristimulus w(0.9642f, 1.f, 0.8249f), c(w * (i * 1e-4f));
        near("Y", c.toCIELAB().fromCIELAB()[1], c[1], 2e-6); }
""")
bug("c07-hue360", "C07", "a hue of exactly 360 degrees (also what toHSV gives for a red with a tiny excess of blue)",
    "hue 360 falls outside the six sectors and gives black",
    [("const int   i = d % 6;", "const int   i = d;")],
    """    Tristimulus a(Tristimulus(360.f, 0.5f, 1.f).fromHSV());
    near("r", a[0], 1, 1e-5); near("g", a[1], 0.5, 1e-5);
    Tristimulus b(Tristimulus(359.f, 0.5f, 1.f).fromHSV());
    near("r", b[0], 1, 1e-5);
""")
bug("c08-bt709-toe", "C08", "a BT.709 code value between 0.0810 and 0.0995", "BT.709 decoding extends the linear toe past the standard's breakpoint",
    [("((C < 0.081f) ? C / 4.50f", "((C < 0.0995f) ? C / 4.50f")],
    """    near("BT709 0.095", OTF::BT709_to_Y(0.095f), std::pow((0.095 + 0.099) / 1.099, 1 / 0.45), 2e-5);
    near("BT709 0.05", OTF::BT709_to_Y(0.05f), 0.05 / 4.5, 2e-5);
""")
bug("c09-pq-nan", "C09", "a PQ code value of 0 (or below about 7e-7)", "decoding the lowest code values yields NaN",
    [("        if (L < 0.0)\n            L = 0.0;\n        L = L / (pq_c2 - pq_c3 * Np);", "        L = L / (pq_c2 - pq_c3 * Np);")],
    """    near("PQ 0", OTF::ST2084_to_Y(0.f), 0, 1e-6);
    near("PQ 1e-7", OTF::ST2084_to_Y(1e-7f), 0, 1e-6);
    near("PQ 1", OTF::ST2084_to_Y(1.f), 100, 1e-2);
""")
bug("c10-slog2-neg", "C10", "a negative scene value under S-Log2", "the slope of the negative S-Log2 segment is that of another curve",
    [("(x < 0.f) ? x * 3.53881278538813f + 0.030001222851889303f", "(x < 0.f) ? x * 5.f + 0.030001222851889303f")],
    """    near("slog2(-0.005)", OTF::Y_to_SLog2(-0.005f), (-0.005 * 3.53881278538813 + 0.030001222851889303) * 876 / 1024. + 64 / 1024., 1e-5);
""")
bug("c11-slog3-blue", "C11", "decoding S-Log3 with a blue channel different from green", "S-Log3 decoding of a colour reads the green channel twice",
    [("SLog3_to_Y(screen[0]), SLog3_to_Y(screen[1]), SLog3_to_Y(screen[2])", "SLog3_to_Y(screen[0]), SLog3_to_Y(screen[1]), SLog3_to_Y(screen[1])")],
    """    near("b", OTF::toScene(OTF::SLOG3, Tristimulus(0.3f,0.4f,0.6f))[2], OTF::SLog3_to_Y(0.6f), 1e-6);
""")
bug("c12-duv-sign", "C12", "a correlated colour temperature with nonzero Duv", "the y coordinate is displaced to the other side of the locus",
    [("return y_from_uv(u1 - dUV * dv / l, v1 + dUV * du / l);", "return y_from_uv(u1 + dUV * dv / l, v1 + dUV * du / l);")],
    """    Tristimulus a(Tristimulus::fromCCT(5000.f, 0.01f).toYuv()), b(Tristimulus::fromCT(5000.f).toYuv());
    near("distance", std::hypot(a[1]-b[1], a[2]-b[2]), 0.01, 2e-4);
    // at right angles to the locus
    Tristimulus c(Tristimulus::fromCT(4990.f).toYuv()), d(Tristimulus::fromCT(5010.f).toYuv());
    double tx = c[1]-d[1], ty = c[2]-d[2], n = std::hypot(tx, ty);
    near("angle", ((a[1]-b[1])*tx + (a[2]-b[2])*ty) / (n * 0.01), 0, 0.02);
""")
bug("c13-adapt-clamp", "C13", "a destination white whose S response exceeds 1.3 times that of the source (D50 to D75, A to D65)",
    "large blue gains of the adaptation are clamped, so the source white is not mapped to the destination white",
    [("lms_dst[1] / lms_src[1], lms_dst[2] / lms_src[2])));", "lms_dst[1] / lms_src[1], Tristimulus::mini(lms_dst[2] / lms_src[2], 1.4f))));")],
    """    Tristimulus w(Illuminant_D50.apply(Bradford(Illuminant_D50, Illuminant_D75)));
    near("X", w[0], Illuminant_D75[0], 1e-4); near("Z", w[2], Illuminant_D75[2], 1e-4);
    Tristimulus v(Illuminant_D65.apply(Bradford(Illuminant_D65, Illuminant_D50)));
    near("X", v[0], Illuminant_D50[0], 1e-4); near("Z", v[2], Illuminant_D50[2], 1e-4);
""")
bug("c14-oklab-neg", "C14", "a colour with a negative cone response (outside the spectral gamut)", "the decoding cubes the magnitude in the S channel",
    [("dash[2] * dash[2] * dash[2]);\n    return lms.apply(m1i);", "dash[2] * dash[2] * fabsf(dash[2]));\n    return lms.apply(m1i);")],
    """    Tristimulus t(0.1f, 0.1f, -0.3f), r(OKLAB_to_XYZ(XYZ_to_OKLAB(t)));
    near("Z", r[2], -0.3, 1e-4);
""")
bug("c15-e00-wrap", "C15", "two colours whose hues differ by 180 to 300 degrees (on both sides of red)",
    "the mean hue of CIEDE2000 is taken on the wrong side of the hue circle",
    [("(fabs(h1 - h2) > 180.f ? (h1 + h2 + 360.f)", "(fabs(h1 - h2) > 300.f ? (h1 + h2 + 360.f)")],
    """    // Sharma et al. 2005, pair 19/20 style: hue difference of about 250 degrees
    Tristimulus a(60.f, 10.f, 40.f), b(60.f, 20.f, -40.f);
    near("E00", Delta::E00(a,b), 45.23935, 1e-2);
    Tristimulus c(50.f, 2.5f, 0.f), d(61.f, -5.f, 29.f);
    near("E00", Delta::E00(c,d), 22.8977, 1e-3);
""")
bug("c16-dot3-first", "C16", "a reflectance or light with energy at 380 nm", "the triple product drops one factor in the first sample",
    [("dotHelper3(a, b, c, i - 1) : a[0] * b[0] * c[0];", "dotHelper3(a, b, c, i - 1) : a[0] * c[0];")],
    """    Spectrum::spectrum s{}; s[0] = 1.f;
    near("dot3", Spectrum::dot3(Spectrum(s), Spectrum::E(0.25f), Spectrum::E(2.f)), 0.5, 1e-6);
""")
bug("c17-planck-wien", "C17", "a low temperature or short wavelength is right; a high temperature shows it", "Planck's law degenerates to Wien's approximation",
    [("/ (exp(hc_k / (l * T)) - 1.0)) / 1e9f;", "/ (exp(hc_k / (l * T)) - ((T > 12000.0) ? 0.0 : 1.0))) / 1e9f;")],
    """    double l = 700e-9, T = 15000, h=6.62607015e-34, c=299792458, k=1.380649e-23;
    double w = 2*h*c*c/std::pow(l,5)/(std::exp(h*c/(l*k*T))-1)/1e9;
    near("planck", Spectrum::planck(T,l)/w, 1, 1e-3);
""")
bug("c18-cd-norm", "C18", "monochromatic radiance through an observer whose X and Z sums differ from Y", "the Z channel of the candela value reads the Y table beyond the blue end",
    [("return Tristimulus(X_.fetch(lambda), Y_.fetch(lambda), Z_.fetch(lambda)) * 683.0f * watt_per_sr_m2;", "return Tristimulus(X_.fetch(lambda), Y_.fetch(lambda), Z_.fetch(lambda < 650.f ? lambda : 650.f)) * 683.0f * watt_per_sr_m2;")],
    """    Observer o(Spectrum::E(1.f), Spectrum::E(0.5f), CIE1931_X);
    near("Z", o.candellasFromMonochromaticRadiance(700.f, 1.f)[2], 683.0 * CIE1931_X.fetch(700.f), 1e-3);
    near("Z", o.candellasFromMonochromaticRadiance(600.f, 1.f)[2], 683.0 * CIE1931_X.fetch(600.f), 1e-3);
""")
bug("c21-neg-third", "C21", "a colour whose third component alone is negative", "hasNegative overlooks the third component when the first is larger than 1",
    [("return isNegative(v_[0]) || isNegative(v_[1]) || isNegative(v_[2]); }", "return isNegative(v_[0]) || isNegative(v_[1]) || (isNegative(v_[2]) && !(v_[0] > 1.f)); }")],
    """    near("neg", Tristimulus(2.f,1.f,-1.f).hasNegative() ? 1 : 0, 1, 0);
    near("neg", Tristimulus(0.5f,1.f,-1.f).hasNegative() ? 1 : 0, 1, 0);
    near("pos", Tristimulus(2.f,1.f,0.f).hasNegative() ? 1 : 0, 0, 0);
""")
bug("c19-int64-big", "C19", "writing a 64-bit signed integer in big endian whose low word has bit 31 set", "the low word loses its top bit",
    [("            putInt32(v >> 32);\n            putUint32(v & 0xFFFFFFFF);", "            putInt32(v >> 32);\n            putUint32(v & 0x7FFFFFFF);")],
    """    MemoryStream m; m.setWriteEndian(MemoryStream::BIG); m.setReadEndian(MemoryStream::BIG);
    m.putInt64(0x1122334480000001LL); m.seekTo(0);
    near("int64", m.getInt64() == 0x1122334480000001LL ? 1 : 0, 1, 0);
    m.seekTo(0); m.putInt64(-5); m.seekTo(0);
    near("neg", m.getInt64() == -5 ? 1 : 0, 1, 0);
""")
bug("c19-u32-sign", "C19", "reading a little-endian 32-bit value whose low half has bit 15 set", "the low half is sign extended into the high half",
    [("    const uint32_t getUint32(void)\n    {\n        uint16_t a = getUint16();\n        uint16_t b = getUint16();\n        return (readEndian_ == BIG) ? ((a << 16) | b) : ((b << 16) | a);",
      "    const uint32_t getUint32(void)\n    {\n        uint16_t a = getUint16();\n        uint16_t b = getUint16();\n        return (readEndian_ == BIG) ? ((a << 16) | b) : ((b << 16) + (int16_t)a);")],
    """    MemoryStream m; m.putUint32(0x00018001u); m.seekTo(0);
    near("u32", m.getUint32(), 0x00018001u, 0);
    m.seekTo(0); m.putUint32(0x7001u); m.seekTo(0);
    near("u32", m.getUint32(), 0x7001u, 0);
""")
bug("c19-adjust-order", "C19", "adjusting a 64-bit pointer slot in big endian once the stream is longer than 255 bytes", "bytes 1 and 2 of the slot are swapped",
    [("            buffer_[p + 5] = uc2;\n            buffer_[p + 6] = uc1;", "            buffer_[p + 5] = uc1;\n            buffer_[p + 6] = uc2;")],
    """    MemoryStream m; m.setWriteEndian(MemoryStream::BIG); m.setReadEndian(MemoryStream::BIG);
    MemoryStream::Pointer p = m.putPointer64(); for (int i = 0; i < 600; i++) m.putUint8(1);
    m.adjustPointer64(p); m.seekTo(p);
    near("ptr", (double)m.getPointer64(), 608, 0);
""")
bug("c20-short-read", "C20", "a read that asks for more than is left, followed by another operation", "the cursor advances by the requested instead of the delivered size, beyond the end",
    [("        ptr_ += (int)sz;\n        return sz;", "        ptr_ += (int)size;\n        return sz;")],
    """    unsigned char d[5] = {1,2,3,4,5}, b[8];
    MemoryStream m(d, 5); m.seekTo(3);
    near("n", (double)m.read(b, 4), 2, 0);
    near("pos", (double)m.ftell(), 5, 0);
""")
bug("c20-grow-gap", "C20", "writing a block that starts beyond the end of the stream", "the block is appended at the old end instead of after the gap",
    [("        memcpy(ptr(p), buffer, s);\n        return s;", "        memcpy(ptr(p > s1 ? s1 : p), buffer, s);\n        return s;")],
    """    unsigned char d[3] = {1,2,3}, e[2] = {9,8};
    MemoryStream m(d, 3); m.write_at(e, 2, 6);
    near("size", (double)m.buffer().size(), 8, 0);
    near("gap", m.get_at(3), 0, 0); near("data", m.get_at(6), 9, 0);
""")

bug("c22-thresh", "C22", "patches whose values are all small (raw sensor values around 1e-3 and below, or a nearly dependent channel)",
    "the solver's cut-off for singular values is absolute for small systems instead of relative to the largest",
    [("        thresh = TOL * wmax;", "        thresh = TOL * std::max(wmax, 10.f);")],
    """    std::vector<Tristimulus> p, t;
    const float a[4][3] = {{1,0.2f,0.1f},{0.1f,1,0.3f},{0.2f,0.1f,1},{0.5f,0.6f,0.4f}};
    for (float s = 1.f; s > 1e-6f; s *= 0.03f) {
        p.clear(); t.clear();
        for (int i = 0; i < 4; i++) { p.push_back(Tristimulus(s*a[i][0], s*a[i][1], s*a[i][2])); t.push_back(Tristimulus(s*(a[i][0]+a[i][1]), s*a[i][1], s*2*a[i][2])); }
        Matrix3 m(Corrector::solve(p, t));
        const float want[9] = {1,1,0, 0,1,0, 0,0,2};
        for (int i = 0; i < 9; i++) near("fit", m[i], want[i], 1e-3); }
""")
bug("c22-pythag", "C22", "a system whose intermediate values fall below 1e-4 during the decomposition (small sensor values, nearly dependent channels)",
    "PYTHAG treats small pairs as zero, so rotations of small-scale systems divide by zero",
    [("        else if (bt > 0.0)", "        else if (bt > 1e-4)")],
    """    std::vector<Tristimulus> p, t;
    const float a[4][3] = {{1,0.2f,0.1f},{0.1f,1,0.3f},{0.2f,0.1f,1},{0.5f,0.6f,0.4f}};
    for (float s = 1.f; s > 1e-7f; s *= 0.1f) {
        p.clear(); t.clear();
        for (int i = 0; i < 4; i++) { p.push_back(Tristimulus(s*a[i][0], s*a[i][1], s*a[i][2])); t.push_back(Tristimulus(s*(a[i][0]+a[i][1]), s*a[i][1], s*2*a[i][2])); }
        Matrix3 m(Corrector::solve(p, t));
        const float want[9] = {1,1,0, 0,1,0, 0,0,2};
        for (int i = 0; i < 9; i++) near("fit", m[i], want[i], 1e-3); }
""")

bug("c23-ces-order", "C23", "looking at colour samples 48 or 49", "two colour samples are swapped in the list of TM-30 samples",
    [("CES46, CES47, CES48, CES49, CES50,", "CES46, CES47, CES49, CES48, CES50,")],
    """    near("CES48", TM_30_15::sample[47][0], TM_30_15::CES48[0], 1e-7);
    near("CES49", TM_30_15::sample[48][0], 0.000572, 1e-6);
""")
bug("c23-patch-digit", "C23", "the patch Macbeth36 (black) near 470 nm", "transposed digits in one entry of the black patch",
    [("0.032224117f,\n        0.032225051f, 0.032225985f,", "0.032224117f,\n        0.032252051f, 0.032225985f,")],
    """    const Spectrum &s(Macbeth::Macbeth36);
    for (int i = 11; i < 348; i++) if (i % 10) near("smooth", s[i + 1] - 2 * s[i] + s[i - 1], 0, 8e-6);
""")
bug("c02-inv-small", "C02", "a nonsingular matrix with small entries (determinant below 1e-7)",
    "a 'singular' guard with an absolute threshold: matrices of small scale are returned unchanged instead of inverted",
    [("static constexpr Matrix3 invert(const Matrix3 &a)\n    {", "static constexpr Matrix3 invert(const Matrix3 &a)\n    {\n        if (det(a) < 1e-7f && det(a) > -1e-7f)\n            return a;")],
    """    Matrix3 m(1e-3f,2e-4f,0, 1e-4f,1e-3f,0, 0,3e-4f,1e-3f);
    Matrix3 p(m.mul(m.invert()));
    for (int i = 0; i < 9; i++) near("m * inverse", p[i], (i % 4) ? 0 : 1, 1e-4);
""")
bug("c06-lab-negative", "C06", "a colour with a negative tristimulus component (wide gamut conversions, noise around black)",
    "the linear segment of the CIELAB curve is clipped at zero, so negative components do not survive",
    [(": ((K * f + 16.f) / 116.f));", ": ((f < 0.f) ? 16.f / 116.f : (K * f + 16.f) / 116.f));")],
    """    Tristimulus w(0.9642f, 1.f, 0.8249f);
    near("L of negative Y", Tristimulus(0.f, -0.01f, 0.f).toCIELAB(w)[0], -9.03296, 1e-3);
    near("Z after round trip", Tristimulus(0.1f, 0.2f, -0.005f).toCIELAB().fromCIELAB()[2], -0.005, 1e-5);
""")
bug("c07-sat-range", "C07", "a saturation above 1, which RGB to HSV gives for colours with a negative component",
    "HSV to RGB caps the saturation in one of its three terms",
    [("const float m = v * (1.0f - s);", "const float m = v * (1.0f - ((s > 1.f) ? 1.f : s));")],
    """    Tristimulus t(Tristimulus(0.8f, 0.3f, -0.1f).toHSV().fromHSV());
    near("R", t[0], 0.8, 1e-4); near("G", t[1], 0.3, 1e-4); near("B", t[2], -0.1, 1e-4);
""")
bug("c10-slog3-under", "C10", "scene values below -0.014 (S-Log3 code values below 0)",
    "the linear segment of the S-Log3 encoding stops at code value 0",
    [("(x * (171.2102946929f - 95.f) / 0.01125f + 95.f);", "(((x < -0.014f) ? -0.014f : x) * (171.2102946929f - 95.f) / 0.01125f + 95.f);")],
    """    near("encode", OTF::Y_to_SLog3(-0.05f), (-0.05 * (171.2102946929 - 95.) / 0.01125 + 95.) / 1023., 1e-5);
    near("round trip", OTF::SLog3_to_Y(OTF::Y_to_SLog3(-0.05f)), -0.05, 1e-5);
""")
bug("c05-uv-neg", "C05", "a colour whose tristimulus sum is negative", "the black test compares the sum instead of its magnitude for x only",
    [("return (abs_f(x + y + z) < 1e-8f) ? 0.3127f : x / (x + y + z);", "return (x + y + z < 1e-8f) ? 0.3127f : x / (x + y + z);")],
    """    near("x", Tristimulus(-0.2f, -0.1f, -0.1f).toYxy()[1], 0.5, 1e-5);
    near("u", Tristimulus(-0.2f, -0.1f, -0.1f).toYuv()[1], 4 * 0.2 / (0.2 + 1.5 + 0.3), 1e-5);
""")

bug("c04-same-name", "C04", "two different spaces that carry the same name", "GamutConvert takes spaces of equal name for the same space",
    [("return dst.fromXYZ().mul(src.toXYZ()); }", "return (src.name() == dst.name()) ? Matrix3() : dst.fromXYZ().mul(src.toXYZ()); }")],
    """    const char *n = "camera";
    Gamut a(n, 0.64f,0.33f,0.30f,0.60f,0.15f,0.06f,0.3127f,0.3290f), b(n, 0.708f,0.292f,0.170f,0.797f,0.131f,0.046f,0.3127f,0.3290f);
    near("709 to 2020", GamutConvert(a,b)[0], 0.6274, 1e-3);
    near("709 to 2020", GamutConvert(a,b)[1], 0.3293, 1e-3);
    near("same", GamutConvert(a,a)[0], 1, 1e-4);
""")
bug("c17-cold", "C17", "a black body colder than 300 K", "the spectrum of a cold body is cut off to zero",
    [("s[i] = (float)planck(temp, (double)(380.f + i) * 1e-9);", "s[i] = (temp < 300.f) ? 0.f : (float)planck(temp, (double)(380.f + i) * 1e-9);")],
    """    Spectrum s(Spectrum::blackbody(280.f)), h(Spectrum::blackbody(5000.f));
    near("cold", s[399] / (float)Spectrum::planck(280., 779e-9), 1, 1e-4);
    near("hot", h[399] / (float)Spectrum::planck(5000., 779e-9), 1, 1e-4);
""")
bug("c15-just-noticeable", "C15", "two colours closer than 0.001 in every channel", "differences below a threshold are rounded to zero",
    [("return sqrtf((a_LAB[0] - b_LAB[0]) * (a_LAB[0] - b_LAB[0]) +", "if (fabsf(a_LAB[0] - b_LAB[0]) + fabsf(a_LAB[1] - b_LAB[1]) + fabsf(a_LAB[2] - b_LAB[2]) < 1e-3f)\n            return 0.f;\n        return sqrtf((a_LAB[0] - b_LAB[0]) * (a_LAB[0] - b_LAB[0]) +")],
    """    near("far", Delta::E76(Tristimulus(50,1,2), Tristimulus(53,5,2)), 5, 1e-4);
    near("close", 1e4 * Delta::E76(Tristimulus(1,0,0.25f), Tristimulus(1,0.00048828125f,0.25f)), 4.8828125, 1e-3);
""")
