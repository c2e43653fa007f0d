#!/usr/bin/env python3
"""Single source of the property list: `python3 meta.py` rewrites properties.jsonl and MANIFEST.json
for every property that has a module in props/."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
HPP = "include/colorsystem.hpp"
IN, HI, CF = "inputs", "histories", "configurations"

# id, title, statement, over, quantifier text, why tests cannot, mechanisms[(name, where)]
PROPS = [
 ("C01", "3x3 matrix and vector algebra is exact linear algebra",
  "Building, adding, scaling, multiplying, transposing matrices, taking rows, columns, diagonals and determinants, dot products, and applying a matrix to a vector or colour give the results of ordinary linear algebra, up to single-precision rounding. Static and member forms agree, element access and iteration follow row-major order, multiplication composes application, transposition reverses products and determinants multiply. This holds for every matrix and vector of ordinary magnitude.",
  [IN], "all 3x3 matrices and 3-vectors with entries of any magnitude up to 1e6 (up to 4 for products of products)",
  "The tests multiply a few literal matrices; a transposed index or a wrong sign that cancels on those literals is invisible to them.",
  [("matrix and vector classes", "Matrix3, Vector3"), ("applying a matrix to a colour", "Tristimulus::apply")]),
 ("C02", "Matrix inversion, crosstalk and scalar division are true inverses",
  "Inverting a nonsingular 3x3 matrix gives its inverse: multiplying on either side gives the identity, inverting twice gives back the matrix, the determinants are reciprocal and applying inverse after matrix returns the vector. The crosstalk matrix has 1-2r on the diagonal and r elsewhere, and its stated inverse undoes it for every admissible r. Dividing a matrix by a scalar divides each element.",
  [IN], "all nonsingular matrices (well away from singular, at any scale from 1e-4 to 1e4); crosstalk ratio in [-1,0.25] and [0.4,2]; divisors 0.01..100 and -100..-0.5",
  "Tests invert a couple of fixed matrices and compare with stored numbers.",
  [("inversion by cofactors", "Matrix3::invert"), ("crosstalk", "Matrix3::crosstalk, crosstalkInvert"), ("scalar division", "Matrix3::div")]),
 ("C03", "An RGB space built from primaries reproduces its primaries and white",
  "A colour space constructed from red, green, blue and white chromaticities maps RGB (1,1,1) to the XYZ of that white with Y=1 and maps each unit primary to a colour of exactly the given chromaticity; the reported primaries and white are those given. Its RGB-to-XYZ and XYZ-to-RGB transforms are inverse to each other, also when the space is constructed from a matrix. Converting a colour to XYZ and back returns the colour.",
  [IN, CF], "all primaries/white with a triangle of non-negligible area and a white strictly inside it (the transform itself: any three independent primaries in any order); any nonsingular matrix at any scale; any colour",
  "Tests build two or three standard spaces; a construction that is right only for those whites or primaries passes.",
  [("primaries to matrix", "Gamut::fromPrimaries, Gamut::primMat"), ("accessors", "Gamut::primaryWhite/Red/Green/Blue, toXYZ, fromXYZ")]),
 ("C04", "Built-in colour spaces, illuminants and conversions match the standards",
  "Every built-in RGB space has the transform that its published primaries and white determine, and every built-in illuminant has its published tristimulus values. Converting between two spaces equals going through XYZ, for every ordered pair of built-in spaces and for arbitrary spaces, as a matrix and applied to a colour. Converting to another space and back, or to the same space, is the identity.",
  [IN, CF], "all 10 built-in spaces, 12 illuminants, 100 ordered pairs, and all pairs of nonsingular matrices with all colours",
  "Tests check a handful of entries of a few spaces; the S-Gamut, ACES and illuminant tables are mostly unread.",
  [("built-in spaces", "AdobeRGB, Rec709, Rec2020, DCI_P3, S_Gamut, S_Gamut3_Cine, ACEScg, ACES2065, LMS"), ("illuminants", "Illuminant_A .. Illuminant_F11"), ("conversion", "GamutConvert")]),
 ("C05", "Chromaticity coordinates: XYZ, Yxy and Yuv convert consistently",
  "Converting XYZ to Yxy or Yuv gives (Y, X/S, Y/S) with S=X+Y+Z and (Y, 4X/D, 6Y/D) with D=X+15Y+3Z, the reverse conversions invert this, and Yxy and Yuv convert into each other by the CIE 1960 formulas, the same through every overload. Chromaticity does not depend on the luminance scale. Black keeps the D65 chromaticity and y=0 yields zero X and Z.",
  [IN], "all XYZ in [-1000,1000] with nonzero S and D (and |S|<1e-8 for black), all Yxy/Yuv with x, y, u, v in [-1,2] away from the zero denominators",
  "Tests round-trip a few colours.",
  [("conversions", "Tristimulus::toYxy, fromYxy, toYuv, fromYuv, YxyToYuv, YuvToYxy")]),
 ("C06", "CIELAB conversion follows the CIE definition and inverts",
  "Conversion to CIELAB gives L*=116f(Y/Yn)-16, a*=500(f(X/Xn)-f(Y/Yn)), b*=200(f(Y/Yn)-f(Z/Zn)) with the CIE f (cube root above 216/24389, linear below), and the reverse conversion inverts it. The reference white maps to (100,0,0) and black to (0,0,0) for every white, the default white is D50, and L* increases with Y. This holds for every colour not brighter than the white.",
  [IN], "all XYZ/white ratios up to 1, negative ones included, all whites in [0.01,150]",
  "Tests convert a few colours far from the linear segment.",
  [("conversion", "Tristimulus::toCIELAB, fromCIELAB, CIELAB_curve, CIELAB_decurve")]),
 ("C07", "HSV conversion is the hexagonal model and round-trips",
  "RGB to HSV gives value=max, saturation=(max-min)/max and the hexagonal hue in [0,360]; HSV to RGB follows the six sectors and is periodic in hue; RGB to HSV to RGB is the identity. Hue and saturation do not depend on brightness scale. The atan2 variant gives the same saturation and value and the hue angle of the opponent axes, and hues are reduced to [0,360] by adding or subtracting full turns.",
  [IN], "all RGB in [-4096,4096]; all hues, saturations in [-2,4]; hue reduction for every angle (in real arithmetic)",
  "Tests cover the primaries and a few mixtures: sector borders, ties and greys are not covered.",
  [("conversion", "Tristimulus::toHSV, fromHSV, toHSV_atan, mod360")]),
 ("C08", "sRGB, BT.709 and gamma transfer functions follow the standards",
  "The sRGB and BT.709 encodings and decodings give the standard piecewise curves (linear toe, power segment), clipped to [0,1], are monotonic, and decode undoes encode (up to the seam of the standards' rounded constants). Pure gamma encoding is x^(1/g), decoding is x^g, they fix 0 and 1 and undo each other on nonnegative values. The clipped curves hold for every input, including out-of-range ones.",
  [IN], "all inputs in [-1e30,1e30] for sRGB/BT.709; all x in [1e-6,100], g in [0.2,5] for gamma",
  "Tests sample a few code values, none near the seams or out of range.",
  [("curves", "OTF::Y_to_sRGB, sRGB_to_Y, Y_to_BT709, BT709_to_Y, gamma, degamma")]),
 ("C09", "SMPTE ST 2084 (PQ) encoding and decoding follow the standard",
  "The PQ encoding of luminance (100 = 10000 cd/m2) and its decoding give the ST 2084 formulas with its exact rational constants, clip below 0 and above 100, stay within [0,1] and [0,100], and are monotonic. Decode undoes encode and encode undoes decode. This holds for every luminance and every code value in [0,1].",
  [IN], "all luminances in [-1e30,1e30], all code values in [0,1]",
  "Tests check two or three levels.",
  [("curves", "OTF::Y_to_ST2084, ST2084_to_Y")]),
 ("C10", "HLG and S-Log, S-Log2, S-Log3 curves follow their definitions and invert",
  "The HLG, S-Log, S-Log2 and S-Log3 encodings and decodings give their published piecewise formulas, including the code-value to IRE scaling. Encoding is nondecreasing, decode undoes encode over the curve's scene range and encode undoes decode over its signal range.",
  [IN], "all scene values in HLG [-1e3,1e3], S-Log [-1e6,1e6], S-Log2 and S-Log3 [-1,1e3]; all signal values up to 1.2, negative ones included",
  "Tests check a few code values; the toe segments and breakpoints are not covered.",
  [("curves", "OTF::Y_to_HLG, HLG_to_Y, Y_to_SLog*, SLog*_to_Y, CV_to_IRE_SLog2, IRE_to_CV_SLog2")]),
 ("C11", "Transfer functions applied to colours act per channel with the chosen curve",
  "Encoding a colour for a screen, or decoding it to scene light, with a given transfer type applies exactly the scalar curve of that type to each of the three channels separately; linear is the identity, and the gamma parameter reaches only the gamma curve and defaults to 1. Decoding after encoding returns the colour over the curve's range. This holds for every transfer type.",
  [IN, CF], "all 9 transfer types, both directions, all colours in and beyond the range of the curve, gamma in [0.3,5]",
  "Tests exercise a few types with equal channels.",
  [("dispatch", "OTF::toScreen, OTF::toScene")]),
 ("C12", "Colour temperature approximations follow their published polynomials",
  "The colour of a black body at a temperature is given by the published Planckian-locus cubics (1667 K to 25000 K, breakpoints 2222 K and 4000 K) and, in the alternative approximation, by its rational polynomials (2000 K to 10000 K), scaled by the requested luminance; the two agree within 0.004 in chromaticity and x decreases with temperature. A correlated colour temperature with an offset Duv is the locus point displaced by Duv along the normal of the locus in CIE 1960 uv. The default luminance is 1.",
  [IN], "all temperatures in the stated ranges, luminance in [0,10000], |Duv| <= 0.05",
  "Tests check a few temperatures.",
  [("locus", "Tristimulus::fromPlanckianLocus, fromCT, blackbody_x_approx, blackbody_y_approx"), ("Duv", "Tristimulus::fromCCT, CCT_x_approx, CCT_y_approx"), ("square root", "util::sqrtf")]),
 ("C13", "Bradford adaptation maps source white to destination white",
  "The Bradford adaptation between two whites is M^-1 diag(M dst / M src) M with the published cone matrix M; it maps the source white to the destination white exactly. Between equal whites it is the identity, the reverse adaptation is the inverse, adaptations compose, and a common scale of both whites does not matter. Between D65 and D50 it is the published matrix.",
  [IN], "all white points X in [0.8,1.2], Y in [0.9,1.1], Z in [0.3,1.3], common scale in [0.5,100]; the defining formula for all whites in [0.001,150] with positive cone responses, and for all destinations and sources of either sign in [-150,150] with nonvanishing source cone responses",
  "Tests check one pair of whites.",
  [("adaptation", "Bradford"), ("cone space", "LMS")]),
 ("C14", "OKLAB and ICtCp conversions follow their definitions, invert, and are silent",
  "Conversion to OKLAB applies the published cone matrix, a signed cube root and the published opponent matrix, and the reverse conversion inverts it exactly. Conversion to ICtCp applies the published cone matrix, PQ encoding and the integer/4096 opponent matrix, and the reverse inverts it. Black stays black, the published OKLAB test values are reproduced, and no conversion writes output or has other side effects.",
  [IN], "all XYZ in [-5,100] (OKLAB), [-20,200] (ICtCp), all OKLAB with L in [-1,5] and |a|,|b| <= 2, all ICtCp with I in [0.2,0.8] and |Ct|,|Cp| <= 0.25",
  "Tests round-trip a few colours; a wrong coefficient whose inverse is derived from it passes every round-trip test.",
  [("OKLAB", "XYZ_to_OKLAB, OKLAB_to_XYZ"), ("ICtCp", "XYZ_to_ICtCp, ICtCp_to_XYZ")]),
 ("C15", "Colour differences follow their definitions, are symmetric and zero on equals",
  "The uv, CIE76, CIEDE2000 and ICtCp colour differences give their published formulas (CIEDE2000 with its parametric weights, defaulting to 1, and the published Sharma test pairs reproduced). Each difference is nonnegative, symmetric in its two colours and zero between a colour and itself. This holds for every pair of colours, apart from pairs of exactly opposite hue, where the CIEDE2000 mean hue is undefined.",
  [IN], "all uv in [-2,2], all Lab in [-1000,1000] for 1976 and with L in [0,120], |a|,|b| <= 200 for 2000, all XYZ in [-10,150] for ICtCp, weights in [0.25,4], hue difference not within 0.05 degree of 180",
  "Tests compare a few pairs; CIEDE2000 has hue-wrap branches and a rotation term that a handful of pairs do not reach.",
  [("differences", "Delta::UV, Delta::E76, Delta::E00, Delta::ICtCp"), ("helpers", "Tristimulus::mod360, toYuv, XYZ_to_ICtCp")]),
 ("C16", "Spectra: elementwise algebra, sums, products and interpolation are exact",
  "Adding, multiplying and scaling spectra acts per 1 nm sample, sum, dot and triple dot product are the sums over all 400 samples, and element access and copies preserve every sample. Reading a spectrum at a wavelength, or resampling any equidistant table onto the spectrum, is piecewise linear interpolation between neighbouring samples, constant beyond the ends. The default spectrum is zero and E(k) is constant k.",
  [IN], "all spectra with values of any magnitude up to 1e6 ([-10,10] for interpolation), all wavelengths in [0,1200], tables of 2, 3, 5 and 36 samples over any range and of 81, 400, 401 and 1000 samples over fixed ranges",
  "Tests interpolate one table at a few wavelengths; an off-by-one at an end or a dropped sample changes nothing they see.",
  [("spectrum class", "Spectrum: constructors, E, mul, add, sum, dot, dot3, operator[]"), ("interpolation", "Spectrum::fetch, Spectrum::lerp, Spectrum(const float*, int, float, float)")]),
 ("C17", "Planck's law gives black body radiance at every wavelength and temperature",
  "The spectral radiance of a black body is 2hc^2/(l^5 (exp(hc/(l k T))-1)) per nanometre with the physical constants, at every wavelength and temperature. It increases with temperature at every wavelength. The black body spectrum holds these values at 380, 381, ... 779 nm.",
  [IN], "all temperatures in [60,1e6] K and wavelengths in [10,1e6] nm whose product is at least 22000 nm K (the comparison between temperatures in the visible, ultraviolet and infrared bands where it exceeds 1e5 nm K)",
  "Tests look at the colour of a few temperatures; errors in constants that mostly rescale the spectrum are invisible.",
  [("law", "Spectrum::planck"), ("spectrum", "Spectrum::blackbody")]),
 ("C18", "Observers integrate spectra into tristimulus values correctly",
  "For every observer the tristimulus value of a light, or of a reflectance under a light, is the sum over all wavelengths of the spectrum (times the reflectance) and the colour matching function, divided by the sum of the colour matching function, per channel. A flat spectrum k gives (k,k,k), a perfect reflector shows the light itself, monochromatic flux is weighted by 683 lm/W, and the built-in observers use their own tables, give (1,1,1) for equal energy and the D65 white for D65. The colour checker reference list holds the 24 patches in chart order.",
  [IN, CF], "all spectra with samples of any magnitude up to 1e6, all observers with nonnegative colour matching functions with nonzero sums, all wavelengths in [300,900], the three built-in observers and all 24 patches",
  "Tests look at one or two lights through one observer; a swapped table, dropped sample or wrong normalisation of one channel is not seen.",
  [("integration", "Observer::SpectrumIntegrate, SpectrumIntegrate3, fromSpectrum, fromReflectanceAndLight"), ("photometric units", "Observer::lumensFromMonochromaticFlux, candellasFromMonochromaticRadiance, xyz"), ("chart", "Macbeth::reference"), ("built-in observers", "CIE1931, CIE31JV, CIE2012")]),
 ("C21", "Tristimulus arithmetic, bounds and clipping act per component",
  "Scaling, dividing, adding and multiplying colours and taking their dot product, minimum and maximum act per component, the same through every static, member and operator form. Clipping puts every component into the given range and leaves components already in range unchanged; positive() replaces exactly the negative components by 0 and hasNegative() tells exactly whether there are any. Construction, access, iteration and copying preserve the three components, and matrix application is linear.",
  [IN], "all colours and scales with components of any magnitude up to 1e6 ([-1e30,1e30] for bounds and clipping), divisors of either sign of magnitude 1e-6..1e6, all clip ranges l<=h",
  "Tests use a few literal colours; an overload that mixes up components or a clip with swapped bounds is not covered.",
  [("arithmetic", "Tristimulus::scale, add, mul, dot, operators"), ("bounds", "Tristimulus::min, max, min3, max3, clip, positive, hasNegative, abs_f"), ("access", "Tristimulus constructors, a, b, c, operator[], begin, end, size")]),
 ("C19", "Memory streams serialise numbers, strings and pointers faithfully",
  "Putting an 8- to 64-bit integer, float or double writes exactly its bytes at the cursor in the chosen byte order, advances the cursor by its width, grows the stream only as needed and changes no other byte; getting reads the same layout, with bytes beyond the end read as 0 and the cursor stopping at the end. Strings are a 32-bit length including the terminator, the characters and a NUL; pointer slots are reserved as zeros and later filled with the stream size. Reading back in the same byte order what was written returns it, for every value, position and content, after any history of operations. A stream set up anew reads and writes little endian.",
  [IN, HI], "all values of every type, both byte orders for reading and writing, all contents and sizes below 2^31-64, all cursor positions, strings of any length below 2^20, any reachable stream",
  "There are no tests of the stream; even many round trips miss a byte order that is wrong consistently, a lost high bit, or an overwrite in the middle of existing data.",
  [("typed values", "MemoryStream::put*/get* (Uint8..Int64, Float, Double)"), ("strings", "MemoryStream::putString, putSubstr, get_string, getSubstr"), ("pointers", "MemoryStream::putPointer32/64, adjustPointer32/64, getPointer32/64"), ("byte order", "MemoryStream::setReadEndian, setWriteEndian")]),
 ("C20", "Memory streams stay in bounds, grow with zeros and keep a valid cursor",
  "No operation reads or writes outside the stream, the caller's block or invalidated storage; reading returns the bytes present and the count actually available, leaving the rest of the caller's block and the stream untouched. Writing at or beyond the end grows the stream with zeros in between and changes only the bytes written, single-byte reads at any position however large beyond the end give 0. Seeking (from the start, the cursor, or back from the last byte), alignment and end detection keep the cursor between 0 and the size, after any history of operations. A stream opened on a block holds a copy of it; opened with a size and no block it holds that many zeros.",
  [IN, HI], "all contents and sizes below 2^31-64, all cursor positions and offsets that stay within the stream, all 64-bit positions for reading, all block lengths, any reachable stream",
  "There are no tests of the stream; out-of-bounds accesses appear only at particular sizes and positions (empty, exactly at the end, beyond 2^31).",
  [("raw access", "MemoryStream::read_at, write_at, read, write, get_at, put_at, ptr"), ("cursor", "MemoryStream::fseek, seekTo, ftell, mark, feof, align"), ("construction", "MemoryStream::init")]),
 ("C22", "Colour correction returns the least-squares matrix, for any patches and scale",
  "For any two or more patches, Corrector::solve returns the 3x3 matrix M that minimises the sum of |M p - t|^2 over the pairs of measured patch p and target t (the one of least norm when the patches do not span all three channels); when the targets are exactly M0 p for spanning patches it returns M0. Without targets it fits the Macbeth chart seen by the given observer under the given light, D65 and the 1931 observer by default, and makeGamut returns the gamut whose toXYZ is that fit and whose fromXYZ is its inverse. SOLVER::solve computes the least-squares solution of least norm, treating singular values below TOL times the largest as zero, whatever the scale of the system; a system with fewer rows than columns is reported as failure and leaves the result untouched; the decomposition satisfies A = U diag(w) V^T with orthogonal U, V and w >= 0, also for rank-deficient matrices.",
  [IN], "all patch and target values (system assembly, for 1, 2, 3, 4, 7, 24, 25, 96 and 140 patches), all decompositions (solution formula, thresholding), sizes up to 400 patches and 12x9 on samples for the decomposition itself",
  "There is no test of the solver; rank-deficient, badly scaled or underdetermined inputs each take their own path through it.",
  [("fit", "Corrector::solve (both), makeGamut"), ("solver", "SOLVER::solve, svdcmp, svbksb, PYTHAG, DSIGN, Matrix, Vector")]),
 ("C23", "Built-in spectral data are the tabulated ones at every wavelength",
  "At every nanometre from 380 to 779 the built-in tables hold their published values: the colour matching functions of the 1931, Judd-Vos and 2012 observers, the D65 illuminant (100 at 560 nm), the 99 TM-30-15 colour evaluation samples and the 24 Macbeth patches. They are nonnegative, reflectances never exceed 1, luminous efficiency peaks at 1 near 555 nm, the coarser tables are straight lines between their published samples, and TM_30_15::sample and Macbeth::Patch list exactly the samples CES01..CES99 and the patches row by row.",
  [IN], "all 133 tables, all 400 wavelengths",
  "Tests see these tables only through a few integrals with wide tolerances; a wrong digit in one sample, a dropped entry that shifts the rest, or two samples swapped in the list passes them.",
  [("observers", "CIE1931_X/Y/Z, CIE2012_X/Y/Z, CIE1931_JuddVos_X/Y/Z"), ("light", "CIE_D65"), ("colour samples", "TM_30_15::CES01..CES99, TM_30_15::sample"), ("chart", "Macbeth::Macbeth01..36, Macbeth::Patch")]),
]
# level notes: specifics per property, in addition to the general one
NOTES = {}
GENERAL = ("Every obligation is generated on each run from the LLVM IR that clang makes of /repo's header and discharged by the back ends named in the evidence "
           "(exact rational normal forms with rounding-error bounds, interval branch-and-bound with outward rounding, z3); failed ones are replayed on the compiled code. "
           "Trusted: the VC generator (validated against the g++ build on sampled inputs on every run), clang's lowering, libm within 2 ulp; NaN/inf and inputs outside the stated domain are excluded; "
           "obligations marked 'real' treat machine arithmetic as mathematical (their rounding is only sampled).")
TECH = "contracts on the real code; verification conditions from its LLVM IR by symbolic execution, discharged by exact normal forms, interval analysis and z3"


def main():
    props, checks = [], []
    for pid, title, st, over, qt, why, mech in PROPS:
        if not os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
            continue
        assert len(title) <= 80, title
        props.append({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
                      "anchors": {"files": [HPP], "mechanism": [{"name": a, "where": f"{HPP}: {b}"} for a, b in mech], "hook_needed": None}})
        checks.append({"property": pid, "quick_cmd": f"python3-vt check.py {pid}", "thorough_cmd": f"python3-vt check.py {pid}",
                       "technique": TECH, "level": "proof", "level_note": GENERAL + (" " + NOTES[pid] if pid in NOTES else ""),
                       "evidence_file": f"evidence/{pid}.json"})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt setup.py", "checks": checks, "not_applicable": NA,
         "notes": "The property list and this file are generated by meta.py. Genuine defects found are in known-findings.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = []
if __name__ == "__main__":
    main()
