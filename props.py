"""Everything stated about each property: its text (properties.jsonl and MANIFEST.json are generated
from it by mk.py), the harness modules (sym/vh/*.rs) that decide it, bounds, assumptions, budget."""
PROPS = {}


def prop(id, title, statement, over, quant, tests, files, mech, modules, bounds, observe="return values of public functions", **kw):
    PROPS[id] = dict(
        title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech,
        modules=modules, bounds=bounds, observe=observe, **kw)


CON = "src/contrast/contrast.rs"
CU = "src/utils/color_utils.rs"
MU = "src/utils/math_utils.rs"

prop("C01", "Contrast ratio is a symmetric, bounded, monotone measure",
     "The contrast ratio of any two tones lies in [1, 21], does not depend on the order of the tones, and treats a tone outside [0, 100] as the nearest end of that range. Moving the lighter tone lighter or the darker tone darker never lowers the ratio.",
     ["inputs"], "for every pair (triple, for monotonicity) of real tones",
     "the tests evaluate a handful of tone pairs; ordering and bounds are statements about all pairs",
     [CON, CU], [("ratio of tones", CON + " Contrast::ratio_of_tones, ratio_of_ys"), ("tone to luminance", CU + " y_from_lstar")],
     ["contrast"],
     ["tones in [-1000,1000] (range), [-50,150] (symmetry), up to +-1e6 (clamping), [0,100] (monotonicity); all real values in between, no sampling"],
     slow=["monotone"])
prop("C02", "A tone found for a contrast ratio reaches it; a refusal is justified",
     "Asked for a lighter (darker) tone with a contrast ratio between 1 and 21 against a tone in [0, 100], the library returns a tone in [0, 100] on the requested side that reaches the ratio and overshoots it by less than half a tone, or reports failure, which happens only if not even the tone half a step from the extreme reaches the ratio. Tones outside [0, 100] are always refused. The unsafe variants return the same tone, and the extreme (100 or 0) exactly when the safe variant reports failure.",
     ["inputs"], "for every real tone and every ratio in [1, 21]",
     "tests check single tone/ratio pairs; the inversion through the cube root can miss the ratio only on narrow input ranges",
     [CON, CU], [("lighter/darker", CON + " Contrast::lighter, darker, lighter_unsafe, darker_unsafe"), ("luminance to tone", CU + " lstar_from_y")],
     ["contrast"],
     ["tone in [0,100] (and out to +-1e6 for the invalid ones), ratio in [1,21]; all real values"],
     slow=["darker/4", "lighter/4"], budget=600)
prop("C03", "Tone and luminance convert consistently, and grays get the tone asked for",
     "Converting a luminance in [0, 100] to a tone and back (or the reverse) returns the value started from, both directions are increasing, and 0 and 100 map to themselves. The gray made for any tone is an opaque gray within the unit cube whose own tone is within 0.35 of the tone asked for, and the tone of any colour lies in [0, 100].",
     ["inputs"], "for every real tone and luminance in [0, 100] and every opaque colour",
     "tests compare a few fixed values and round trips on a grid",
     [CU], [("tone and luminance", CU + " lstar_from_y, y_from_lstar, lstar_from_argb"), ("gray of a tone", CU + " argb_from_lstar")],
     ["color"],
     ["luminance and tone: all reals in [0,100]; gray: 64 slices of [0,100] that together cover it; colours: all 2^24"])
prop("C04", "Quantising a linear channel is clamped, monotone and undone exactly",
     "Every real linear channel value, however far out of gamut, becomes an 8-bit value in 0..=255, with everything below 0 becoming 0 and everything above 100 becoming 255; larger inputs never give smaller outputs. Every 8-bit value becomes a linear value in [0, 100], strictly increasing in the 8-bit value, from which the same 8-bit value is recovered.",
     ["inputs"], "for every real linear channel value and all 256 channel values",
     "tests round-trip a few channel values and never leave the gamut",
     [CU], [("sRGB transfer function", CU + " linearized, delinearized")],
     ["color"], ["linear values: all reals in [-1e4,1e4]; monotonicity for pairs at least 0.05 apart in [-10,110]; channel values: all 256"])
prop("C05", "Packing channels into a colour loses nothing and never disturbs a neighbour",
     "A colour built from red, green and blue in 0..=255 is opaque, has the ARGB byte layout and gives back exactly those channels. Every 32-bit colour splits into four bytes that reassemble to it, and is reported opaque exactly when its alpha byte is 255.",
     ["inputs"], "for all 2^32 colours and all 2^24 channel triples",
     "tests unpack a handful of literals",
     [CU], [("packing", CU + " argb_from_rgb, alpha/red/green/blue_from_argb, is_opaque")],
     ["color"], ["all 32-bit colours, all channel triples"])
prop("C06", "Angle and interpolation arithmetic stays in range for every input",
     "Normalising any angle gives the same angle in [0, 360) and leaves angles already there alone; the distance of two hues is the shorter arc, symmetric, at most 180 and obeys the triangle inequality, and the rotation direction is the one along the shorter arc. Clamping gives the nearest point of the interval, interpolation stays between its end points, meets them and is monotone, and the sign and matrix product are the mathematical ones.",
     ["inputs"], "for every real or integer angle, interval, vector and matrix",
     "tests sample angles on a grid of degrees; wrap-around errors occur at isolated values such as tiny negative angles",
     [MU], [("angles", MU + " sanitize_degrees_double/int, difference_degrees, rotation_direction"), ("interpolation", MU + " lerp, clamp_double, clamp_int, signum, matrix_multiply")],
     ["math"], ["angles: all reals in [-14400,14400], integers in +-1e9; other arguments: all reals in the ranges given in the harness (at least +-1000)"])
prop("C07", "Colour-space conversions return the colour they started from",
     "Every opaque colour converted to XYZ or to L*a*b* and back is the same colour, and opaque. Its XYZ coordinates lie between black and the white point, its L* equals its tone and lies in [0, 100], and its a* and b* stay within 130 of neutral.",
     ["inputs"], "for all 2^24 opaque colours",
     "tests convert a few primary colours",
     [CU], [("XYZ", CU + " xyz_from_argb, argb_from_xyz"), ("L*a*b*", CU + " lab_from_argb, argb_from_lab")],
     ["color"], ["all 2^24 colours; Lab round trip composed from two queries: linear channels return within 1e-5, and linear channels off by 1e-5 quantise to the same byte"],
     slow=["lab_range", "xyz_roundtrip", "lab_roundtrip"], budget=600)
DC = "src/dynamiccolor/dynamic_color.rs"
MDC = "src/dynamiccolor/material_dynamic_colors.rs"
CC = "src/dynamiccolor/src/contrast_curve.rs"
ROLE_BOUNDS = ["contrast level: all reals in [-1,1]; light and dark; all nine variants; palettes fixed (tones do not depend on them)",
               "Fidelity/Content: source tone all of [0,100] (text on the primary and tertiary containers: for each five of tones two of eight slices of levels in the quick tier, everything in the thorough tier), any hue and chroma",
               "Contrast is used by its contract (what C01 and C02 decide), the HCT solver as a function whose result has the requested tone within 1.0"]
prop("D01", "Text and icons reach their contrast on the fill they belong to",
     "In every scheme (all variants, light and dark, every contrast level from -1 to 1), each on-role reaches, against the fill role it is drawn on, the contrast its level promises (4.5/7/11/21 at levels -1/0/0.5/1, linear between; 3/4.5/7/11 for the variant-fixed roles), or, where the fill's tone makes that impossible, the best of black and white. All role tones lie in [0, 100], and schemes whose variants are treated alike give the same tones.",
     ["inputs", "configurations"], "for every contrast level, theme, variant and source tone",
     "tests check pairs at four contrast levels and a few source colours",
     [DC, MDC, CC], [("tone resolution", DC + " DynamicColor::get_tone, foreground_tone"), ("role table", MDC + " on_primary, on_secondary, ..., on_tertiary_fixed_variant"), ("levels", CC)],
     ["roles"], ROLE_BOUNDS, observe="tones returned by DynamicColor::get_tone", slow=["on_fidelity/8", "on_fidelity_tertiary_container"], budget=700)
prop("D02", "Related fills keep their distance and avoid the awkward zone",
     "In every scheme, a container role and its accent role are at least 10 tones apart with the container nearer to the surface, a fixed role is at least 10 tones lighter than its dim counterpart, and none of them has a tone in [50, 60), at any contrast level.",
     ["inputs", "configurations"], "for every contrast level, theme, variant and source tone",
     "tests look at single levels; the pair logic has a dozen branches depending on the tones",
     [DC, MDC], [("tone pairs", DC + " get_tone (ToneDeltaPair part)"), ("pairs", MDC + " primary, primary_container, ..., tertiary_fixed_dim")],
     ["roles"], ROLE_BOUNDS, observe="tones returned by DynamicColor::get_tone")
prop("D05", "Accents, outlines and text stay legible on every surface",
     "In every scheme, text roles on surfaces, outline and the accent roles reach the contrast their level promises against every surface and surface-container role (or the best of black and white where that is impossible); container, fixed-dim and outline-variant roles do so against the surface they are nearest to; inverse roles do so on the inverse surface, at every contrast level from -1 to 1.",
     ["inputs", "configurations"], "for every contrast level, theme, variant and source tone",
     "tests check a few pairs at four levels",
     [DC, MDC, CC], [("tone resolution", DC + " DynamicColor::get_tone"), ("role table", MDC + " on_surface, outline, primary, ..., inverse_on_surface"), ("surfaces", MDC + " highest_surface, surface_*")],
     ["roles"], ROLE_BOUNDS, observe="tones returned by DynamicColor::get_tone")
prop("D07", "Every role has the tone Material Design gives it, at every contrast level",
     "Surfaces, surface containers, surface tint and variant, inverse surface, shadow, scrim and the palettes' key colours have the specified tone for light and dark at every contrast level from -1 to 1 (linear between the specified levels), in all variants. From level 0 upwards every other role keeps its specified tone (light, dark, and for the monochrome variant its own) as long as that reaches its contrast and, for pairs, their distance. In Fidelity and Content the primary container's own tone is the source colour's, the tertiary container's that of the palette's colour at the source tone once it is not disliked, and the secondary container's the first tone from 90 down (dark: 30 up) at which its palette's chroma is reached to within 0.4 or begins to fall.",
     ["inputs", "configurations"], "for every contrast level, theme, variant and source colour",
     "tests compare a few roles of a few schemes at single levels",
     [MDC, DC, CC], [("role table", MDC + " all roles"), ("chroma search", MDC + " _find_desired_chroma_by_tone"), ("tone resolution", DC + " DynamicColor::get_tone")],
     ["roles"], ROLE_BOUNDS + ["secondary container: gamuts with a single cusp at 4 (thorough 10) tones, every chroma in [60,131.5] except within 1e-6 of a tie"],
     observe="tones returned by DynamicColor::get_tone and the tone function of roles", slow=["secondary/4"])
prop("D03", "A contrast curve interpolates its four levels",
     "The ratio read from a contrast curve equals the stored value at levels -1, 0, 0.5 and 1, is linear in between, stays constant outside [-1, 1] and has no jumps; for a curve with non-decreasing values it never decreases as the level rises.",
     ["inputs", "configurations"], "for every real contrast level and every four values of the curve",
     "tests read a curve at its support points only",
     [CC], [("contrast curve", CC + " ContrastCurve::get")],
     ["math"], ["level in [-3,3], curve values in [1,21] (all reals)"])

prop("D04", "Custom colours reach their contrast, keep distance, change only if needed",
     "A tone chosen for text on any background tone and ratio from 1 to 21 reaches the ratio whenever some tone does, and otherwise takes the better of both ends; light-foreground adjustments stay in range. A dynamic colour built by a user with a background, a contrast curve and optionally a second background or a tone pair resolves, at every contrast level, to a tone in [0, 100] that reaches its curve's ratio against its background (both backgrounds where one tone can), keeps its own tone where that already suffices, and keeps the pair's distance in the direction the pair asks for.",
     ["inputs", "configurations"], "for every tone, ratio, contrast level, curve and pair distance",
     "tests exercise the library's own role table at a few levels, not the resolution rules a user's own colours depend on",
     [DC, CON, CC, "src/dynamiccolor/src/tone_delta_pair.rs"], [("foreground", DC + " DynamicColor::foreground_tone, tone_prefers_light_foreground, enable_light_foreground"), ("resolution", DC + " DynamicColor::get_tone")],
     ["dynamic"], ["tones, ratios, levels, curve values, pair distances: all reals in their documented ranges; one or two backgrounds; pairs of each polarity",
                   "Contrast is used by its contract (what C01 and C02 decide), the HCT solver as a function whose result has the requested tone within 1.0"],
     observe="tones returned by DynamicColor::get_tone and foreground_tone", slow=["dual/8", "single/8"])
prop("D06", "A role's colour is its palette at its tone, however and whenever asked",
     "For every role of every scheme, the colour returned is the colour of the role's palette (hue and chroma) at the role's tone; asking for the ARGB value, for HCT, through the dynamic colour or through the scheme's getter gives the same colour; and answers do not depend on which roles, schemes or tones were asked for before, on the same or another object.",
     ["inputs", "histories", "configurations"], "for every source colour, contrast level, theme and every sequence of queries up to the bound",
     "tests ask each role once on a fresh object; the caches inside roles and palettes only matter on later questions",
     [DC, MDC, "src/dynamiccolor/dynamic_scheme.rs", "src/palettes/tonal_palette.rs"], [("cache", DC + " DynamicColor::get_hct, get_argb"), ("getters", "src/dynamiccolor/dynamic_scheme.rs DynamicScheme::get_*"), ("palette cache", "src/palettes/tonal_palette.rs TonalPalette::get_hct")],
     ["dynamic"], ["histories of up to 3 questions (5 in the thorough tier) over two schemes with symbolic palettes, source colour and level, plus one history longer than any cache size; the HCT solver is an uninterpreted function",],
     observe="colours returned by the roles and the scheme getters")
DS = "src/dynamiccolor/dynamic_scheme.rs"
TP = "src/palettes/tonal_palette.rs"
CP = "src/palettes/core_palette.rs"
HC = "src/hct/hct.rs"
prop("S01", "Each scheme variant derives its palettes by its recipe, for every source",
     "For every opaque source colour, theme and contrast level, each of the nine scheme variants keeps source colour, theme and level, and builds six palettes whose hues and chromas follow the variant's recipe: fixed chromas (or proportions of the source's for Content and Fidelity), hues equal to the source's, turned by a fixed angle or by the angle its hue table gives for the segment the source hue lies in (lower end included), or taken from the temperature analysis; palette hues denote angles modulo 360. Looking up a turn in any increasing hue table gives a hue in [0, 360) turned by the entry of its segment.",
     ["inputs", "configurations"], "for all 2^24 source colours, both themes, every contrast level",
     "tests build schemes from a handful of source colours; the recipes differ only on some hue ranges or chroma ranges",
     ["src/scheme/", DS], [("variants", "src/scheme/scheme_*.rs new"), ("hue tables", DS + " DynamicScheme::get_rotated_hue")],
     ["palettes"], ["source colours: any, with the appearance hue in [0,360) and chroma in [0,120] uninterpreted functions of the colour; temperature analysis: uninterpreted; hue table: any two inner breakpoints and any turns within +-180"],
     observe="palettes of the schemes")
prop("S02", "Core palettes and legacy schemes follow their recipes for every source colour",
     "CorePalette::of and content_of give the documented hue and chroma for each of the six palettes for every source colour (minimum and maximum chromas included), and each of the 29 colours of Scheme::light, dark, light_content and dark_content is the colour of the right core palette at the documented tone.",
     ["inputs"], "for all 2^24 source colours",
     "tests check one or two source colours",
     [CP, "src/scheme/scheme.rs"], [("core palettes", CP + " CorePalette::of, content_of"), ("legacy schemes", "src/scheme/scheme.rs Scheme::light, dark, light_content, dark_content")],
     ["palettes"], ["source colours: any; appearance and HCT solver uninterpreted functions"],
     observe="palettes and colours returned")
prop("P01", "A palette answers every tone with its own colour; lists give themselves back",
     "Whatever tones (whole or fractional) are asked for in whatever order, a palette answers each with the colour of its hue and chroma at that tone and its hue and chroma never change. A palette or core palette made from a list of colours returns exactly those colours at the common tones, gives the list back, and takes hue and chroma from the list's most colourful entry that is not nearly white. Palettes built from hue and chroma are equal exactly when hue and chroma are, whatever has been asked of them.",
     ["inputs", "histories"], "for every hue, chroma, list of colours and sequence of tones up to the bound",
     "tests ask a fresh palette for single tones; what the cache does shows only in later answers",
     [TP, CP], [("cache", TP + " TonalPalette::get, get_hct"), ("lists", TP + " from_list, get_as_list; " + CP + " CorePalette::from_list, as_list"), ("equality", TP + " PartialEq")],
     ["palettes"], ["histories of 3 questions (5 in the thorough tier) with any whole or real tone in [0,100]; lists with up to three arbitrary entries, the rest fixed; HCT solver and appearance uninterpreted functions"],
     observe="colours returned by palettes")
prop("P02", "The key colour is the first tone outwards from 50 that matches the chroma",
     "A palette's key colour is its colour at the first whole tone, going outwards from 50 and lighter before darker, whose chroma rounds to the palette's chroma; if no tone from 1 to 99 does, it is the colour among them that comes nearest to the chroma asked for.",
     ["inputs"], "for every hue and chroma",
     "tests look at three hues; the search visits up to 99 tones and goes wrong only for chromas reached far from tone 50",
     [TP], [("key colour", TP + " TonalPalette::create_key_color")],
     ["palettes"], ["any chroma function of the tone for searches that end within one step of tone 50 (three in the thorough tier); searches to the end over gamuts with a single cusp at 12 different tones, every chroma in [84.5,131.5]; chromas within 1e-6 of a rounding tie and near-ties of two tones are left out"],
     observe="key_color of palettes", slow=["key"])
prop("H02", "An HCT colour always agrees with the ARGB colour it stands for",
     "After construction from hue, chroma and tone, from an ARGB colour, cloning, or any sequence of setting hue, chroma and tone, the hue, chroma and tone read from an HCT colour are those of the ARGB colour it converts to, converting from an ARGB colour keeps it unchanged, and setting one coordinate gives the same colour as building it anew from that value and the two other coordinates as read.",
     ["inputs", "histories"], "for every colour, every coordinate value and every sequence of setter calls up to the bound",
     "tests set one coordinate of a few colours once",
     [HC], [("setters", HC + " Hct::set_hue, set_chroma, set_tone, _set_internal_state"), ("construction", HC + " Hct::from, from_int, new, clone")],
     ["palettes"], ["sequences of 2 setter calls (4 in the thorough tier); HCT solver and appearance uninterpreted functions of their arguments"],
     observe="get_hue, get_chroma, get_tone, to_int")

HS = "src/hct/src/hct_solver.rs"
prop("H01", "Beyond the gamut, HCT keeps tone and hue and gives the edge colour",
     "Asked for more chroma than any displayable colour of a hue and tone has, HCT gives an opaque colour at the edge of the gamut (some channel 0 or 255) whose tone is within 0.4 of the tone asked for and, for tones from 5 to 97, whose hue is right to within 75 degrees divided by the chroma reached. Chroma below 0.0001 gives the gray of the tone, tones of 0 or less black and of 100 or more white, whatever the hue.",
     ["inputs"], "for every hue (multiples of 2^-20 degrees) at each of a set of tones; for every hue, chroma and tone for grays and ends",
     "tests sample a few dozen hues; the search for the edge of the gamut takes a different path every fraction of a degree",
     [HS, HC], [("edge of the gamut", HS + " HctSolver::solve_to_int, _bisect_to_limit, _bisect_to_segment"), ("grays and ends", HS + " solve_to_int")],
     ["solver"], ["hues: all multiples of 2^-20 degrees in [0,360); tones: 9 fixed values between 1 and 99 (24 in the thorough tier)",
                  "the search inside the gamut (_find_result_by_j) is taken to find nothing, which is what asking for chroma 300 means"],
     observe="hue, chroma, tone and ARGB of Hct::from")
CA = "src/hct/cam16.rs"
VC = "src/hct/viewing_conditions.rs"
prop("H03", "CAM16 appearance is the published model, forwards, backwards and in UCS",
     "For every colour and under any viewing conditions, hue, chroma, lightness, brightness, colourfulness, saturation and the UCS coordinates are those of the published CAM16 model, with the hue in [0, 360) and no negative chroma. Made from lightness, chroma and hue or from UCS coordinates, a CAM16 colour keeps those coordinates and its others belong to them (from UCS: J* and the distance from neutral come out as given). XYZ from an appearance is the published inverse, with or without a buffer. The difference of two colours is 1.41 times the UCS distance to the power 0.63. Functions without viewing conditions mean the default ones; a colour converts by way of its XYZ coordinates; recasting an HCT colour to other conditions gives the HCT colour that looks under default conditions as the original does under those.",
     ["inputs", "configurations"], "for every colour, every appearance within bounds, eight viewing conditions",
     "tests compare the coordinates of five primaries under default conditions; other conditions, negative cone responses and the inverse go almost untested",
     [CA, VC, HC], [("model", CA + " Cam16::from_xyz_in_viewing_conditions, from_jch_in_viewing_conditions, from_ucs_in_viewing_conditions"), ("inverse", CA + " Cam16::xyz_in_viewing_conditions, viewed, to_int"), ("difference", CA + " Cam16::distance"), ("recast", HC + " Hct::in_viewing_conditions")],
     ["appearance", "recast"], ["eight viewing conditions (default, dark, dim with adapted eyes, low light, bright light with light background, D50 white, illuminant A with adapted eyes, black background)",
      "forward: linear channels all reals in [0.01,100], black, and X, Y in [30,60] with Z in [-30,-10] (negative cone response); inverse: lightness 40-100 with chroma up to 70, 10-40 up to 25, 0-10 gray, 80-100 up to 110, hue 0-359, and a stretch beyond the gamut with a negative cone response (J 10-12, C 88-90, h 85-90); UCS: J* 0-100, a* and b* within 50; J, C, h: all of [0.01,100] x [0,150] x [0,360]",
      "powers are enclosed between tangents and chords, sine, cosine, exponential and logarithm are functions with ranges, Lipschitz bounds and inverse laws; equality to 1e-9 of the size of the quantity; conversions of colours and recasting: the model itself an uninterpreted function"],
     observe="fields of Cam16, colours returned by Hct", slow=["forward/8"], budget=600)
prop("H04", "Viewing conditions are the published derivation for every environment",
     "For every white point, luminance, background lightness and surround, the parameters of the viewing conditions (degree of adaptation, discounted illuminant, FL and its root, n, z, Nbb, Ncb, Nc, c, Aw) are those of the published CAM16 derivation: the surround moves c linearly from 0.525 (dark) through 0.59 (dim) to 0.69 (average), the adaptation is clamped to [0, 1] and complete when the illuminant is discounted, a background darker than 0.1 counts as 0.1. What is left out, or a luminance not above 0, means the sRGB default.",
     ["inputs", "configurations"], "for every luminance, background, surround and white point within bounds",
     "tests never build viewing conditions other than the default ones",
     [VC], [("derivation", VC + " ViewingConditions::make")],
     ["appearance"], ["luminance 0.01-2000, background 0-100, surround 0-2, each alone and all together, illuminant discounted or not; white points X 80-120, Y 90-110, Z 30-130 (together with the background); equality to 1e-9 of the size of the quantity"],
     observe="fields of ViewingConditions")
BL = "src/blend/blend.rs"
prop("B01", "Blending turns hues halfway, 15 degrees at most, and mixes on the UCS line",
     "Harmonizing a colour keeps its chroma and tone and turns its hue the short way towards the other colour's hue by half their distance, but by no more than 15 degrees. Blending in CAM16-UCS by any amount from 0 to 1 gives the colour at that fraction of the straight line between the two colours' UCS coordinates; blending hues takes the hue of that colour and keeps the first colour's chroma and tone.",
     ["inputs"], "for every pair of colours and every amount",
     "tests blend pairs of primaries; which way round and how far depends on every pair of hues",
     [BL, MU], [("harmonize", BL + " Blend::harmonize"), ("blends", BL + " Blend::cam16_ucs, hct_hue"), ("direction", MU + " rotation_direction, difference_degrees")],
     ["misc"], ["any two colours, any amount in [0,1]; appearance, UCS conversions and HCT solver uninterpreted functions whose arguments are compared to within 1e-6; pairs of exactly opposite hues (within 1e-6 degrees) left out"],
     observe="colours returned by Blend")
DA = "src/dislike/dislike_analyzer.rs"
prop("B02", "Disliked colours are exactly the dark yellow-greens, and fixing lightens them",
     "A colour is disliked exactly if, each rounded to a whole number, its hue is from 90 to 111, its chroma over 16 and its tone below 65. Fixing gives the colour of the same hue and chroma at tone 70 if it is disliked and returns it unchanged otherwise; the result is never disliked.",
     ["inputs"], "for every hue, chroma and tone",
     "tests try a few colours well inside or outside the region",
     [DA], [("disliked", DA + " DislikeAnalyzer::is_disliked"), ("fixing", DA + " fix_if_disliked")],
     ["misc"], ["any hue in [0,360), chroma and tone in range, except within 1e-6 of a rounding tie; HCT solver: a function whose result has the tone asked for within 1.0"],
     observe="is_disliked, fix_if_disliked")
TC = "src/temperature/temperature_cache.rs"
prop("T01", "Temperature analysis: complements mirror, analogous colours share the change",
     "An angle is between two others exactly if it is met going clockwise from the first to the second, ends included. Among the colours of the input's chroma and tone at whole hues, the coldest has relative temperature 0, the warmest 1 and every other, like the input, its share of that range; colours by temperature are listed coldest first. The complement is the colour on the other side of the coldest-warmest axis whose relative temperature comes nearest to one minus the input's. Analogous colours are as many as asked for, the input in the middle (or just before it), and the j-th colour onwards is the one where the temperature change, added up along the hues from the input's, first reaches j shares of the total divided by the number of divisions, wrapping around. Where all hues have one temperature (black and white), each counts as 0.5 and complement and analogous colours are the input itself. Answers do not change when asked again.",
     ["inputs", "histories"], "for every angle triple; for every input hue and temperature within the slots tried",
     "tests look at five input colours and the default number of colours",
     [TC], [("between", TC + " TemperatureCache::is_between"), ("complement", TC + " get_complement"), ("analogous", TC + " analogous"), ("relative", TC + " relative_temperature, get_input_relative_temperature, get_hcts_by_temp")],
     ["warmth"], ["24 colour wheels whose temperature rises from a coldest to a warmest hue and falls again, the input's hue anywhere in a half-degree slot and its temperature anywhere in a window of 0.05 (12 and 10 of them in the quick tier); eight combinations of count and divisions; wheels on which a single degree makes up 90% of a division left out of the analogous colours"],
     observe="values returned by TemperatureCache")
prop("T02", "A colour's temperature is given by its L*a*b* hue angle and chroma",
     "The raw temperature of every colour is -0.5 + 0.02 * C^1.07 * cos(h - 50 degrees), C and h being the chroma and hue angle of its L*a*b* coordinates, wherever on the circle h lies.",
     ["inputs"], "for all 2^24 colours",
     "tests compare the temperatures of five primaries; the angle is normalised twice, which matters in sectors of the circle",
     [TC], [("temperature", TC + " TemperatureCache::raw_temperature")],
     ["heat"], ["any colour, with its a* and b* anything in [-110,110] (uninterpreted function of the colour); equality to 1e-6"],
     observe="TemperatureCache::raw_temperature")
QD = "src/quantize/"
prop("Q01", "Counting colours counts every opaque pixel once and no other",
     "QuantizerMap returns exactly the distinct fully opaque pixel values of the image, each with the number of pixels that have it.",
     ["inputs"], "for every sequence of pixels up to the bound",
     "tests use one or two colours",
     [QD + "quantizer_map.rs"], [("count", QD + "quantizer_map.rs QuantizerMap::quantize")],
     ["misc"], ["3 pixels of any 32-bit value (4 in the thorough tier), any iteration order of the map"],
     observe="color_to_count")
prop("Q02", "k-means quantization accounts for every pixel, at its nearest colour",
     "QuantizerWsmeans returns at least one and at most as many colours as asked for or as the image has, each standing for at least one pixel; no pixel is counted twice and all are unless clusters coincide; on request every pixel is mapped to a colour of the result and the counts agree with the mapping. One round from two or three starting colours sends every pixel to the nearest one (in L*a*b*), which becomes the average of its pixels. An image of one colour gives that colour.",
     ["inputs", "configurations"], "for every image, set of starting colours and number of colours up to the bound",
     "tests use images of one to three pure colours",
     [QD + "quantizer_wsmeans.rs", QD + "src/point_provider_lab.rs"], [("clusters", QD + "quantizer_wsmeans.rs QuantizerWsmeans::quantize"), ("distance", QD + "src/point_provider_lab.rs distance")],
     ["quant"], ["images of up to 6 pixels of up to 4 colours (and 8 larger images of 7 to 10 pixels with one colour free), up to 2 (thorough 3) starting colours, 1 to 5 rounds; the bookkeeping for any distance function, the assignment to 2 or 3 starting colours with L*a*b* points along one axis"],
     observe="color_to_count, input_pixel_to_cluster_pixel")
prop("Q03", "Wu quantization cuts colour space into boxes that hold every pixel once",
     "The histogram addresses every cell of the 33^3 table once; sums over any box of the table of pixel counts and of red, green and blue are those of the pixels in the box. Cutting gives as many boxes as asked for, or one per cell (of 8 values per channel) that has pixels if those are fewer; every pixel lies in exactly one box, and each box gives one opaque colour, the average of its pixels rounded per channel. The first cut leaves two parts that vary as little as any cut can, and the part that varies most is cut next (to within 1 in the sums of squares).",
     ["inputs", "configurations"], "for every pixel position within the cells and every count, at 12 placements of cells",
     "tests use images of one to three pure colours, which exercise few boxes",
     [QD + "quantizer_wu.rs"], [("histogram", QD + "quantizer_wu.rs construct_histogram, compute_moments, volume, bottom, top, get_index"), ("boxes", QD + "quantizer_wu.rs create_boxes, cut, maximize, variance, create_result")],
     ["quant"], ["three colours in 12 placements of cells, any position in the cell, any counts up to 10^6 for the sums over 8 boxes; one channel free and counts 1, 3, 2 for the cutting, 1 to 4 colours; 9 placements of 3 to 4 colours for where the first and second cut fall, 6 with cells that cannot be cut"],
     observe="public fields and functions of QuantizerWu")
prop("Q04", "The same image always gives the same colours",
     "QuantizerCelebi returns the same colours and counts whenever it is given the same pixels, in whatever order the hash maps inside it happen to iterate.",
     ["inputs", "schedules"], "for every iteration order of the hash maps",
     "a test that passes once says nothing about the next run's iteration order",
     [QD + "quantizer_celebi.rs", QD + "quantizer_wsmeans.rs"], [("starting clusters", QD + "quantizer_celebi.rs QuantizerCelebi::quantize")],
     ["quant"], ["6 images of 4 to 5 pixels, one of them free within its cell and with its L*a*b* point free on a stretch of one axis, 2 to 4 colours; maps iterate in insertion order once and reversed once (thorough: every order of the starting colours)"],
     observe="color_to_count")
SC = "src/score/score.rs"
prop("R01", "Ranking returns suitable colours, best first, apart in hue, never nothing",
     "Score returns at least one and at most the number of colours asked for (one or more), each one of the given colours and no colour twice, best score first. With filtering, a colour is returned only if its chroma is at least 5 and the colours within 15 degrees around its hue make up more than 1% of the population; if none is suitable, exactly the fallback colour is returned. Hues of returned colours are at least 15 degrees apart, and a suitable colour is left out only if enough colours were found or a returned one is that similar; the best is never left out. Colours are taken in order of score, each at least D degrees of hue from those taken before, D being the largest number from 90 down to 15 that gives enough colours (or 15). The score is 70 times the share of the population around the hue plus 0.1 (0.3 above) times the chroma's distance from 48.",
     ["inputs", "schedules"], "for every set of colours up to the bound, their populations and every iteration order of the map",
     "tests rank fixed sets of colours",
     [SC], [("ranking", SC + " Score::score")],
     ["misc"], ["two colours (three in the thorough tier) in 22 placements of one-degree hue slots, any hue in the slot, any chroma, any division of a population of 10^6; 1 to 4 colours asked for; any iteration order of the map; the spread of hues: 10 sets of four colours (and two of five in the thorough tier), any hue in the slot, populations fixed, 2 or 3 asked for, hue distances within 1e-6 of a whole number left out"],
     observe="list returned by Score::score", budget=600)

prop("U01", "Colours are written as six hex digits and read back as written",
     "hex_from_argb writes any colour as exactly six hexadecimal digits, two each for red, green and blue with leading zeros and capital letters, after a # unless it is asked to leave that out; alpha is not written. argb_from_hex reads a string of hexadecimal digits in capitals or small letters, with or without #, as the number they spell: what hex_from_argb wrote comes back as the colour without its alpha, FF in front gives the opaque colour; a string with a character that is no hexadecimal digit is refused.",
     ["inputs"], "for every colour and every string of up to 8 digits",
     "there are no tests of the strings; leading zeros and letters need particular channels",
     [CU.replace("color_utils", "string_utils")], [("text", "src/utils/string_utils.rs StringUtils::hex_from_argb, argb_from_hex")],
     ["strings"], ["every colour, alpha included; every string of 1 to 8 digits; strings of up to 7 characters, one of them one of 9 that are not digits"],
     observe="strings and numbers returned", assumptions=["String, char and i64::from_str_radix of the standard library are modelled: a symbolic digit is written as a marker letter that stands for it"])
prop("E01", "Equality tells values apart by what they are, and equal values hash equally",
     "Hct colours are equal exactly if their ARGB is, however they were made; palettes of a hue and chroma exactly if both agree, and palettes given as lists (or one list and one not) exactly if their 13 colours agree, whatever was asked of them before; core palettes if all six palettes are; schemes exactly if source, variant, theme, contrast level and all palettes are. Equality is symmetric and reflexive, and values that compare equal feed the same bytes to a hasher, so that a map finds them.",
     ["inputs", "histories"], "for every pair of values",
     "tests compare a handful of palettes and never schemes",
     ["src/hct/hct.rs", "src/palettes/tonal_palette.rs", "src/palettes/core_palette.rs", "src/dynamiccolor/dynamic_scheme.rs", "src/dynamiccolor/variant.rs"],
     [("equality", "PartialEq and Hash of Hct, TonalPalette, CorePalette, DynamicScheme, Variant")],
     ["strings"], ["any two colours, palettes of any hue and chroma, schemes and core palettes of any hues and chromas in bands; 7 palettes as lists with any colour in one slot; all variants and themes; 0.0 against -0.0"],
     observe="==, and the bytes given to a Hasher", assumptions=["the colour found for a hue, chroma and tone and the appearance of a colour are functions of their arguments (contract hct; key colours likewise)"])

HS = "src/hct/src/hct_solver.rs"
NOT_APPLICABLE = {
    "N01": {"p": dict(
        title="Inside the gamut, the colour found has the hue, chroma and tone asked for",
        statement="For every hue, chroma and tone that some sRGB colour has, Hct::from finds a colour whose hue, chroma and tone differ from those asked for by no more than rounding to 8 bits per channel explains, and every ARGB colour comes back from its own HCT coordinates.",
        over=["inputs"], quant="for every reachable hue, chroma and tone", tests="a round trip of 16.7 million colours takes hours; tests sample a grid",
        files=[HS], mech=[("search", HS + " HctSolver::find_result_by_j")], observe="Hct::from, Hct::from_int"),
        "reason": "the search is up to five Newton steps, each through two fractional powers (exponents 0.59.. and 0.42) of products of the step before and a matrix; encoded (the real functions, five steps, contracts for the gamut edge), the solvers answer neither the first branch nor the final assertion within minutes even on a thousandth of the input range, and with enclosures of the powers the error of one step exceeds the rounding to be shown. What surrounds the search is decided: the edge of the gamut (H01), agreement of an HCT value with its ARGB (H02), the appearance model (H03), its parameters (H04)"},
    "N02": {"p": dict(
        title="CAM16 UCS coordinates of any real colour lead back to that colour",
        statement="Converting any XYZ colour to CAM16 and from its UCS coordinates (J*, a*, b*) back to XYZ gives the colour started from, within 1e-6.",
        over=["inputs"], quant="for every XYZ colour", tests="tests convert named colours",
        files=["src/hct/cam16.rs"], mech=[("ucs", "src/hct/cam16.rs Cam16::from_ucs_in_viewing_conditions, viewed, xyz_in_viewing_conditions")], observe="xyz_in_viewing_conditions"),
        "reason": "the composed round trip goes through ln and exp, atan2 and sin/cos, and five fractional powers in sequence; decided step by step in H03 (each step against the published model and its inverse), but the whole in one query times out and chaining the steps' tolerances needs derivative bounds beyond the encoding"},
}
