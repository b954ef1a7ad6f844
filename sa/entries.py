"""Drivers: how each public step entry point is called, and what its inputs mean."""
from .values import unit

FLAGS = ("GOOD", "DO_NOT_USE", "SATURATED", "JUMP_DET", "NO_GAIN_VALUE", "REFERENCE_PIXEL", "NO_LIN_CORR",
         "NO_SAT_CHECK", "AD_FLOOR", "UNRELIABLE_SLOPE", "CHARGELOSS", "GW_AFFECTED_DATA")


def flagspec(name):
    return dict(kind="scalar", flag="F:" + name)


def flagdict(label):
    """specs of a flag dictionary root"""
    d = {label: dict(kind="dict", items=flagspec)}
    return d


CUBE4 = ("I", "G", "Y", "X")
IMG = ("Y", "X")
DN = unit(ct=1)
T = unit(s=1)
# counting statistics: the variance of a number of electrons is that number, so an electron has the dimension n^2 of a squared noise n
E_DN = unit(n=2, ct=-1)     # gain
RN = unit(ct=1, n=-1)       # read noise as given (multiplied by the gain: a noise n)


class Entry:
    def __init__(self, name, source, roots, specs, inplace=(), outputs=None, dq=(), options=(), note="", step=None,
                 flags_ok=None):
        self.name = name; self.source = source; self.roots = roots; self.specs = specs
        self.inplace = frozenset(inplace)      # documented in-place outputs
        self.outputs = outputs
        self.dq = dq
        self.options = options
        self.note = note
        self.step = step or name.split(":")[0]


ENTRIES = {}


def add(e): ENTRIES[e.name] = e


# ---------------------------------------------------------------------------------------------- jump
JUMP_OPTS_COMMON = ["rejection_thresh", "three_grp_thresh", "four_grp_thresh", "max_jump_to_flag_neighbors",
                    "min_jump_to_flag_neighbors", "flag_4_neighbors", "after_jump_flag_dn1", "after_jump_flag_n1",
                    "after_jump_flag_dn2", "after_jump_flag_n2", "expand_large_events", "min_jump_area", "min_sat_area",
                    "expand_factor", "sat_required_snowball", "min_sat_radius_extend", "sat_expand", "edge_size",
                    "find_showers", "extend_snr_threshold", "extend_min_area", "extend_inner_radius",
                    "extend_outer_radius", "extend_ellipse_expand_ratio", "min_diffs_single_pass",
                    "max_extended_width", "minimum_groups", "minimum_sigclip_groups", "only_use_ints",
                    "max_shower_amplitude", "grps_masked_after_shower", "mask_persist_grps_next_int",
                    "persist_grps_flagged", "max_cores"]

JUMP_SRC = '''
from stcal.jump.jump import detect_jumps_data
from stcal.jump.jump_class import JumpData

def drive(model, gain, rnoise, dqflags, o):
    jd = JumpData(model, gain, rnoise, dqflags)
    jd.set_detection_settings(o.rejection_thresh, o.three_grp_thresh, o.four_grp_thresh, o.max_jump_to_flag_neighbors,
                              o.min_jump_to_flag_neighbors, o.flag_4_neighbors)
    jd.set_after_jump(o.after_jump_flag_dn1, o.after_jump_flag_n1, o.after_jump_flag_dn2, o.after_jump_flag_n2)
    jd.set_snowball_info(o.expand_large_events, o.min_jump_area, o.min_sat_area, o.expand_factor,
                         o.sat_required_snowball, o.min_sat_radius_extend, o.sat_expand, o.edge_size)
    jd.set_shower_info(o.find_showers, o.extend_snr_threshold, o.extend_min_area, o.extend_inner_radius,
                       o.extend_outer_radius, o.extend_ellipse_expand_ratio, o.min_diffs_single_pass,
                       o.max_extended_width)
    jd.set_sigma_clipping_info(o.minimum_groups, o.minimum_sigclip_groups, o.only_use_ints)
    jd.max_shower_amplitude = o.max_shower_amplitude
    jd.grps_masked_after_shower = o.grps_masked_after_shower
    jd.mask_persist_grps_next_int = o.mask_persist_grps_next_int
    jd.persist_grps_flagged = o.persist_grps_flagged
    jd.max_cores = o.max_cores
    return detect_jumps_data(jd)
'''


def jump_specs(read_pattern):
    s = {
        "model": dict(kind="opaque"),
        "model.data": dict(kind="array", axes=CUBE4, unit=DN),
        "model.groupdq": dict(kind="array", axes=CUBE4, dq=True),
        "model.pixeldq": dict(kind="array", axes=IMG, dq=True),
        "model.meta.exposure.nframes": dict(kind="scalar", unit="poly"),
        "model.meta.exposure.read_pattern": dict(kind="opaque") if read_pattern else dict(kind="none"),
        "gain": dict(kind="array", axes=IMG, unit=E_DN),
        "rnoise": dict(kind="array", axes=IMG, unit=RN),
        "o": dict(kind="opaque"),
    }
    s.update(flagdict("dqflags"))
    for o in JUMP_OPTS_COMMON:
        s["o." + o] = dict(kind="scalar")
    for o in ("after_jump_flag_dn1", "after_jump_flag_dn2"):
        s["o." + o] = dict(kind="scalar", unit=DN)
    for o in ("rejection_thresh", "three_grp_thresh", "four_grp_thresh", "max_jump_to_flag_neighbors",
              "min_jump_to_flag_neighbors", "extend_snr_threshold"):
        s["o." + o] = dict(kind="scalar", unit="poly")
    return s


for rp in (False, True):
    add(Entry("jump:" + ("pattern" if rp else "uniform"), JUMP_SRC, ["model", "gain", "rnoise", "dqflags", "o"],
              jump_specs(rp), inplace=("model.groupdq", "model.pixeldq"),
              dq=("model.groupdq", "model.pixeldq"), options=["o." + x for x in JUMP_OPTS_COMMON]))


def sp(**kw): return kw


def arr(axes, **kw): return dict(kind="array", axes=axes, **kw)


def dqa(axes, **kw): return dict(kind="array", axes=axes, dq=True, unit="poly", **kw)


SC = dict(kind="scalar")

# ---------------------------------------------------------------------------------------------- dark
DARK_SRC = '''
from stcal.dark_current import dark_sub

def drive(sci, dark, dark_output):
    return dark_sub.do_correction(sci, dark, dark_output)
'''
for dim in (3, 4):
    dax = ("G", "Y", "X") if dim == 3 else ("D", "G", "Y", "X")
    add(Entry(f"dark:{dim}d", DARK_SRC, ["sci", "dark", "dark_output"], {
        "sci": dict(kind="opaque"), "sci.data": arr(CUBE4, unit=DN), "sci.groupdq": dqa(CUBE4),
        "sci.pixeldq": dqa(IMG), "sci.meta.exposure.nframes": dict(kind="scalar", unit="poly"), "sci.meta.exposure.ngroups": dict(kind="scalar", unit="poly"),
        "sci.meta.exposure.groupgap": dict(kind="scalar", unit="poly"), "sci.meta.exposure.integration_start": dict(kind="scalar", optional=True),
        "sci.meta.instrument.name": SC,
        "dark": dict(kind="opaque"), "dark.data": arr(dax, unit=DN),
        "dark.dq": dqa(IMG if dim == 3 else ("D", "1", "Y", "X")),
        "dark.meta.exposure.nframes": dict(kind="scalar", unit="poly"), "dark.meta.exposure.ngroups": dict(kind="scalar", unit="poly"), "dark.meta.exposure.groupgap": dict(kind="scalar", unit="poly"),
        "dark_output": dict(kind="scalar", optional=True)},
        dq=("sci.groupdq", "sci.pixeldq", "dark.dq"), step="dark",
        options=["dark_output"]))

# ---------------------------------------------------------------------------------------------- saturation
SAT_SRC = '''
from stcal.saturation.saturation import flag_saturated_pixels

def drive(data, gdq, pdq, sat_thresh, sat_dq, atod_limit, dqflags, n_pix_grow_sat, zframe, read_pattern, bias):
    return flag_saturated_pixels(data, gdq, pdq, sat_thresh, sat_dq, atod_limit, dqflags,
                                 n_pix_grow_sat=n_pix_grow_sat, zframe=zframe, read_pattern=read_pattern, bias=bias)
'''
SAT_ROOTS = ["data", "gdq", "pdq", "sat_thresh", "sat_dq", "atod_limit", "dqflags", "n_pix_grow_sat", "zframe",
             "read_pattern", "bias"]


def sat_specs(rp, ref4d=False):
    img = CUBE4 if ref4d else IMG
    s = {"data": arr(CUBE4, unit=DN), "gdq": dqa(CUBE4), "pdq": dqa(img),
         "sat_thresh": arr(img, unit=DN), "sat_dq": dqa(img), "atod_limit": dict(kind="scalar", unit=DN),
         "n_pix_grow_sat": SC, "zframe": arr(("I", "Y", "X"), unit=DN, optional=True),
         "read_pattern": dict(kind="opaque") if rp else dict(kind="none"),
         "bias": arr(img, unit=DN, optional=True)}
    s.update(flagdict("dqflags"))
    return s


for nm, rp, r4 in (("nopattern", False, False), ("pattern", True, False), ("ref4d", False, True), ("ref4d_pattern", True, True)):
    add(Entry("saturation:" + nm, SAT_SRC, SAT_ROOTS, sat_specs(rp, r4), inplace=("gdq", "zframe"),
              dq=("gdq", "pdq"), options=["n_pix_grow_sat", "atod_limit"]))

# ---------------------------------------------------------------------------------------------- linearity
LIN_SRC = '''
from stcal.linearity.linearity import linearity_correction

def drive(data, gdq, pdq, lin_coeffs, lin_dq, dqflags, zframe, ilin_coeffs, additional_correction, read_pattern, satval):
    return linearity_correction(data, gdq, pdq, lin_coeffs, lin_dq, dqflags, zframe=zframe, ilin_coeffs=ilin_coeffs,
                                additional_correction=additional_correction, read_pattern=read_pattern, satval=satval)
'''
LIN_ROOTS = ["data", "gdq", "pdq", "lin_coeffs", "lin_dq", "dqflags", "zframe", "ilin_coeffs",
             "additional_correction", "read_pattern", "satval"]
for nm in ("simple", "readlevel", "readlevel_noadd"):
    rl = nm != "simple"
    s = {"data": arr(CUBE4, unit="top"), "gdq": dqa(CUBE4), "pdq": dqa(IMG), "lin_coeffs": arr(("K", "Y", "X"), unit="top"),
         "lin_dq": dqa(IMG), "zframe": arr(("I", "Y", "X"), unit="top", optional=True),
         "ilin_coeffs": arr(("K", "Y", "X"), unit="top") if rl else dict(kind="none"),
         "additional_correction": dict(kind="opaque") if nm == "readlevel" else dict(kind="none"),
         "read_pattern": dict(kind="opaque") if rl else dict(kind="none"),
         "satval": arr(IMG, unit="top") if rl else dict(kind="none")}
    s.update(flagdict("dqflags"))
    add(Entry("linearity:" + nm, LIN_SRC, LIN_ROOTS, s, inplace=("data", "zframe"), dq=("pdq", "lin_dq"),
              options=["satval", "ilin_coeffs", "read_pattern"] if rl else []))

# ---------------------------------------------------------------------------------------------- ramp fit
RAMP_SRC = '''
from stcal.ramp_fitting import ramp_fit

def drive(model, o, readnoise_2d, gain_2d, dqflags):
    return ramp_fit.ramp_fit(model, o.save_opt, readnoise_2d, gain_2d, o.algorithm, o.weighting, o.max_cores, dqflags,
                             o.suppress_one_group)
'''


def ramp_specs(alg):
    s = {"model": dict(kind="opaque"), "model.data": arr(CUBE4, unit=DN), "model.groupdq": dqa(CUBE4),
         "model.pixeldq": dqa(IMG), "model.average_dark_current": arr(IMG, unit=unit(ct=1, s=-1)),
         "model.meta.instrument.name": SC, "model.meta.exposure.frame_time": dict(kind="scalar", unit=T),
         "model.meta.exposure.group_time": dict(kind="scalar", unit=T),
         "model.meta.exposure.integration_time": dict(kind="scalar", unit=T),
         "model.meta.exposure.groupgap": dict(kind="scalar", unit="poly"),
         "model.meta.exposure.nframes": dict(kind="scalar", unit="poly"),
         "model.meta.exposure.drop_frames1": dict(kind="scalar", unit="poly", optional=True),
         "model.meta.exposure.read_pattern": dict(kind="opaque", optional=True),
         "model.zeroframe": arr(("I", "Y", "X"), unit=DN, optional=True),
         "model.int_times": dict(kind="opaque", optional=True),
         "model.flags_do_not_use": SC, "model.flags_saturated": SC,
         "o": dict(kind="opaque"), "o.save_opt": SC, "o.max_cores": SC, "o.suppress_one_group": SC,
         "o.algorithm": dict(kind="const", value=alg, dep=False),
         "o.weighting": dict(kind="scalar"),
         "readnoise_2d": arr(IMG, unit=RN), "gain_2d": arr(IMG, unit=E_DN)}
    s.update(flagdict("dqflags"))
    return s


for alg in ("OLS_C", "LIKELY"):
    for so in (False, True):
        s = ramp_specs(alg)
        s["o.save_opt"] = dict(kind="const", value=so)
        add(Entry("ramp:" + alg + ("_opt" if so else ""), RAMP_SRC, ["model", "o", "readnoise_2d", "gain_2d", "dqflags"], s,
                  inplace=("model.groupdq",), dq=("model.groupdq", "model.pixeldq"), options=["o.suppress_one_group"]))

CAS_SRC = '''
from stcal.ramp_fitting import ols_cas22_fit

def drive(resultants, dq, read_noise, read_time, read_pattern, o):
    return ols_cas22_fit.fit_ramps_casertano(resultants, dq, read_noise, read_time, read_pattern, o.use_jump,
                                             threshold_intercept=o.threshold_intercept,
                                             threshold_constant=o.threshold_constant)
'''
add(Entry("cas22:fit", CAS_SRC, ["resultants", "dq", "read_noise", "read_time", "read_pattern", "o"], {
    "resultants": arr(("G", "Y", "X"), unit=DN), "dq": dqa(("G", "Y", "X")), "read_noise": arr(IMG, unit=DN),
    "read_time": dict(kind="scalar", unit=T), "read_pattern": dict(kind="opaque"), "o": dict(kind="opaque"),
    "o.use_jump": SC, "o.threshold_intercept": dict(kind="scalar", optional=True),
    "o.threshold_constant": dict(kind="scalar", optional=True)},
    dq=("dq",), options=["o.use_jump", "o.threshold_intercept", "o.threshold_constant"]))

# ---------------------------------------------------------------------------------------------- outlier
OUT_SRC = '''
from stcal.outlier_detection import utils

def drive(a, kernel, weight, maskpt, sci, err, blot, snr, scale, scale2, backg, snr1, snr2, resample_data, reproj, fillval, pixmap_stepsize, pixmap_order):
    return (utils.medfilt(a, kernel), utils.compute_weight_threshold(weight, maskpt),
            utils.flag_crs(sci, err, blot, snr),
            utils.flag_resampled_crs(sci, err, blot, snr1, snr2, scale, scale2, backg),
            utils.gwcs_blot(resample_data, reproj.wcs, reproj.shape, reproj.blot_wcs, fillval=fillval,
                            pixmap_stepsize=pixmap_stepsize, pixmap_order=pixmap_order))
'''
add(Entry("outlier:utils", OUT_SRC, ["a", "kernel", "weight", "maskpt", "sci", "err", "blot", "snr", "scale", "scale2", "backg", "snr1", "snr2", "resample_data", "reproj", "fillval", "pixmap_stepsize", "pixmap_order"], {
    "a": arr(IMG), "kernel": dict(kind="opaque"), "weight": arr(IMG, unit="top"), "maskpt": dict(kind="scalar", unit="poly"),
    "sci": arr(IMG, unit=DN), "err": arr(IMG, unit=DN), "blot": arr(IMG, unit=DN), "snr": dict(kind="scalar", unit="poly"),
    "snr1": dict(kind="scalar", unit="poly"), "snr2": dict(kind="scalar", unit="poly"),
    "scale": dict(kind="scalar", unit="poly"), "scale2": dict(kind="scalar", unit="poly"), "backg": dict(kind="scalar", unit=DN), "resample_data": arr(IMG, unit="top"),
    "reproj": dict(kind="opaque"), "reproj.shape": dict(kind="opaque"), "fillval": SC, "pixmap_stepsize": SC, "pixmap_order": SC},
    options=["snr", "snr1", "snr2", "scale", "scale2", "backg", "maskpt", "fillval", "pixmap_stepsize", "pixmap_order"]))

MED_SRC = '''
from stcal.outlier_detection.median import MedianComputer, nanmedian3D

def drive(img1, img2, cube, o):
    mc = MedianComputer(o.full_shape, o.in_memory, o.buffer_size, o.odtype, o.tempdir)
    mc.append(img1, 0)
    mc.append(img2, 1)
    return mc.evaluate(), nanmedian3D(cube, overwrite_input=o.overwrite)
'''
for im in (True, False):
    add(Entry("median:" + ("mem" if im else "disk"), MED_SRC, ["img1", "img2", "cube", "o"], {
        "img1": arr(IMG, unit=DN), "img2": arr(IMG, unit=DN), "cube": arr(("N", "Y", "X"), unit=DN),
        "o": dict(kind="opaque"), "o.full_shape": dict(kind="opaque"), "o.in_memory": dict(kind="const", value=im),
        "o.buffer_size": dict(kind="scalar", optional=True), "o.odtype": dict(kind="scalar"),
        "o.tempdir": dict(kind="scalar"), "o.overwrite": SC}, inplace=("cube",), options=["o.tempdir", "o.buffer_size", "o.odtype"] if not im else []))

# ---------------------------------------------------------------------------------------------- resample
RES_SRC = '''
from stcal.resample import Resample

def drive(model1, model2, o):
    r = Resample(output_wcs=o.output_wcs, n_input_models=o.n_input_models, pixfrac=o.pixfrac, kernel=o.kernel,
                 fillval=o.fillval, weight_type=o.weight_type, good_bits=o.good_bits, enable_ctx=o.enable_ctx,
                 enable_var=o.enable_var, compute_err=o.compute_err, propagate_dq=o.propagate_dq,
                 pixmap_stepsize=o.pixmap_stepsize, pixmap_order=o.pixmap_order)
    r.add_model(model1)
    r.add_model(model2)
    r.finalize()
    return r.output_model
'''
RES_OPTS = ["pixfrac", "kernel", "fillval", "weight_type", "good_bits", "enable_ctx", "enable_var", "compute_err",
            "propagate_dq", "pixmap_stepsize", "pixmap_order", "n_input_models"]


def res_specs():
    s = {"o": dict(kind="opaque"), "o.output_wcs": dict(kind="opaque"), "o.output_wcs[wcs]": dict(kind="opaque"),
         "o.output_wcs[pixel_scale]": dict(kind="scalar", optional=True, unit=unit(arcsec=1)),
         "o.output_wcs[pixel_scale_ratio]": dict(kind="scalar", optional=True)}
    for o in RES_OPTS: s["o." + o] = dict(kind="scalar")
    s["o.good_bits"] = dict(kind="scalar", flag="M:good_bits")
    for m in ("model1", "model2"):
        s[m] = dict(kind="dict")
        s[m + "[data]"] = arr(IMG, unit=unit(d=1))
        s[m + "[dq]"] = dqa(IMG)
        for v in ("var_rnoise", "var_poisson", "var_flat"):
            s[f"{m}[{v}]"] = arr(IMG, unit=unit(d=2), optional=True)
        s[m + "[err]"] = arr(IMG, unit=unit(d=1))
        for k in ("effective_exposure_time", "exposure_time", "start_time", "end_time", "duration", "measurement_time",
                  "pixelarea_steradians", "pixelarea_arcsecsq", "bunit_data", "bunit_err", "s_region", "wcsinfo",
                  "group_id", "filename", "level", "subtracted", "is_in_electrons"):
            s[f"{m}[{k}]"] = dict(kind="scalar", unit="top")
        s[f"{m}[wcs]"] = dict(kind="opaque")
    return s


add(Entry("resample:stack", RES_SRC, ["model1", "model2", "o"], res_specs(),
          dq=(), options=["o." + x for x in RES_OPTS]))

# ---------------------------------------------------------------------------------------------- skymatch
SKY_SRC = '''
from stcal.skymatch import skymatch, SkyImage, SkyGroup, SkyStats

def drive(image1, image2, image3, mask1, mask2, mask3, wcs, o):
    stat = SkyStats(o.skystat, o.lower, o.upper, o.nclip, o.lsigma, o.usigma, o.binwidth)
    a = SkyImage(image1, mask1, wcs.fwd, wcs.inv, stat, 'a', o.stepsize, None)
    b = SkyImage(image2, mask2, wcs.fwd, wcs.inv, stat, 'b', o.stepsize, None)
    c = SkyImage(image3, mask3, wcs.fwd, wcs.inv, stat, 'c', o.stepsize, None)
    g = SkyGroup([a, b], sky_id='g')
    r = skymatch([g, c], o.skymethod, o.match_down, o.subtract)
    return a, b, c, g, r
'''
SKY_OPTS = ["skystat", "lower", "upper", "nclip", "lsigma", "usigma", "binwidth", "stepsize", "match_down", "subtract", "skymethod"]
for meth in ("local", "global", "match", "global+match"):
    s = {"o": dict(kind="opaque"), "wcs": dict(kind="opaque")}
    for o in SKY_OPTS: s["o." + o] = dict(kind="scalar")
    s["o.skymethod"] = dict(kind="const", value=meth)
    s["o.stepsize"] = dict(kind="scalar", optional=True)
    s["o.lower"] = dict(kind="scalar", optional=True, unit=DN); s["o.upper"] = dict(kind="scalar", optional=True, unit=DN)
    for i in "123":
        s["image" + i] = arr(IMG, unit=DN)
        s["mask" + i] = arr(IMG)
    add(Entry("skymatch:" + meth, SKY_SRC, ["image1", "image2", "image3", "mask1", "mask2", "mask3", "wcs", "o"], s,
              inplace=("image1", "image2", "image3"), options=["o." + x for x in SKY_OPTS if x != "skymethod"]))

# ---------------------------------------------------------------------------------------------- tweakreg
REL_OPTS = ["searchrad", "separation", "use2dhist", "tolerance", "xoffset", "yoffset", "enforce_user_order",
            "expand_refcat", "minobj", "fitgeometry", "nclip", "sigma", "clip_accum"]
TWR_SRC = """
from stcal.tweakreg import tweakreg

def drive(correctors, o):
    return tweakreg.relative_align(correctors, """ + ", ".join(f"{x}=o.{x}" for x in REL_OPTS) + """)
"""


def angspec(**kw): return dict(kind="scalar", **kw)


def opts(names, **special):
    d = {"o": dict(kind="opaque")}
    for n in names: d["o." + n] = dict(special.get(n, SC))
    return d


add(Entry("tweakreg:relative", TWR_SRC, ["correctors", "o"],
          dict(opts(REL_OPTS), correctors=dict(kind="opaque")), inplace=("correctors",),
          options=["o." + x for x in REL_OPTS]))

ABS_OPTS = ["save_abs_catalog", "abs_catalog_output_dir", "abs_searchrad", "abs_separation", "abs_use2dhist",
            "abs_tolerance", "abs_minobj", "abs_fitgeometry", "abs_nclip", "abs_sigma", "clip_accum", "timeout"]
TWA_SRC = """
from stcal.tweakreg import tweakreg

def drive(correctors, ref_wcs, ref_wcsinfo, o):
    return tweakreg.absolute_align(correctors, o.abs_refcat, ref_wcs, ref_wcsinfo, o.epoch, """ + ", ".join(f"{x}=o.{x}" for x in ABS_OPTS) + """)
"""
add(Entry("tweakreg:absolute", TWA_SRC, ["correctors", "ref_wcs", "ref_wcsinfo", "o"],
          dict(opts(ABS_OPTS + ["abs_refcat", "epoch"], abs_catalog_output_dir=dict(kind="scalar", optional=True),
                    epoch=dict(kind="scalar", optional=True)),
               correctors=dict(kind="opaque"), ref_wcs=dict(kind="opaque"), ref_wcsinfo=dict(kind="opaque")),
          inplace=("correctors",), options=["o." + x for x in ABS_OPTS + ["abs_refcat", "epoch"]]))

TWX_SRC = """
from stcal.tweakreg import tweakreg
from stcal.tweakreg.astrometric_utils import create_astrometric_catalog, get_catalog, compute_radius
from stcal.tweakreg.utils import _wcsinfo_from_wcs_transform

def drive(catalog, wcs, refang, o):
    a = tweakreg.filter_catalog_by_bounding_box(catalog, o.bounding_box)
    b = tweakreg.construct_wcs_corrector(wcs, refang, catalog, o.group_id)
    c = create_astrometric_catalog(wcs, o.epoch, catalog=o.catalog, output=o.output, table_format=o.table_format,
                                   num_sources=o.num_sources, timeout=o.timeout)
    return a, b, c, _wcsinfo_from_wcs_transform(wcs)
"""
add(Entry("tweakreg:catalog", TWX_SRC, ["catalog", "wcs", "refang", "o"],
          dict(opts(["bounding_box", "group_id", "epoch", "catalog", "output", "table_format", "num_sources", "timeout"],
                    epoch=dict(kind="scalar", optional=True), output=dict(kind="scalar", optional=True),
                    bounding_box=dict(kind="opaque", optional=True), num_sources=dict(kind="scalar", optional=True)),
               catalog=dict(kind="opaque"), wcs=dict(kind="opaque"), refang=dict(kind="opaque")),
          options=["o.epoch", "o.catalog", "o.output", "o.table_format", "o.num_sources", "o.timeout", "o.group_id"]))

# ---------------------------------------------------------------------------------------------- alignment
ALN_SRC = """
from stcal.alignment import util, resample_utils

def drive(footprints, ref_wcs, ref_wcsinfo, wcslist, roll_ref, v3i_yangle, o):
    w = util.wcs_from_sregions(footprints, ref_wcs, ref_wcsinfo, transform=o.transform, pscale_ratio=o.pscale_ratio,
                               pscale=o.pscale, rotation=o.rotation, shape=o.oshape, crpix=o.crpix, crval=o.crval)
    f = util.compute_fiducial(wcslist, o.bounding_box)
    s = util.compute_scale(ref_wcs, o.fiducial, o.disp_axis, o.pscale_ratio)
    r = util.calc_rotation_matrix(roll_ref, v3i_yangle, o.vparity)
    k = util.compute_s_region_imaging(o.swcs, o.oshape, o.center)
    b = util.wcs_bbox_from_shape(o.oshape2)
    c = resample_utils.combine_sregions(footprints, o.det2world, o.intersect)
    return w, f, s, r, k, b, c
"""
add(Entry("alignment:all", ALN_SRC, ["footprints", "ref_wcs", "ref_wcsinfo", "wcslist", "roll_ref", "v3i_yangle", "o"],
          dict(opts(["pscale_ratio", "pscale", "rotation", "oshape", "crpix", "crval", "disp_axis", "vparity",
                     "center", "transform", "bounding_box", "fiducial", "swcs", "oshape2", "det2world", "intersect"],
                    pscale_ratio=dict(kind="scalar", optional=True, unit="poly"),
                    pscale=dict(kind="scalar", optional=True, unit=unit(deg=1)),
                    rotation=dict(kind="scalar", optional=True, unit=unit(deg=1)),
                    oshape=dict(kind="opaque", optional=True), crpix=dict(kind="opaque", optional=True),
                    crval=dict(kind="opaque", optional=True), disp_axis=dict(kind="scalar", optional=True),
                    transform=dict(kind="opaque", optional=True), bounding_box=dict(kind="opaque", optional=True),
                    fiducial=dict(kind="opaque"), swcs=dict(kind="opaque"), oshape2=dict(kind="opaque"),
                    det2world=dict(kind="opaque"), intersect=dict(kind="opaque", optional=True)),
               footprints=dict(kind="opaque"), ref_wcs=dict(kind="opaque"), wcslist=dict(kind="opaque"),
               ref_wcsinfo=dict(kind="dict"),
               roll_ref=dict(kind="scalar", unit=unit(rad=1)), v3i_yangle=dict(kind="scalar", unit=unit(rad=1)),
               **{"ref_wcsinfo[roll_ref]": dict(kind="scalar", unit=unit(deg=1)),
                  "ref_wcsinfo[v3yangle]": dict(kind="scalar", unit=unit(deg=1)),
                  "o.swcs.bounding_box": dict(kind="opaque", optional=True), "ref_wcs.bounding_box": dict(kind="opaque", optional=True),
                  "ref_wcsinfo[vparity]": dict(kind="scalar", unit="poly"),
                  "ref_wcsinfo[ra_ref]": dict(kind="scalar", unit=unit(deg=1)),
                  "ref_wcsinfo[dec_ref]": dict(kind="scalar", unit=unit(deg=1))}),
          options=["o." + x for x in ("pscale_ratio", "pscale", "rotation", "oshape", "crpix", "crval", "transform",
                                      "bounding_box", "disp_axis", "vparity", "center", "intersect")]))

# ---------------------------------------------------------------------------------------------- resample utilities
RSU_SRC = """
from stcal.resample import utils

def drive(model, wcs_from, wcs_to, o):
    p = utils.calc_pixmap(wcs_from, wcs_to, o.oshape, o.disable_bbox, o.stepsize, o.order)
    w = utils.build_driz_weight(model, o.weight_type, o.good_bits, o.flag_name_map)
    a = utils.compute_mean_pixel_area(wcs_from, o.oshape)
    t = utils.get_tmeasure(model)
    m = utils.build_mask(model["dq"], o.good_bits, o.flag_name_map)
    r = utils.resample_range(o.oshape2, o.bbox)
    return p, w, a, t, m, r, utils.is_flux_density(o.bunit), utils.is_imaging_wcs(wcs_from)
"""
_s = dict(opts(["oshape", "disable_bbox", "stepsize", "order", "weight_type", "good_bits", "flag_name_map", "bbox",
                "oshape2", "bunit"],
               oshape=dict(kind="opaque", optional=True), oshape2=dict(kind="opaque"), good_bits=dict(kind="scalar"),
               bbox=dict(kind="opaque", optional=True), flag_name_map=dict(kind="opaque", optional=True)),
          wcs_from=dict(kind="opaque"), wcs_to=dict(kind="opaque"), model=dict(kind="dict"))
_s.update({"model[data]": arr(IMG, unit=unit(d=1)), "model[dq]": dqa(IMG),
           "wcs_from.bounding_box": dict(kind="opaque", optional=True), "wcs_to.bounding_box": dict(kind="opaque", optional=True),
           "wcs_from.array_shape": dict(kind="opaque", optional=True),
           "model[var_rnoise]": arr(IMG, unit=unit(d=2), optional=True),
           "model[var_sky]": arr(IMG, unit=unit(d=2), optional=True),
           "model[measurement_time]": dict(kind="scalar", optional=True, unit=T),
           "model[exposure_time]": dict(kind="scalar", unit=T)})
add(Entry("resample:utils", RSU_SRC, ["model", "wcs_from", "wcs_to", "o"], _s,
          options=["o." + x for x in ("oshape", "disable_bbox", "stepsize", "order", "weight_type", "good_bits",
                                      "flag_name_map", "bbox")]))

# ---------------------------------------------------------------------------------------------- small ones
VEL_SRC = """
from stcal.velocity_aberration import compute_va_effects_vector, compute_va_effects

def drive(vx, vy, vz, u, ra, dec):
    return compute_va_effects_vector(vx, vy, vz, u), compute_va_effects(vx, vy, vz, ra, dec)
"""
_k = unit(km=1, s=-1)
add(Entry("velocity:all", VEL_SRC, ["vx", "vy", "vz", "u", "ra", "dec"], {
    "vx": dict(kind="scalar", unit=_k), "vy": dict(kind="scalar", unit=_k), "vz": dict(kind="scalar", unit=_k),
    "u": arr(("v",), unit=unit()), "ra": dict(kind="scalar", unit=unit(deg=1)), "dec": dict(kind="scalar", unit=unit(deg=1))},
    options=["vx", "vy", "vz", "ra", "dec", "u"]))

CORES_SRC = """
from stcal.multiprocessing import compute_num_cores

def drive(max_cores, nchunks, max_available):
    return compute_num_cores(max_cores, nchunks, max_available)
"""
add(Entry("cores:all", CORES_SRC, ["max_cores", "nchunks", "max_available"],
          {"max_cores": SC, "nchunks": SC, "max_available": SC}, options=["max_cores", "nchunks", "max_available"]))

# ---------------------------------------------------------------------------------------------- option records, printing, properties
_jd = {k: v for k, v in jump_specs(False).items()}
add(Entry("jump:defaults", """
from stcal.jump.jump import detect_jumps_data
from stcal.jump.jump_class import JumpData

def drive(model, gain, rnoise, dqflags, o):
    jd = JumpData(model, gain, rnoise, dqflags)
    jd.expand_large_events = o.expand_large_events
    jd.find_showers = o.find_showers
    jd.only_use_ints = o.only_use_ints
    jd.minimum_sigclip_groups = o.minimum_sigclip_groups
    jd.max_cores = o.max_cores
    return detect_jumps_data(jd)
""", ["model", "gain", "rnoise", "dqflags", "o"], _jd, inplace=("model.groupdq", "model.pixeldq"),
          dq=("model.groupdq", "model.pixeldq")))

add(Entry("jump:records", """
from stcal.jump.jump_class import JumpData
from stcal.jump.twopoint_difference_class import TwoPointParams

def drive(model, gain, rnoise, dqflags, data, gdq, pdq, fd):
    jd = JumpData(model, gain, rnoise, dqflags)
    jd.print_jump_data()
    jd.print_jump_data(fd)
    jd.print_jump_data(fd=fd)
    j2 = JumpData(gain2d=gain, rnoise2d=rnoise)
    j2.init_arrays_from_arrays(data, gdq, pdq)
    j2.nframes = 4
    j2.print_jump_data(fd)
    return jd, j2, repr(TwoPointParams())
""", ["model", "gain", "rnoise", "dqflags", "data", "gdq", "pdq", "fd"],
          dict(_jd, data=arr(CUBE4, unit=DN), gdq=dqa(CUBE4), pdq=dqa(IMG), fd=dict(kind="opaque", optional=True)), step="jump"))

_rs = ramp_specs("OLS_C")
add(Entry("ramp:records", """
from stcal.ramp_fitting import ramp_fit
from stcal.ramp_fitting.likely_algo_classes import RampResult
from stcal.ramp_fitting import likely_fit

def drive(model, dqflags, fd, a, s, readnoise_2d, gain_2d):
    rd = ramp_fit.create_ramp_fit_class(model, s.algorithm, dqflags, s.one)
    rd.dbg_print_types()
    rd.dbg_print_meta()
    rd.dbg_print_mp()
    rd.dbg_print_zframe()
    rd.dbg_print_1grp()
    rd.dbg_print_basic_info()
    rd.dbg_print_pixel_info(s.row, s.col)
    rd.dbg_print_info()
    rd.dbg_write_ramp_data_pix(s.name, s.row, s.col, gain_2d, readnoise_2d)
    return repr(RampResult())
""", ["model", "dqflags", "fd", "a", "s", "readnoise_2d", "gain_2d"],
          dict(_rs, fd=dict(kind="opaque"), a=dict(kind="opaque"), s=dict(kind="opaque"),
               **{"s.algorithm": SC, "s.one": SC, "s.row": SC, "s.col": SC, "s.name": SC}), step="ramp"))

add(Entry("likely:direct", """
from stcal.ramp_fitting import likely_fit
from stcal.ramp_fitting.likely_algo_classes import Covar

def drive(diffs, readtimes, gain, rnoise, o):
    covar = Covar(readtimes)
    a = likely_fit.fit_ramps(diffs, covar, gain, rnoise, detect_jumps=o.detect_jumps, rescale=o.rescale, dn_scale=o.dn_scale)
    b = likely_fit.mask_jumps(diffs, covar, rnoise, gain)
    return a, b
""", ["diffs", "readtimes", "gain", "rnoise", "o"],
          {"diffs": arr(("G'", "X"), unit=unit(ct=1, s=-1)), "readtimes": dict(kind="opaque"), "gain": arr(("X",), unit=E_DN),
           "rnoise": arr(("X",), unit=RN), "o": dict(kind="opaque"), "o.detect_jumps": SC, "o.rescale": SC,
           "o.dn_scale": SC}, step="likely"))

_ls = ramp_specs("LIKELY")
add(Entry("likely:jumpdata", """
from stcal.ramp_fitting import ramp_fit, likely_fit
from stcal.jump.jump_class import JumpData

def drive(model, o, readnoise_2d, gain_2d, dqflags):
    rd = ramp_fit.create_ramp_fit_class(model, "LIKELY", dqflags, o.suppress_one_group)
    rd.rejection_threshold = o.rejection_threshold
    jd = JumpData(dqflags=dqflags)
    jd.expand_large_events = True
    return likely_fit.likely_ramp_fit(rd, readnoise_2d, gain_2d, jd)
""", ["model", "o", "readnoise_2d", "gain_2d", "dqflags"],
          dict(_ls, **{"o.rejection_threshold": dict(kind="scalar", optional=True)}), inplace=("model.groupdq",),
          dq=("model.groupdq", "model.pixeldq"), options=["o.rejection_threshold"], step="ramp"))

_r = res_specs()
add(Entry("resample:properties", """
from stcal.resample import Resample

def drive(model1, o):
    r = Resample(output_wcs=o.output_wcs, n_input_models=o.n_input_models, pixfrac=o.pixfrac, kernel=o.kernel,
                 fillval=o.fillval, weight_type=o.weight_type, good_bits=o.good_bits, enable_ctx=o.enable_ctx,
                 enable_var=o.enable_var, compute_err=o.compute_err, propagate_dq=o.propagate_dq)
    p = (r.output_pixel_scale, r.enable_ctx, r.enable_var, r.compute_err, r.propagate_dq, r.group_ids, r.is_finalized(),
         r.output_wcs, r.output_array_shape, r.pixel_scale_ratio, r.output_model)
    r.add_model(model1)
    r.reset_arrays(o.n2)
    r.add_model(model1)
    r.finalize()
    return p
""", ["model1", "o"], dict({k: v for k, v in _r.items() if not k.startswith("model2")}, **{"o.n2": SC}), step="resample"))

add(Entry("alignment:private", """
from stcal.alignment.util import _validate_wcs_list, compute_s_region_keyword, sregion_to_footprint
from stcal._testing.memory_threshold import MemoryThreshold

def drive(wcslist, footprint, s):
    with MemoryThreshold(s.usage) as m:
        _validate_wcs_list(wcslist)
    return compute_s_region_keyword(footprint), sregion_to_footprint(s.region)
""", ["wcslist", "footprint", "s"], {"wcslist": dict(kind="opaque"), "footprint": dict(kind="opaque"), "s": dict(kind="opaque"),
                                      "s.usage": SC, "s.region": SC}, step="alignment"))
