"""Every public processing function with realistic arguments.

build(name, rng, size) returns (module, args, kwargs); the *shapes* of the
arguments depend on `size` only, their values on rng, so that two builds of
one size differ in values alone (the worst case for state shared between
calls)."""
import numpy as np

from . import gen
from .target import Target, shade

ENTRIES = {}


def entry(mod, *names, weight=1):
    def deco(fn):
        for n in names:
            ENTRIES[n] = (mod, fn, weight)
        return fn
    return deco


def build(name, rng, size):
    mod, fn, _ = ENTRIES[name]
    args, kw = fn(name, rng, size)
    return mod, args, kw


def frame(size):
    return 30 + 7 * size, 36 + 5 * size


def img(rng, size, dtypes=("float64", "float32", "uint8", "uint16")):
    h, w = frame(size)
    return gen.image(rng, h, w, gen.pick(rng, list(dtypes)))


def model(rng, h, w):
    xc, yc = rng.uniform(0.35, 0.65) * w, rng.uniform(0.35, 0.65) * h
    fact = gen.radial_model(rng, gen.rmax_of(h, w, xc, yc),
                            nf=int(rng.integers(3, 6)))
    form = int(rng.integers(2))
    return float(xc), float(yc), (list(map(float, fact)) if form else fact)


def grid_lines(rng, size, tilt=0.0, dist=True):
    """hor, ver lines of a distorted (optionally tilted) lattice"""
    n, m, pitch = 7 + size % 4, 8 + size % 3, 60.0
    i, j = np.mgrid[:n, :m].astype(float)
    y0, x0 = (n - 1) / 2 + rng.uniform(-.2, .2), \
        (m - 1) / 2 + rng.uniform(-.2, .2)
    v, u = (i - y0) * pitch, (j - x0) * pitch
    t = np.deg2rad(rng.uniform(-2, 2))
    x = u * np.cos(t) - v * np.sin(t)
    y = u * np.sin(t) + v * np.cos(t)
    if tilt:
        d = 1 + tilt * (x * rng.uniform(.4, 1) + y * rng.uniform(.4, 1)) / 600
        x, y = x / d, y / d
    if dist:
        k = rng.choice([-1, 1]) * rng.uniform(0.01, 0.05) / 300 ** 2
        s = 1 + k * (x ** 2 + y ** 2)
        x, y = x * s, y * s
    y, x = y + 330, x + 300
    p = np.stack([y, x], -1)
    dt = gen.pick(rng, ["float64", "float64", "float32"])
    hor = [p[a].astype(dt) for a in range(n)]
    ver = [p[:, b].astype(dt) for b in range(m)]
    if rng.random() < 0.3:
        hor[0] = hor[0][1:]
    return hor, ver


def dots(rng, size, binary=False):
    pitch = 16.0
    n = 8 + size % 3
    h, w = int(pitch * n), int(pitch * (n + 1))
    t = Target(h, w, pitch, pitch, rng.uniform(-3, 3),
               rng.uniform(-4, 4), rng.uniform(-4, 4))
    a = t.dots(3.6)
    if binary:
        return np.float32(a > 0.5), t
    return shade(rng, a, gen.pick(rng, ["float64", "float32", "uint8",
                                        "uint16"]), noise=0.01), t


def cloud(rng, size):
    t = Target(160 + 10 * (size % 4), 190, 16.0, 16.0, rng.uniform(-3, 3))
    pts = np.array(sorted(t.nodes(4).values()))
    return pts[:96] + rng.normal(0, 0.3, (96, 2)), t


def pattern(rng, size, chess=False):
    px, py = 27.0, 25.0
    h, w = 150 + 10 * (size % 4), 170 + 10 * (size % 3)
    t = Target(h, w, px, py, rng.uniform(-3, 3), rng.uniform(-5, 5),
               rng.uniform(-5, 5))
    a = t.chess() if chess else 1 - t.lines(3.0)
    return shade(rng, a, gen.pick(rng, ["float64", "float32", "uint8"]),
                 noise=0.005), t


# -- post --------------------------------------------------------------------
@entry("post", "unwarp_line_forward", "unwarp_line_backward")
def _(name, rng, size):
    hor, _ = grid_lines(rng, size)
    xc, yc, f = model(rng, 700, 600)
    return [hor, xc, yc, f], {}


@entry("post", "unwarp_image_backward", weight=3)
def _(name, rng, size):
    a = img(rng, size)
    xc, yc, f = model(rng, *a.shape)
    return [a, xc, yc, f], {"order": int(rng.integers(0, 4)),
                            "mode": gen.pick(rng, gen.MODES)}


@entry("post", "unwarp_image_forward")
def _(name, rng, size):
    a = img(rng, size)
    xc, yc, f = model(rng, *a.shape)
    return [a, xc, yc, f], {}


@entry("post", "unwarp_slice_backward", "unwarp_chunk_slices_backward",
       weight=3)
def _(name, rng, size):
    a = np.stack([img(rng, size, ("float32",)) for _ in range(3)])
    xc, yc, f = model(rng, *a.shape[1:])
    h = a.shape[1]
    i = int(rng.integers(2, h - 8))
    if name == "unwarp_slice_backward":
        return [a, xc, yc, f, i], {}
    return [a, xc, yc, f, i, i + int(rng.integers(1, 6))], {}


@entry("post", "calc_residual_hor", "calc_residual_ver")
def _(name, rng, size):
    hor, ver = grid_lines(rng, size)
    return [hor if name.endswith("hor") else ver, 300.0, 330.0], {}


@entry("post", "check_distortion")
def _(name, rng, size):
    return [rng.random((40 + size, 2)) * rng.uniform(0.5, 3)], {}


def hom(rng):
    return [1 + rng.uniform(-.05, .05), rng.uniform(-.05, .05),
            rng.uniform(-4, 4), rng.uniform(-.05, .05),
            1 + rng.uniform(-.05, .05), rng.uniform(-4, 4),
            rng.uniform(-1, 1) * 1e-4, rng.uniform(-1, 1) * 1e-4]


@entry("post", "correct_perspective_line")
def _(name, rng, size):
    hor, _ = grid_lines(rng, size)
    return [hor, hom(rng)], {}


@entry("post", "correct_perspective_image", weight=3)
def _(name, rng, size):
    a = img(rng, size)
    kw = {"order": int(rng.integers(0, 4)),
          "mode": gen.pick(rng, gen.MODES)}
    if rng.random() < 0.3:
        h, w = a.shape
        kw["map_index"] = np.stack([rng.uniform(0, h - 1, a.size),
                                    rng.uniform(0, w - 1, a.size)])
    return [a, np.array(hom(rng))], kw


# -- proc --------------------------------------------------------------------
@entry("proc", "find_cod_coarse", "find_cod_bailey",
       "find_center_based_vanishing_points",
       "find_center_based_vanishing_points_iteration")
def _(name, rng, size):
    return list(grid_lines(rng, size, tilt=0.1 if "vanish" in name
                           else 0.0)), {}


@entry("proc", "find_cod_fine", weight=0.3)
def _(name, rng, size):
    # (81 trial centres a call: few lines keep it affordable)
    hor, ver = grid_lines(rng, size)
    return [hor[1:6], ver[2:7], 300.0 + rng.uniform(-2, 2), 330.0, 2.5], {}


@entry("proc", "calc_coef_backward", "calc_coef_forward",
       "calc_coef_backward_from_forward", weight=2)
def _(name, rng, size):
    hor, ver = grid_lines(rng, size)
    return [hor, ver, 300.0, 330.0, int(rng.integers(3, 6))], \
        {"optimizing": bool(rng.integers(2))}


@entry("proc", "transform_coef_backward_and_forward")
def _(name, rng, size):
    _, _, f = model(rng, 700, 600)
    kw = {"mapping": gen.pick(rng, ["backward", "forward"])}
    if rng.random() < 0.6:
        kw["ref_points"] = rng.uniform(-300, 300, (40 + size, 2))
    return [f], kw


@entry("proc", "regenerate_grid_points_parabola")
def _(name, rng, size):
    return list(grid_lines(rng, size)), {
        "perspective": bool(rng.integers(2)),
        "find_center": bool(rng.integers(2))}


@entry("proc", "regenerate_grid_points_linear",
       "generate_undistorted_perspective_lines",
       "generate_source_target_perspective_points", weight=2)
def _(name, rng, size):
    hor, ver = grid_lines(rng, size, tilt=0.1, dist=False)
    if name.startswith("regen"):
        return [hor, ver], {}
    return [hor, ver], {"equal_dist": bool(rng.integers(2)), "scale":
                        gen.pick(rng, ["mean", "max", "min", 1.2]),
                        "optimizing": bool(rng.integers(2))}


@entry("proc", "generate_4_source_target_perspective_points")
def _(name, rng, size):
    p = np.array([[10, 12], [14, 210], [180, 205], [190, 20.0]])
    p = p + rng.uniform(-5, 5, p.shape)
    if rng.integers(2):
        p = p.tolist()
    return [p], {"input_order": gen.pick(rng, ["yx", "xy"]),
                 "equal_dist": bool(rng.integers(2)),
                 "scale": gen.pick(rng, ["mean", "max", "min", 1.5])}


@entry("proc", "calc_perspective_coefficients", weight=2)
def _(name, rng, size):
    n = 4 + size % 5
    s = rng.uniform(0, 300, (n, 2))
    t = s * rng.uniform(.9, 1.1) + rng.uniform(-3, 3, (n, 2))
    if rng.integers(2):
        s, t = s.tolist(), t.tolist()
    return [s, t], {"mapping": gen.pick(rng, ["backward", "forward"])}


@entry("proc", "update_center")
def _(name, rng, size):
    return [grid_lines(rng, size)[0], float(rng.normal()), 5], {}


@entry("proc", "correct_perspective_effect", weight=2)
def _(name, rng, size):
    hor, ver = grid_lines(rng, size, tilt=0.1)
    return [hor, ver, 300.0, 330.0], {
        "method": gen.pick(rng, ["mean", "min", "max", "median"]),
        "scale": gen.pick(rng, ["mean", "max", "min", 1.1])}


# -- prep --------------------------------------------------------------------
@entry("prep", "normalization")
def _(name, rng, size):
    return [img(rng, size)], {"size": int(rng.integers(3, 12))}


@entry("prep", "normalization_fft", weight=2)
def _(name, rng, size):
    return [img(rng, size)], {"sigma": int(rng.integers(3, 12)),
                              "pad": int(rng.integers(1, 30))}


@entry("prep", "binarization", weight=2)
def _(name, rng, size):
    kw = {"denoise": bool(rng.integers(2))}
    if rng.integers(2):
        kw["thres"] = None
    return [dots(rng, size)[0]], kw


@entry("prep", "check_num_dots", "calc_size_distance",
       "select_dots_based_ratio", "calc_hor_slope", "calc_ver_slope")
def _(name, rng, size):
    return [dots(rng, size, True)[0]], {}


@entry("prep", "select_dots_based_size")
def _(name, rng, size):
    return [dots(rng, size, True)[0], 41.0], {"ratio": 0.2}


@entry("prep", "select_dots_based_distance")
def _(name, rng, size):
    return [dots(rng, size, True)[0], 16.0], {}


@entry("prep", "group_dots_hor_lines", "group_dots_ver_lines", weight=2)
def _(name, rng, size):
    s = "slope_hor" if "hor" in name else "slope_ver"
    if rng.integers(2):
        a, t = dots(rng, size, True)
    else:
        a, t = cloud(rng, size)
    return [a, getattr(t, s), 16.0], {}


@entry("prep", "group_dots_hor_lines_based_polyfit",
       "group_dots_ver_lines_based_polyfit", weight=2)
def _(name, rng, size):
    a, t = cloud(rng, size)
    s = "slope_hor" if "hor" in name else "slope_ver"
    return [a, getattr(t, s), 16.0], {}


@entry("prep", "remove_residual_dots_hor", "remove_residual_dots_ver")
def _(name, rng, size):
    hor, ver = grid_lines(rng, size)
    ls = hor if name.endswith("hor") else ver
    ls = [a + rng.normal(0, 1.5, a.shape).astype(a.dtype) for a in ls]
    return [ls, float(rng.uniform(-.02, .02)), 1.5], {}


@entry("prep", "calculate_threshold")
def _(name, rng, size):
    return [img(rng, size)], {"bgr": gen.pick(rng, ["bright", "dark"]),
                              "snr": float(rng.uniform(0, 4))}


@entry("prep", "make_parabola_mask")
def _(name, rng, size):
    h, w = frame(size)
    return [h, w], {"hor_margin": int(rng.integers(1, 9)), "ver_margin":
                    (3, int(rng.integers(1, 9))), "rotate":
                    float(rng.uniform(-5, 5))}


@entry("prep", "remove_points_using_parabola_mask")
def _(name, rng, size):
    h, w = frame(size)
    return [rng.uniform(0, 1, (60, 2)) * [h - 1, w - 1], h, w], {
        "hor_margin": 4, "ver_margin": int(rng.integers(1, 9))}


@entry("prep", "get_points_dot_pattern")
def _(name, rng, size):
    b = bool(rng.integers(2))
    return [dots(rng, size, not b)[0]], {"binarize": b}


@entry("prep", "rotate_points")
def _(name, rng, size):
    return [rng.uniform(0, 99, (20 + size, 2)), float(rng.uniform(-90, 90))],\
        {"degree_unit": bool(rng.integers(2))}


@entry("prep", "remove_subset_points")
def _(name, rng, size):
    p = rng.uniform(0, 99, (30 + size, 2))
    return [p[rng.permutation(len(p))[:8]].copy(), p], {}


# -- linepattern -------------------------------------------------------------
@entry("linep", "locate_subpixel_point")
def _(name, rng, size):
    return [rng.random(3 + size % 6)], {"option": gen.pick(rng, ["min",
                                                                 "max"])}


def profile(rng, size):
    x = np.arange(120 + 9 * size)
    s = 2.0 + 0 * x
    for q in np.arange(12 + rng.uniform(0, 5), len(x) - 8, 31):
        s = s - 1.2 * np.exp(-(x - q) ** 2 / 8.0)
    return s + rng.normal(0, 0.01, len(x))


@entry("linep", "select_good_peaks")
def _(name, rng, size):
    s = 2 - profile(rng, size)
    return [s, [int(v) for v in np.argsort(s)[-3:]] + [50, 70]], {}


@entry("linep", "sliding_window_slope")
def _(name, rng, size):
    return [profile(rng, size)], {"size": int(rng.integers(3, 8)),
                                  "norm": bool(rng.integers(2))}


@entry("linep", "get_local_extrema_points", weight=2)
def _(name, rng, size):
    return [profile(rng, size)], {"option": gen.pick(rng, ["min", "max"]),
                                  "denoise": bool(rng.integers(2)),
                                  "norm": bool(rng.integers(2)),
                                  "subpixel": bool(rng.integers(2))}


@entry("linep", "calc_slope_distance_hor_lines",
       "calc_slope_distance_ver_lines")
def _(name, rng, size):
    c = bool(rng.integers(2))
    a, t = pattern(rng, size, c)
    return [a], {"chessboard": c, "search_range": 5.0, "radius": 7,
                 "ratio": 0.6, "select_peaks": bool(rng.integers(2))}


@entry("linep", "get_tilted_profile", weight=2)
def _(name, rng, size):
    a = img(rng, size)
    return [a, min(a.shape) // 2, float(rng.uniform(-8, 8)),
            gen.pick(rng, ["horizontal", "vertical"])], {}


@entry("linep", "convert_chessboard_to_linepattern")
def _(name, rng, size):
    return [pattern(rng, size, True)[0]], {
        "bgr": gen.pick(rng, ["bright", "dark"]),
        "smooth": bool(rng.integers(2))}


@entry("linep", "get_cross_points_hor_lines", "get_cross_points_ver_lines")
def _(name, rng, size):
    c = bool(rng.integers(2))
    a, t = pattern(rng, size, c)
    if "hor" in name:
        return [a, t.slope_ver, t.px], {"chessboard": c, "radius": 7}
    return [a, t.slope_hor, t.py], {"chessboard": c, "radius": 7}


# -- util --------------------------------------------------------------------
@entry("util", "make_dot_pattern")
def _(name, rng, size):
    h, w = frame(size)
    return [h, w, 14, int(rng.integers(4, 9)), 8], {}


@entry("util", "make_line_pattern")
def _(name, rng, size):
    h, w = frame(size)
    return [h, w, 14, int(rng.integers(1, 6)), 8], {}


@entry("util", "make_chessboard")
def _(name, rng, size):
    h, w = frame(size)
    return [h, w, int(rng.integers(5, 9)), 8, float(rng.random())], {}


@entry("util", "make_circle_mask")
def _(name, rng, size):
    return [15 + size, float(rng.uniform(0.2, 1))], {}


@entry("util", "find_point_to_point")
def _(name, rng, size):
    xc, yc, f = model(rng, 700, 600)
    p = (rng.uniform(100, 500), rng.uniform(100, 500))
    p = gen.pick(rng, [p, list(p), np.array(p)])
    return [p, xc, yc, f], {"output_order": gen.pick(rng, ["xy", "yx"])}


@entry("util", "unwarp_color_image_backward", weight=2)
def _(name, rng, size):
    dt = gen.pick(rng, ["uint8", "float32", "float64"])
    h, w = frame(size)
    a = np.stack([gen.image(rng, h, w, dt) for _ in range(3)], -1)
    if rng.integers(3) == 0:
        a = a[..., 0].copy()
    xc, yc, f = model(rng, h, w)
    return [a, xc, yc, f], {"pad": gen.pick(rng, [False, True, 4,
                                                  (1, 2, 3, 4)])}


@entry("util", "unwarp_image_backward_cv2", weight=2)
def _(name, rng, size):
    dt = gen.pick(rng, ["uint8", "float32"])
    h, w = frame(size)
    a = np.stack([gen.image(rng, h, w, dt) for _ in range(3)], -1)
    if rng.integers(3) == 0:
        a = a[..., 0].copy()
    xc, yc, f = model(rng, h, w)
    return [a, xc, yc, f], {"pad": gen.pick(rng, [False, 4, (1, 2, 3, 4)])}


@entry("util", "mapping_cv2")
def _(name, rng, size):
    h, w = frame(size)
    a = gen.image(rng, h, w, "float32")
    y, x = np.mgrid[:h, :w]
    return [a, np.float32(x + rng.uniform(-2, 2)),
            np.float32(y + rng.uniform(-2, 2))], {}
